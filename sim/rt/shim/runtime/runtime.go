// Package runtime is the part of runtime a program may use.
package runtime

import "simmod/simrt"

// Gosched yields.
func Gosched() { simrt.Yield() }

// GOMAXPROCS is ignored.
func GOMAXPROCS(n int) int { return 4 }

// NumGoroutine is the number of tasks.
func NumGoroutine() int { return len(simrt.W.Tasks()) }

// Goexit ends the task.
func Goexit() { simrt.Exit() }
