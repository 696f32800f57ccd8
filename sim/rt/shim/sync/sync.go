// Package sync is scheduled by the simulator.
package sync

import "simmod/simrt"

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	WaitGroup = simrt.WaitGroup
	Once      = simrt.Once
	Cond      = simrt.Cond
	Pool      = simrt.Pool
	Map       = simrt.Map
	Locker    = simrt.Locker
)

// NewCond returns a condition.
func NewCond(l Locker) *Cond { return simrt.NewCond(l) }

// OnceFunc calls f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue calls f once.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues calls f once.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}
