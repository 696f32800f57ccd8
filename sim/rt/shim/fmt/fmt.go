// Package fmt prints to the node's standard output.
package fmt

import (
	real "fmt"

	"simmod/simrt"
)

func Print(a ...any) (int, error)            { return simrt.Stdout(real.Sprint(a...)) }
func Printf(f string, a ...any) (int, error) { return simrt.Stdout(real.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return simrt.Stdout(real.Sprintln(a...)) }
func Scan(a ...any) (int, error)             { panic(simrt.Unsupported("fmt.Scan")) }
func Scanf(f string, a ...any) (int, error)  { panic(simrt.Unsupported("fmt.Scanf")) }
func Scanln(a ...any) (int, error)           { panic(simrt.Unsupported("fmt.Scanln")) }
