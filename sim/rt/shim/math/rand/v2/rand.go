// Package rand draws from the simulation's choices.
package rand

import (
	real "math/rand/v2"

	"simmod/simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Rand64() }

var r = real.New(src{})

func Int() int                           { return r.Int() }
func IntN(n int) int                     { return r.IntN(n) }
func Int32() int32                       { return r.Int32() }
func Int32N(n int32) int32               { return r.Int32N(n) }
func Int64() int64                       { return r.Int64() }
func Int64N(n int64) int64               { return r.Int64N(n) }
func Uint32() uint32                     { return r.Uint32() }
func Uint32N(n uint32) uint32            { return r.Uint32N(n) }
func Uint64() uint64                     { return r.Uint64() }
func Uint64N(n uint64) uint64            { return r.Uint64N(n) }
func Float32() float32                   { return r.Float32() }
func Float64() float64                   { return r.Float64() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func New(s real.Source) *real.Rand       { return real.New(s) }
