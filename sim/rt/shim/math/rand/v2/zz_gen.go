// Code generated by shimgen. DO NOT EDIT.

package rand

import (
	real "math/rand/v2"
	"simmod/simrt"
)

var _ = simrt.Cur

type ChaCha8 = real.ChaCha8

var ExpFloat64 = simrt.UnsupFunc(real.ExpFloat64, "math/rand/v2.ExpFloat64")
var NewChaCha8 = real.NewChaCha8
var NewPCG = real.NewPCG
var NewZipf = real.NewZipf
var NormFloat64 = simrt.UnsupFunc(real.NormFloat64, "math/rand/v2.NormFloat64")

type PCG = real.PCG
type Rand = real.Rand
type Source = real.Source

var Uint = simrt.UnsupFunc(real.Uint, "math/rand/v2.Uint")
var UintN = simrt.UnsupFunc(real.UintN, "math/rand/v2.UintN")

type Zipf = real.Zipf
