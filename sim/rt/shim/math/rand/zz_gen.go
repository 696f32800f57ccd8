// Code generated by shimgen. DO NOT EDIT.

package rand

import (
	real "math/rand"
	"simmod/simrt"
)

var _ = simrt.Cur

var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf

type Rand = real.Rand
type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf
