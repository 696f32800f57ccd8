// Code generated by shimgen. DO NOT EDIT.

package rand

import (
	real "crypto/rand"
	"simmod/simrt"
)

var _ = simrt.Cur

var Int = simrt.UnsupFunc(real.Int, "crypto/rand.Int")
var Prime = simrt.UnsupFunc(real.Prime, "crypto/rand.Prime")
var Text = simrt.UnsupFunc(real.Text, "crypto/rand.Text")
