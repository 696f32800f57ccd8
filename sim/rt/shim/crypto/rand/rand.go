// Package rand draws from the simulation's choices.
package rand

import (
	"io"

	"simmod/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

// Reader is the source of randomness.
var Reader io.Reader = reader{}

// Read fills b.
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Rand64() >> 13)
	}
	return len(b), nil
}
