// Package simrt is the deterministic simulation runtime: scheduler, clock,
// channels, locks, network, file system and fault injection.
package simrt

// Stream is one recorded sequence of choices. While generating, values come
// from a seeded generator and are recorded; while replaying they come from
// the record, and 0 (the simplest choice) once the record is used up.
type Stream struct {
	Vals   []uint32
	pos    int
	rng    uint64
	replay bool
}

func newStream(seed uint64) *Stream { return &Stream{rng: seed*0x9E3779B97F4A7C15 + 0x1234567} }

// ReplayStream returns a stream that plays vals back.
func ReplayStream(vals []uint32) *Stream { return &Stream{Vals: vals, replay: true} }

func (s *Stream) next() uint64 {
	s.rng += 0x9E3779B97F4A7C15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Used is the number of choices consumed so far.
func (s *Stream) Used() int { return s.pos }

func (s *Stream) draw(gen func() uint32, limit uint32) uint32 {
	var v uint32
	if s.replay {
		if s.pos < len(s.Vals) {
			v = s.Vals[s.pos]
			if limit > 0 && v >= limit {
				v %= limit
			}
		}
	} else {
		v = gen()
		s.Vals = append(s.Vals, v)
	}
	s.pos++
	return v
}

// Intn draws a number in [0,n); 0 is the simplest choice.
func (s *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.draw(func() uint32 { return uint32(s.next() % uint64(n)) }, uint32(n)))
}

// Chance is true with probability num/den; false is the simplest choice.
func (s *Stream) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.draw(func() uint32 {
		if s.next()%uint64(den) < uint64(num) {
			return 1
		}
		return 0
	}, 2) == 1
}

// U32 draws any 32 bit value.
func (s *Stream) U32() uint32 { return s.draw(func() uint32 { return uint32(s.next()) }, 0) }

// U64 draws any 64 bit value.
func (s *Stream) U64() uint64 { return uint64(s.U32())<<32 | uint64(s.U32()) }

// Bytes draws n bytes.
func (s *Stream) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 4 {
		v := s.U32()
		for j := 0; j < 4 && i+j < n; j++ {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	return b
}

// Blob is n bytes that depend on one drawn value only (cheap to shrink).
func (s *Stream) Blob(n int) []byte {
	r := newStream(uint64(s.U32()))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.next())
	}
	return b
}

// Pick draws one of the given weights and returns its index.
func (s *Stream) Pick(weights ...int) int {
	tot := 0
	for _, w := range weights {
		tot += w
	}
	return int(s.draw(func() uint32 {
		x := int(s.next() % uint64(tot))
		for i, w := range weights {
			if x < w {
				return uint32(i)
			}
			x -= w
		}
		return 0
	}, uint32(len(weights))))
}
