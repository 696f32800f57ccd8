package simrt

// Picture is what a terminal shows: characters and the cursor, -1 -1 if
// there is none.
type Picture struct {
	W, H   int
	Cells  []rune
	CX, CY int
}

// At is the character at a place, zero outside.
func (p *Picture) At(x, y int) rune {
	if x < 0 || y < 0 || x >= p.W || y >= p.H {
		return 0
	}
	return p.Cells[y*p.W+x]
}

// Screen is a terminal: the picture being drawn and the one shown.
type Screen struct {
	back  Picture
	Shown Picture
	Count int // pictures shown
}

// Clear starts a new picture.
func (s *Screen) Clear(w, h int) {
	if w != s.back.W || h != s.back.H {
		s.back = Picture{W: w, H: h, Cells: make([]rune, w*h), CX: s.back.CX, CY: s.back.CY}
	}
	for i := range s.back.Cells {
		s.back.Cells[i] = ' '
	}
}

// Set draws a character; outside of the screen it is not seen.
func (s *Screen) Set(x, y int, ch rune) {
	if x >= 0 && y >= 0 && x < s.back.W && y < s.back.H {
		s.back.Cells[y*s.back.W+x] = ch
	}
}

// SetCursor moves the cursor.
func (s *Screen) SetCursor(x, y int) { s.back.CX, s.back.CY = x, y }

// Flush shows the picture.
func (s *Screen) Flush() {
	c := append(s.Shown.Cells[:0], s.back.Cells...)
	for i := range c {
		if c[i] < ' ' { // as termbox does
			c[i] = ' '
		}
	}
	s.Shown = s.back
	s.Shown.Cells = c
	s.Count++
}
