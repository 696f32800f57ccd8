package termbox

import (
	"errors"

	"simmod/simrt"
)

// Init opens the terminal of the node.
func Init() error {
	n := simrt.Here()
	if n.TermErr {
		n.W.Injected("terminal cannot be opened")
		return errors.New("cannot open the terminal")
	}
	return nil
}

// Close closes it.
func Close() {}

// Size is its size.
func Size() (int, int) {
	n := simrt.Here()
	return n.TermW, n.TermH
}

// PollEvent waits for a key.
func PollEvent() Event { return simrt.PollKey().(Event) }

// Clear starts a new picture.
func Clear(fg, bg Attribute) error {
	if n := simrt.Here(); n.KeepScreen {
		n.Screen.Clear(n.TermW, n.TermH)
	}
	return nil
}

// Flush shows the picture.
func Flush() error {
	if n := simrt.Here(); n.KeepScreen {
		n.Screen.Flush()
	}
	return nil
}

// SetCursor puts the cursor into the picture.
func SetCursor(x, y int) {
	if n := simrt.Here(); n.KeepScreen {
		n.Screen.SetCursor(x, y)
	}
}

// HideCursor takes it away.
func HideCursor() { SetCursor(-1, -1) }

// SetCell draws a character.
func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if n := simrt.Here(); n.KeepScreen {
		n.Screen.Set(x, y, ch)
	}
}

func SetInputMode(m InputMode) InputMode    { return m }
func SetOutputMode(m OutputMode) OutputMode { return m }
func Interrupt()                            {}

// CellBuffer is the screen.
func CellBuffer() []Cell {
	w, h := Size()
	return make([]Cell, w*h)
}
