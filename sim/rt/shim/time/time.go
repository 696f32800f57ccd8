// Package time is the simulated clock.
package time

import (
	real "time"

	"simmod/simrt"
)

// Now is the node's clock.
func Now() real.Time {
	n := simrt.Here()
	if n == nil {
		return real.Unix(1_700_000_000, 0)
	}
	return n.Wall()
}

// Since is the time since t.
func Since(t real.Time) real.Duration { return Now().Sub(t) }

// Until is the time until t.
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

// Sleep pauses the task.
func Sleep(d real.Duration) { simrt.Sleep(int64(d)) }

// Timer is a timer.
type Timer struct {
	C    <-chan real.Time
	c    chan real.Time
	fn   func()
	stop func() bool
}

func (t *Timer) arm(d real.Duration) {
	n := simrt.Here()
	t.stop = simrt.After(int64(d), func() {
		if n != nil && !n.Up {
			return
		}
		if t.fn != nil {
			n.Go("timer", t.fn)
			return
		}
		simrt.Feed(t.c, n.Wall())
	})
}

// NewTimer starts a timer.
func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc calls f in its own task.
func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	t.arm(d)
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool { return t.stop() }

// Reset restarts the timer.
func (t *Timer) Reset(d real.Duration) bool {
	was := t.stop()
	t.arm(d)
	return was
}

// After is NewTimer(d).C.
func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

// Ticker is a ticker.
type Ticker struct {
	C    <-chan real.Time
	c    chan real.Time
	stop func() bool
	off  bool
	gen  int
}

func (t *Ticker) arm(d real.Duration, gen int) {
	n := simrt.Here()
	var step func()
	step = func() {
		if t.off || t.gen != gen || !n.Up {
			return
		}
		simrt.Feed(t.c, n.Wall())
		simrt.After(int64(d), step)
	}
	simrt.After(int64(d), step)
}

// NewTicker starts a ticker.
func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, c: c}
	t.arm(d, 0)
	return t
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.off = true }

// Reset restarts the ticker.
func (t *Ticker) Reset(d real.Duration) {
	t.off = false
	t.gen++
	t.arm(d, t.gen)
}

// Tick is NewTicker(d).C.
func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
