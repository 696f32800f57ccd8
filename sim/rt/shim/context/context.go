// Package context runs on the simulated clock and scheduler.
package context

import (
	real "context"
	"errors"
	"time"

	"simmod/simrt"
)

type Context = real.Context
type CancelFunc = real.CancelFunc

var Canceled = real.Canceled
var DeadlineExceeded = real.DeadlineExceeded

func Background() Context { return real.Background() }
func TODO() Context       { return real.TODO() }

type ctx struct {
	parent Context
	done   chan struct{}
	err    error
	kids   []*ctx
	dl     time.Time
	hasdl  bool
	k, v   any
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasdl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { return c.err }
func (c *ctx) Value(k any) any {
	if c.k != nil && c.k == k {
		return c.v
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	simrt.CloseAny(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func child(p Context) *ctx {
	c := &ctx{parent: p, done: make(chan struct{})}
	if pc, ok := p.(*ctx); ok {
		if pc.err != nil {
			c.cancel(pc.err)
		} else {
			pc.kids = append(pc.kids, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := child(p)
	return c, func() { c.cancel(Canceled) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	c := child(p)
	c.dl, c.hasdl = simrt.Here().Wall().Add(d), true
	stop := simrt.After(int64(d), func() { c.cancel(DeadlineExceeded) })
	return c, func() { stop(); c.cancel(Canceled) }
}
func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(p, t.Sub(simrt.Here().Wall()))
}
func WithValue(p Context, k, v any) Context {
	c := child(p)
	c.k, c.v = k, v
	return c
}

var _ = errors.New
