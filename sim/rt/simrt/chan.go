package simrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// The channels of the code under test only serve as identities: their
// contents and waiters live here, under the control of the scheduler.
type chst struct {
	ch     any
	id     int
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	t    *Task
	sel  *selState
	idx  int
	val  any
	from *Task
}

// selState is shared by all the waiters of one blocking operation.
type selState struct {
	done bool
	idx  int
	val  any
	ok   bool
	boom bool // woken by a close while sending
}

func state(p unsafe.Pointer, ch any, c int) *chst {
	k := uintptr(p)
	s := W.chans[k]
	if s == nil {
		s = &chst{ch: ch, cap: c, id: len(W.chans) + 1}
		W.chans[k] = s
	}
	return s
}

func ptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.done || w.t.dead || w.t.state == done {
			continue
		}
		return w
	}
	return nil
}

func (s *chst) hasRecv() bool {
	for len(s.recvq) > 0 {
		w := s.recvq[0]
		if w.sel.done || w.t.dead {
			s.recvq = s.recvq[1:]
			continue
		}
		return true
	}
	return false
}

func (s *chst) hasSend() bool {
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		if w.sel.done || w.t.dead {
			s.sendq = s.sendq[1:]
			continue
		}
		return true
	}
	return false
}

func (s *chst) tap(t *Task, v any) {
	if W.Tap != nil {
		W.Tap(t, uintptr(s.id), v)
	}
}

func (s *chst) canSend() bool { return s.closed || s.hasRecv() || len(s.buf) < s.cap }
func (s *chst) canRecv() bool { return len(s.buf) > 0 || s.hasSend() || s.closed }

func (s *chst) doSend(v any) {
	if s.closed {
		panic("send on closed channel")
	}
	if w := pop(&s.recvq); w != nil {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		s.tap(cur, v)
		ready(w.t)
		return
	}
	s.buf = append(s.buf, v)
	s.tap(cur, v)
}

func (s *chst) doRecv() (any, bool) {
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		if w := pop(&s.sendq); w != nil {
			s.buf = append(s.buf, w.val)
			w.sel.done, w.sel.idx = true, w.idx
			s.tap(w.t, w.val)
			ready(w.t)
		}
		return v, true
	}
	if w := pop(&s.sendq); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		s.tap(w.t, w.val)
		ready(w.t)
		return w.val, true
	}
	return nil, false
}

// BlockForever is select {} and operations on nil channels.
func BlockForever() string {
	park("blocked forever")
	return "unreachable"
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) { sendv(ptr(ch), ch, cap(ch), v) }
}

func sendv(p unsafe.Pointer, ch any, c int, v any) {
	if cur == nil || cur.dead {
		deadOp()
	}
	if p == nil {
		BlockForever()
	}
	s := state(p, ch, c)
	Point()
	if s.canSend() {
		s.doSend(v)
		Point()
		return
	}
	sel := &selState{}
	s.sendq = append(s.sendq, &waiter{t: cur, sel: sel, val: v})
	for !sel.done {
		park("channel send")
	}
	if sel.boom {
		panic("send on closed channel")
	}
}

func recvv(p unsafe.Pointer, ch any, c int) (any, bool) {
	if cur == nil || cur.dead {
		deadOp()
	}
	if p == nil {
		BlockForever()
	}
	s := state(p, ch, c)
	Point()
	if s.canRecv() {
		return s.doRecv()
	}
	sel := &selState{}
	s.recvq = append(s.recvq, &waiter{t: cur, sel: sel})
	for !sel.done {
		park("channel receive")
	}
	return sel.val, sel.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvv(ptr(ch), ch, cap(ch))
	if v == nil {
		var z T
		return z, ok
	}
	return v.(T), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if cur == nil || cur.dead {
		deadOp()
	}
	if ch == nil {
		panic("close of nil channel")
	}
	CloseAny(ch)
}

// CloseAny closes a channel from a task or from the kernel.
func CloseAny[T any](ch chan<- T) {
	s := state(ptr(ch), ch, cap(ch))
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for {
		w := pop(&s.recvq)
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, nil, false
		ready(w.t)
	}
	for {
		w := pop(&s.sendq)
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.boom = true, w.idx, true
		ready(w.t)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if ch == nil {
		return 0
	}
	return len(state(ptr(ch), ch, cap(ch)).buf)
}

// SCase is one case of a select.
type SCase interface{ base() *scase }

type scase struct {
	p    unsafe.Pointer
	ch   any
	cap  int
	send bool
	val  any
	rv   any
	ok   bool
}

// RCase is a receive case.
type RCase[T any] struct{ scase }

func (c *RCase[T]) base() *scase { return &c.scase }

// V is the received value.
func (c *RCase[T]) V() T {
	v, _ := c.V2()
	return v
}

// V2 is the received value and whether the channel is open.
func (c *RCase[T]) V2() (T, bool) {
	if c.rv == nil {
		var z T
		return z, c.ok
	}
	return c.rv.(T), c.ok
}

type sendCase struct{ scase }

func (c *sendCase) base() *scase { return &c.scase }

// SelRecv prepares case <-ch.
func SelRecv[T any](ch <-chan T) *RCase[T] {
	return &RCase[T]{scase{p: ptr(ch), ch: ch, cap: cap(ch)}}
}

// SelSend prepares case ch <- v.
func SelSend[T any](ch chan<- T) func(T) SCase {
	return func(v T) SCase { return &sendCase{scase{p: ptr(ch), ch: ch, cap: cap(ch), send: true, val: v}} }
}

// Select waits for one of the cases and returns its index, -1 for default.
func Select(def bool, cases ...SCase) int {
	if cur == nil || cur.dead {
		deadOp()
	}
	Point()
	var rdy []int
	for i, c := range cases {
		b := c.base()
		if b.p == nil {
			continue
		}
		s := state(b.p, b.ch, b.cap)
		if b.send && s.canSend() || !b.send && s.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[W.Sched.Intn(len(rdy))]
		b := cases[i].base()
		s := state(b.p, b.ch, b.cap)
		if b.send {
			s.doSend(b.val)
		} else {
			b.rv, b.ok = s.doRecv()
		}
		return i
	}
	if def {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		b := c.base()
		if b.p == nil {
			continue
		}
		s := state(b.p, b.ch, b.cap)
		w := &waiter{t: cur, sel: sel, idx: i, val: b.val}
		if b.send {
			s.sendq = append(s.sendq, w)
		} else {
			s.recvq = append(s.recvq, w)
		}
	}
	for !sel.done {
		park("select")
	}
	if sel.boom {
		panic("send on closed channel")
	}
	b := cases[sel.idx].base()
	if !b.send {
		b.rv, b.ok = sel.val, sel.ok
	}
	return sel.idx
}

// Feed puts v in a channel from outside of any task (timers).
func Feed[T any](ch chan T, v T) bool {
	s := state(ptr(ch), ch, cap(ch))
	if w := pop(&s.recvq); w != nil {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		ready(w.t)
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

// Point is a preemption point inside a simulated operation.
func Point() { Y() }

// Go is go f().
func Go(f func()) {
	t := cur
	if t == nil || t.dead {
		deadOp()
	}
	W.Spawn(t.Node, fname(f), f)
	Point()
}

func fname(f any) string {
	p := reflect.ValueOf(f).Pointer()
	n := funcName(p)
	return n
}

// GoCall is go f(args...).
func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		in[i] = argval(a, pt)
	}
	t := cur
	if t == nil || t.dead {
		deadOp()
	}
	W.Spawn(t.Node, fname(f), func() { fv.Call(in) })
	Point()
}

// GoCallSlice is go f(args...) with a final slice argument spread.
func GoCallSlice(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = argval(a, ft.In(i))
	}
	t := cur
	if t == nil || t.dead {
		deadOp()
	}
	W.Spawn(t.Node, fname(f), func() { fv.CallSlice(in) })
	Point()
}

func argval(a any, pt reflect.Type) reflect.Value {
	if a == nil {
		return reflect.Zero(pt)
	}
	v := reflect.ValueOf(a)
	if !v.Type().AssignableTo(pt) {
		if !v.Type().ConvertibleTo(pt) {
			panic(Unsupported(fmt.Sprintf("go statement argument %v for %v", v.Type(), pt)))
		}
		v = v.Convert(pt)
	}
	return v
}
