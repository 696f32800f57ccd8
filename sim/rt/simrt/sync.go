package simrt

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	q      []*Task
}

// Lock locks m.
func (m *Mutex) Lock() {
	if cur == nil {
		m.locked = true
		return
	}
	if cur.dead {
		deadOp()
	}
	Point()
	for m.locked {
		m.q = append(m.q, cur)
		park("mutex")
	}
	m.locked = true
	Point()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if cur != nil && cur.dead {
		return
	}
	if !m.locked {
		Die("fatal error: sync: unlock of unlocked mutex", 2)
	}
	m.locked = false
	wakeOne(&m.q)
	Point()
}

func wakeOne(q *[]*Task) {
	for len(*q) > 0 {
		t := (*q)[0]
		*q = (*q)[1:]
		if t.dead || t.state != blocked {
			continue
		}
		ready(t)
		return
	}
}

func wakeAll(q *[]*Task) {
	for len(*q) > 0 {
		wakeOne(q)
	}
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	q       []*Task
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if cur == nil {
		m.w = true
		return
	}
	if cur.dead {
		deadOp()
	}
	Point()
	m.waiting++
	for m.w || m.r > 0 {
		m.q = append(m.q, cur)
		park("rwmutex")
	}
	m.waiting--
	m.w = true
	Point()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock ends Lock.
func (m *RWMutex) Unlock() {
	if cur != nil && cur.dead {
		return
	}
	if !m.w {
		Die("fatal error: sync: Unlock of unlocked RWMutex", 2)
	}
	m.w = false
	wakeAll(&m.q)
	Point()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if cur == nil {
		m.r++
		return
	}
	if cur.dead {
		deadOp()
	}
	Point()
	for m.w || m.waiting > 0 {
		m.q = append(m.q, cur)
		park("rwmutex")
	}
	m.r++
	Point()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

// RUnlock ends RLock.
func (m *RWMutex) RUnlock() {
	if cur != nil && cur.dead {
		return
	}
	if m.r <= 0 {
		Die("fatal error: sync: RUnlock of unlocked RWMutex", 2)
	}
	m.r--
	wakeAll(&m.q)
	Point()
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q []*Task
}

// Add adds to the counter.
func (g *WaitGroup) Add(d int) {
	if cur != nil && cur.dead {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		wakeAll(&g.q)
	}
	Point()
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Go runs f and counts it.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

// Wait waits for the counter to be 0.
func (g *WaitGroup) Wait() {
	if cur == nil || cur.dead {
		deadOp()
	}
	for g.n > 0 {
		g.q = append(g.q, cur)
		park("waitgroup")
	}
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f the first time.
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q []*condWait
}

type condWait struct {
	t     *Task
	woken bool
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	if cur == nil || cur.dead {
		deadOp()
	}
	x := &condWait{t: cur}
	c.q = append(c.q, x)
	c.L.Unlock()
	for !x.woken {
		park("cond")
	}
	c.L.Lock()
}

func (c *Cond) wake() {
	for len(c.q) > 0 {
		x := c.q[0]
		c.q = c.q[1:]
		if x.t.dead {
			continue
		}
		x.woken = true
		if x.t.state == blocked {
			ready(x.t)
		}
		return
	}
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if cur != nil && cur.dead {
		return
	}
	c.wake()
	Point()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if cur != nil && cur.dead {
		return
	}
	for len(c.q) > 0 {
		c.wake()
	}
	Point()
}

// Pool is sync.Pool.
type Pool struct {
	New func() any
	x   []any
}

// Get takes an item.
func (p *Pool) Get() any {
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) { p.x = append(p.x, v) }

// Map is sync.Map.
type Map struct{ m map[any]any }

func (s *Map) Load(k any) (any, bool) { Point(); v, ok := s.m[k]; return v, ok }
func (s *Map) Store(k, v any) {
	Point()
	if s.m == nil {
		s.m = map[any]any{}
	}
	s.m[k] = v
}
func (s *Map) LoadOrStore(k, v any) (any, bool) {
	Point()
	if x, ok := s.m[k]; ok {
		return x, true
	}
	if s.m == nil {
		s.m = map[any]any{}
	}
	s.m[k] = v
	return v, false
}
func (s *Map) LoadAndDelete(k any) (any, bool) {
	Point()
	v, ok := s.m[k]
	delete(s.m, k)
	return v, ok
}
func (s *Map) Swap(k, v any) (any, bool) {
	x, ok := s.Load(k)
	if s.m == nil {
		s.m = map[any]any{}
	}
	s.m[k] = v
	return x, ok
}
func (s *Map) CompareAndSwap(k, old, v any) bool {
	if x, ok := s.Load(k); !ok || x != old {
		return false
	}
	s.m[k] = v
	return true
}
func (s *Map) CompareAndDelete(k, old any) bool {
	if x, ok := s.Load(k); !ok || x != old {
		return false
	}
	delete(s.m, k)
	return true
}
func (s *Map) Clear()       { Point(); s.m = nil }
func (s *Map) Delete(k any) { s.LoadAndDelete(k) }
func (s *Map) Range(f func(k, v any) bool) {
	for _, k := range MapKeys(s.m) {
		v, ok := s.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
