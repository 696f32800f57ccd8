package simrt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

type tstate int

const (
	runnable tstate = iota
	running
	blocked
	done
)

// Task is one simulated thread of control.
type Task struct {
	ID       int
	Node     *Node
	Name     string
	Tag      int // inherited by the tasks it starts
	wake     chan struct{}
	state    tstate
	dead     bool // being killed: simulated operations have no effect any more
	deadY    int
	why      string
	fatal    string // set: the task asked for its whole node to die
	exitCode int
	panicVal any
	stack    string
	hold     bool // stalled by a fault
	kcall    func()
}

// Why tells what the task is blocked on.
func (t *Task) Why() string { return t.why }

// Blocked tells whether the task waits for something.
func (t *Task) Blocked() bool { return t.state == blocked }

// Done tells whether the task has ended.
func (t *Task) Done() bool { return t.state == done }

type timer struct {
	at  int64
	seq int
	fn  func()
	idx int
	off bool
}

// Violation is one broken property.
type Violation struct {
	Prop string `json:"property"`
	Msg  string `json:"message"`
	Sig  string `json:"signature"`
}

// World is one simulated execution.
type World struct {
	Now      int64
	Work     *Stream // workload choices
	Fault    *Stream // fault choices
	Sched    *Stream // scheduling choices
	Nodes    []*Node
	tasks    []*Task
	run      []*Task
	timers   timerHeap
	tseq     int
	kernel   chan struct{}
	chans    map[uintptr]*chst
	finished bool
	Steps    int64
	StepCap  int64
	Overrun  bool // the step limit was reached
	Unsup    string

	// scheduling policy of this run
	PreemptNum int   // chance in 1000 that a task gets a short budget
	BudgetMax  int   // longest short budget
	Window     int64 // timers this close may fire while tasks are runnable

	hash     uint64
	Switches int64
	FaultCnt map[string]int64
	Trace    []string
	TraceOn  bool
	Tap      func(t *Task, ch uintptr, v any)
	Net      *Net
	randseed uint64
	Viol     []Violation
	OnCrash  func(n *Node)
	Cover    map[uint64]struct{}
	ilv      uint64
}

// W is the current execution.
var W *World

var (
	cur     *Task
	budget  int32
	mapBusy int // tasks inside a map write
)

// Cur is the task that is running now.
func Cur() *Task { return cur }

// NewWorld prepares an execution.
func NewWorld(work, fault, sched *Stream) *World {
	w := &World{Work: work, Fault: fault, Sched: sched, kernel: make(chan struct{}),
		chans: map[uintptr]*chst{}, StepCap: 40_000_000, FaultCnt: map[string]int64{},
		BudgetMax: 40, Window: 2_000_000, Cover: map[uint64]struct{}{}}
	w.hash = 14695981039346656037
	w.Net = newNet(w)
	W = w
	mapBusy = 0
	mapWriters = map[uintptr]*Task{}
	cur = nil
	return w
}

// NewStreams returns the three generating streams of a seed.
func NewStreams(seed uint64) (a, b, c *Stream) {
	return newStream(seed*3 + 1), newStream(seed*3 + 2), newStream(seed*3 + 3)
}

// Event feeds the execution's fingerprint and, when asked for, its trace.
func (w *World) Event(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	for i := 0; i < len(s); i++ {
		w.hash ^= uint64(s[i])
		w.hash *= 1099511628211
	}
	if w.TraceOn {
		w.Trace = append(w.Trace, fmt.Sprintf("%12.6fs %s", float64(w.Now)/1e9, s))
	}
}

func (w *World) mix(v uint64) {
	w.hash ^= v
	w.hash *= 1099511628211
}

// Hash is the fingerprint of the execution so far.
func (w *World) Hash() uint64 { return w.hash }

// Ilv identifies the sequence of task switches so far.
func (w *World) Ilv() uint64 { return w.ilv }

// Injected counts an injected fault.
func (w *World) Injected(kind string) {
	w.FaultCnt[kind]++
	if w.TraceOn {
		w.Trace = append(w.Trace, fmt.Sprintf("%12.6fs FAULT %s", float64(w.Now)/1e9, kind))
	}
}

// Fail records a violation and ends the run.
func (w *World) Fail(prop, sig, format string, args ...any) {
	w.Viol = append(w.Viol, Violation{Prop: prop, Msg: fmt.Sprintf(format, args...), Sig: sig})
	w.Event("VIOLATION %s %s", prop, sig)
	w.finished = true
}

// Finish ends the run at the next scheduling point.
func (w *World) Finish() { w.finished = true }

// ---- kernel ----

// At runs fn in the kernel after d nanoseconds of simulated time.
func (w *World) At(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	w.tseq++
	t := &timer{at: w.Now + d, seq: w.tseq, fn: fn}
	if t.at < w.Now {
		t.at = 1<<63 - 1
	}
	w.timers.push(t)
	return t
}

func (t *timer) stop() bool {
	was := !t.off
	t.off = true
	return was
}

// Spawn starts a task on a node (nil: the harness).
func (w *World) Spawn(n *Node, name string, fn func()) *Task {
	t := &Task{ID: len(w.tasks), Node: n, Name: name, wake: make(chan struct{}), state: runnable}
	if cur != nil {
		t.Tag = cur.Tag
	}
	w.tasks = append(w.tasks, t)
	w.run = append(w.run, t)
	go t.main(fn)
	return t
}

func (t *Task) main(fn func()) {
	<-t.wake
	defer func() {
		t.state = done
		W.kernel <- struct{}{}
	}()
	defer func() {
		if r := recover(); r != nil {
			if t.dead {
				return
			}
			t.panicVal = r
			t.stack = string(debug.Stack())
		}
	}()
	if t.dead {
		return
	}
	fn()
}

// resume runs t until it hands control back.
func (w *World) resume(t *Task) {
	t.state = running
	cur = t
	t.wake <- struct{}{}
	<-w.kernel
	cur = nil
	for t.kcall != nil {
		fn := t.kcall
		t.kcall = nil
		fn()
		if t.dead {
			return
		}
		t.state = running
		cur = t
		t.wake <- struct{}{}
		<-w.kernel
		cur = nil
	}
	if t.fatal != "" {
		t.Node.crash(t.fatal, t.stack, t)
		return
	}
	if t.dead {
		return
	}
	if t.panicVal != nil {
		if u, ok := t.panicVal.(Unsupported); ok {
			w.Unsup = string(u)
			w.finished = true
			return
		}
		if t.Node == nil {
			fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", t.panicVal, t.stack)
			w.Unsup = fmt.Sprintf("harness panic: %v", t.panicVal)
			w.finished = true
			return
		}
		t.Node.crash(fmt.Sprintf("panic: %v", t.panicVal), t.stack, t)
	}
}

func (w *World) kill(t *Task) {
	if t.state == done || t.dead {
		t.dead = true
		return
	}
	t.dead = true
	old := cur
	cur = t
	t.wake <- struct{}{}
	<-w.kernel
	cur = old
}

// inKernel runs fn outside of all tasks, as the kernel's next step.
func inKernel(fn func()) {
	t := cur
	if t == nil {
		fn()
		return
	}
	if t.dead {
		return
	}
	account()
	t.kcall = fn
	t.state = blocked
	t.why = "kernel"
	t.swtch()
	t.why = ""
}

func (w *World) unrun(t *Task) {
	for i, x := range w.run {
		if x == t {
			w.run = append(w.run[:i], w.run[i+1:]...)
			return
		}
	}
}

// Run executes until nothing is left to do, until the run is finished, or
// until simulated time limit.
func (w *World) Run(limit int64) {
	elig := make([]*Task, 0, 16)
	for !w.finished {
		if w.Steps > w.StepCap {
			w.Overrun = true
			break
		}
		elig = elig[:0]
		for _, t := range w.run {
			if !t.hold && (t.Node == nil || !t.Node.stalled) {
				elig = append(elig, t)
			}
		}
		tm := w.timers.peek()
		n := len(elig)
		if n == 0 && tm == nil {
			break
		}
		fire := n == 0
		if n > 0 && tm != nil && tm.at-w.Now <= w.Window {
			fire = w.Sched.Intn(n+1) == n
		}
		if fire {
			w.timers.pop()
			if tm.off {
				continue
			}
			if tm.at > w.Now {
				w.Now = tm.at
			}
			if w.Now > limit {
				break
			}
			tm.off = true
			w.Steps++
			tm.fn()
			continue
		}
		k := w.Sched.Intn(n)
		t := elig[k]
		w.unrun(t)
		w.Switches++
		w.mix(uint64(t.ID) + 7)
		w.ilv = w.ilv*1099511628211 ^ uint64(t.ID)
		if len(w.Cover) < 4096 {
			w.Cover[w.ilv] = struct{}{}
		}
		setBudget()
		w.resume(t)
	}
	w.finished = true
}

func setBudget() {
	w := W
	b := int32(3000)
	if w.PreemptNum > 0 {
		v := w.Sched.draw(func() uint32 {
			r := w.Sched.next()
			if int(r%1000) >= w.PreemptNum {
				return 0
			}
			return 1 + uint32((r>>20)%uint64(w.BudgetMax))
		}, uint32(w.BudgetMax)+1)
		if v > 0 {
			b = int32(v)
		}
	}
	budget = b
	budget0 = b
}

var budget0 int32

// Close ends every task; call it once per world.
func (w *World) Close() {
	w.finished = true
	for i := 0; i < len(w.tasks); i++ {
		w.kill(w.tasks[i])
	}
	cur = nil
}

// Tasks lists all tasks started so far.
func (w *World) Tasks() []*Task { return w.tasks }

// Y is the preemption point before every statement of the code under test.
func Y() {
	budget--
	if budget > 0 {
		return
	}
	yslow()
}

func yslow() {
	t := cur
	if t == nil {
		budget = 1 << 30
		return
	}
	if t.dead {
		t.deadY++
		budget = 1000
		if t.deadY > 1000 {
			runtime.Goexit()
		}
		return
	}
	W.Steps += int64(budget0 - budget)
	t.yield()
}

// Steps consumed within a slice that ended by blocking.
func account() { W.Steps += int64(budget0-budget) + 1; budget0 = budget }

func (t *Task) yield() {
	t.state = runnable
	W.run = append(W.run, t)
	t.swtch()
}

func (t *Task) swtch() {
	W.kernel <- struct{}{}
	<-t.wake
	if t.dead {
		runtime.Goexit()
	}
	t.state = running
}

// park blocks the current task until ready is called on it.
func park(why string) {
	t := cur
	if t == nil {
		panic(Unsupported("blocking operation outside of a task: " + why))
	}
	if t.dead {
		runtime.Goexit()
	}
	account()
	t.state = blocked
	t.why = why
	t.swtch()
	t.why = ""
}

func ready(t *Task) {
	if t == nil || t.state != blocked || t.dead {
		return
	}
	t.state = runnable
	W.run = append(W.run, t)
}

// Quiet runs fn, which may use code under test, as part of the simulator:
// without preemption and without drawing from the streams.
func Quiet(fn func()) {
	old, ob := cur, budget
	cur, budget = nil, 1<<30
	defer func() { cur, budget = old, ob }()
	fn()
}

// Yield lets other tasks run.
func Yield() {
	if cur != nil && !cur.dead {
		account()
		cur.yield()
	}
}

// Sleep blocks the current task for d nanoseconds of simulated time.
func Sleep(d int64) {
	if cur == nil {
		return
	}
	t := cur
	if d <= 0 {
		Yield()
		return
	}
	W.At(d, func() { ready(t) })
	park("sleep")
}

// Wait blocks the current (harness) task until cond holds, checking it every
// step nanoseconds, at most limit nanoseconds. It tells whether cond held.
func Wait(step, limit int64, cond func() bool) bool {
	end := W.Now + limit
	for {
		if cond() {
			return true
		}
		if W.Now >= end {
			return false
		}
		Sleep(step)
	}
}

// Unsupported is raised when the code under test uses something the
// simulation does not model. It makes the check give no answer.
type Unsupported string

// Unsup stands for a function the simulation does not model.
func Unsup(name string) { panic(Unsupported(name)) }

// Die ends the node of the current task, as os.Exit or a fatal error would.
func Die(reason string, code int) {
	t := cur
	if t == nil {
		panic(Unsupported("exit outside of a task: " + reason))
	}
	if t.dead {
		runtime.Goexit()
	}
	if t.Node == nil {
		panic(Unsupported("harness exit: " + reason))
	}
	t.fatal = reason
	t.exitCode = code
	t.stack = string(debug.Stack())
	t.dead = true
	runtime.Goexit()
}

// BlockedReport describes what the tasks of a node wait for.
func (w *World) BlockedReport(n *Node) string {
	var s []string
	for _, t := range w.tasks {
		if t.Node == n && t.state == blocked && !t.dead {
			s = append(s, fmt.Sprintf("%s: %s", t.Name, t.why))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// ShortStack keeps the frames of the code under test.
func ShortStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "simmod/n") {
			f := l
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			f = f[strings.Index(f[7:], "/")+8:]
			out = append(out, f)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// ---- timer heap ----

type timerHeap []*timer

func (h timerHeap) less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h *timerHeap) push(t *timer) {
	*h = append(*h, t)
	a := *h
	i := len(a) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !a.less(i, p) {
			break
		}
		a[i], a[p] = a[p], a[i]
		i = p
	}
}
func (h timerHeap) peek() *timer {
	if len(h) == 0 {
		return nil
	}
	return h[0]
}
func (h *timerHeap) pop() *timer {
	a := *h
	t := a[0]
	n := len(a) - 1
	a[0] = a[n]
	a[n] = nil
	a = a[:n]
	*h = a
	i := 0
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && a.less(c+1, c) {
			c++
		}
		if !a.less(c, i) {
			break
		}
		a[i], a[c] = a[c], a[i]
		i = c
	}
	return t
}
