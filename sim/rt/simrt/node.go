package simrt

import (
	"net"
	"time"
)

// Node is one simulated machine running the program under test.
type Node struct {
	ID     int
	W      *World
	FS     *FS
	IP4    net.IP
	IP6    net.IP
	IfName string
	MTU    int
	Env    map[string]string
	Pid    int

	ClockSec int64 // wall clock = ClockSec + simulated time
	ClockNs  int64

	Up      bool   // a process runs
	Code    int    // its exit code once it ended
	Reason  string // why it ended
	Stack   string
	Starts  int
	stalled bool
	Stdout  []string
	Stderr  []string
	socks   []*Sock
	fds     []*OpenFD
	MaxFds  int // descriptors the process may have, 0 for any number
	eph     int

	Gui        any // the user interface of the running process
	keys       []any
	keyw       []*Task
	TermW      int
	TermH      int
	TermErr    bool
	Screen     Screen // what the terminal shows, if KeepScreen
	KeepScreen bool
	IfErr      bool // the interfaces cannot be listed
	OptErr     bool // socket options cannot be set
	Expect     bool // the scenario expects the process to end

	reset func()
	main  func()
}

// AddNode adds a machine. reset restores all package variables of its copy
// of the program, main is the program.
func (w *World) AddNode(reset, main func()) *Node {
	id := len(w.Nodes)
	n := &Node{ID: id, W: w, IP4: net.IPv4(10, 0, 0, byte(id+1)).To4(), Env: map[string]string{},
		IP6: net.ParseIP("fd00::1"), IfName: "sim0", MTU: 1500, Pid: 1000 + 100*id, TermW: 60, TermH: 16,
		ClockSec: 1_700_000_000, reset: reset, main: main, eph: 40000}
	n.IP6[15] = byte(id + 1)
	n.FS = newFS(n)
	w.Nodes = append(w.Nodes, n)
	return n
}

// Wall is the node's clock.
func (n *Node) Wall() time.Time {
	return time.Unix(n.ClockSec+n.W.Now/1e9, n.W.Now%1e9+n.ClockNs)
}

// Start runs the program.
func (n *Node) Start() {
	if n.Up {
		return
	}
	n.fresh()
	n.W.Event("node %d start", n.ID)
	n.W.Spawn(n, "main", func() {
		n.reset()
		n.main()
		Die("main returned", 0)
	})
}

// Prepare gives the node a fresh process without running main.
func (n *Node) Prepare() {
	old := cur
	cur = nil
	n.reset()
	cur = old
	n.fresh()
}

func (n *Node) fresh() {
	n.Up, n.Reason, n.Stack, n.Code, n.Gui = true, "", "", 0, nil
	n.keys, n.keyw = nil, nil
	n.Screen = Screen{}
	n.Starts++
	n.Pid += 1 + n.Starts
	n.FS.Cwd = "/"
}

// Go runs fn as a task of the node's process.
func (n *Node) Go(name string, fn func()) *Task { return n.W.Spawn(n, name, fn) }

// Do runs fn as a task of the node and waits for it, false if it did not
// finish within limit nanoseconds of simulated time or the node died.
func (n *Node) Do(name string, limit int64, fn func()) bool {
	t := n.Go(name, fn)
	ok := Wait(1_000_000, limit, func() bool { return t.Done() })
	return ok && !t.dead && t.panicVal == nil
}

func (n *Node) crash(reason, stack string, by *Task) {
	w := n.W
	if !n.Up {
		return
	}
	n.Up = false
	n.Reason, n.Stack = reason, stack
	n.Code = 2
	if by != nil && by.fatal != "" {
		n.Code = by.exitCode
	}
	w.Event("node %d down: %s", n.ID, reason)
	n.killTasks()
	if w.OnCrash != nil {
		w.OnCrash(n)
	}
}

func (n *Node) killTasks() {
	w := n.W
	for i := 0; i < len(w.tasks); i++ {
		if t := w.tasks[i]; t.Node == n && t.state != done {
			w.kill(t)
		}
	}
	keep := w.run[:0]
	for _, t := range w.run {
		if t.state != done && !t.dead {
			keep = append(keep, t)
		}
	}
	w.run = keep
	for _, s := range n.socks {
		s.closed = true
	}
	n.socks, n.fds = nil, nil
}

// Crash kills the process as a power failure or kill -9 would. It must be
// called from a harness task or from the kernel.
func (n *Node) Crash() {
	if !n.Up {
		return
	}
	n.Up = false
	n.Reason = "injected crash"
	n.Code = 137
	n.W.Injected("crash")
	n.W.Event("node %d crashed", n.ID)
	inKernel(n.killTasks)
}

// Stall suspends the process for d nanoseconds.
func (n *Node) Stall(d int64) {
	n.stalled = true
	n.W.Injected("stall")
	n.W.At(d, func() { n.stalled = false })
}

// ---- terminal ----

// Key queues a terminal event.
func (n *Node) Key(ev any) {
	n.keys = append(n.keys, ev)
	wakeAll(&n.keyw)
}

// PollKey waits for a terminal event.
func PollKey() any {
	n := cur.Node
	for len(n.keys) == 0 {
		n.keyw = append(n.keyw, cur)
		park("terminal")
	}
	ev := n.keys[0]
	n.keys = n.keys[1:]
	return ev
}

// Here is the node of the running task.
func Here() *Node {
	if cur == nil {
		return nil
	}
	return cur.Node
}

func outTo(l func(n *Node) *[]string, s string) (int, error) {
	n := Here()
	if n != nil && !cur.dead {
		p := l(n)
		if len(*p) < 2000 {
			*p = append(*p, s)
		}
		Point()
	}
	return len(s), nil
}

// Stdout is the node's standard output.
func Stdout(s string) (int, error) { return outTo(func(n *Node) *[]string { return &n.Stdout }, s) }

// Stderr is the node's standard error.
func Stderr(s string) (int, error) { return outTo(func(n *Node) *[]string { return &n.Stderr }, s) }
