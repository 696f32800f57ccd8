// Package harness holds the scenarios, reference models and checks.
package harness

import (
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"simmod/api"
	"simmod/shim/os"
	"simmod/simrt"
	"simmod/third/gocui"
)

// Second is a second of simulated time.
const (
	Milli  = int64(1_000_000)
	Second = 1000 * Milli
)

// Scenario is one kind of run of a property.
type Scenario struct {
	Name   string
	Weight int
	Limit  int64 // simulated time
	Nodes  int
	Steps  int64 // step limit, 0 for the usual
	Fn     func(e *Env)
}

// Props are the scenarios by property.
var Props = map[string][]Scenario{}

func reg(prop string, s Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	if s.Limit == 0 {
		s.Limit = 600 * Second
	}
	if s.Nodes == 0 {
		s.Nodes = 1
	}
	Props[prop] = append(Props[prop], s)
}

// Bridges are the copies of the program, set by the worker.
var Bridges []api.Bridge

// Config is the configuration file shipped with the program.
var Config []byte

// Env is what a scenario works with.
type Env struct {
	Prop  string
	W     *simrt.World
	Work  *simrt.Stream
	Fault *simrt.Stream
	B     []api.Bridge
	N     []*simrt.Node
	Deep  bool
	stats map[string]int64
	Taps  []Tapped
	ended bool
	wiped bool // a window was cleared
	tag   int
	slow  int64 // time between keys
}

// Tapped is a frame handed from one task of a node to another.
type Tapped struct {
	At    int64
	Node  int
	Chan  uintptr
	Task  *simrt.Task
	Start int // which process of the node
	F     api.Frame
	V     any
}

func (e *Env) tap(t *simrt.Task, ch uintptr, v any) {
	if t == nil || t.Node == nil || v == nil {
		return
	}
	i := t.Node.ID
	if i >= len(e.B) {
		return
	}
	simrt.Quiet(func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(simrt.Unsupported); ok {
					e.W.Unsup = string(u)
				}
			}
		}()
		if f, ok := e.B[i].Decode(v); ok {
			e.Taps = append(e.Taps, Tapped{At: e.W.Now, Node: i, Chan: ch, Task: t, Start: t.Node.Starts, F: f, V: v})
			e.W.Event("node %d hands on %s of %s", i, f.Kind, f.Addr.String())
		}
	})
}

// again decodes what was handed on once more: it must not have changed since.
func (e *Env) again(t Tapped) (f api.Frame) {
	simrt.Quiet(func() { f, _ = e.B[t.Node].Decode(t.V) })
	return f
}

// Fail reports a violation of the property.
func (e *Env) Fail(sig, format string, args ...any) {
	if len(e.W.Viol) == 0 {
		e.W.Fail(e.Prop, sig, format, args...)
	}
	e.ended = true
}

// Failed tells whether a violation was found.
func (e *Env) Failed() bool { return len(e.W.Viol) > 0 }

// Count counts something for the evidence.
func (e *Env) Count(what string, n int64) { e.stats[what] += n }

// Result is the outcome of one run.
type Result struct {
	Seed     uint64            `json:"seed"`
	Scenario string            `json:"scenario"`
	Viol     []simrt.Violation `json:"violations,omitempty"`
	Unsup    string            `json:"unsupported,omitempty"`
	Hash     string            `json:"hash"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	SimNs    int64             `json:"sim_ns"`
	Faults   map[string]int64  `json:"faults,omitempty"`
	Stats    map[string]int64  `json:"stats,omitempty"`
	Cover    []uint64          `json:"-"`
	Ilv      uint64            `json:"ilv"`
	Work     []uint32          `json:"-"`
	Fault    []uint32          `json:"-"`
	Sched    []uint32          `json:"-"`
	Trace    []string          `json:"-"`
}

// Same tells whether two results are the same execution with the same
// outcome.
func (r *Result) Same(o *Result) bool {
	if r.Hash != o.Hash || len(r.Viol) != len(o.Viol) {
		return false
	}
	for i := range r.Viol {
		if r.Viol[i] != o.Viol[i] {
			return false
		}
	}
	return true
}

// Opts are the options of a run.
type Opts struct {
	Deep  bool
	Trace bool
}

// RunSeed runs one seed.
func RunSeed(prop string, seed uint64, o Opts) *Result {
	a, b, c := simrt.NewStreams(seed)
	r := run(prop, a, b, c, o)
	r.Seed = seed
	return r
}

// RunStreams runs recorded choices.
func RunStreams(prop string, a, b, c []uint32, o Opts) *Result {
	return run(prop, simrt.ReplayStream(a), simrt.ReplayStream(b), simrt.ReplayStream(c), o)
}

func run(prop string, a, b, c *simrt.Stream, o Opts) *Result {
	w := simrt.NewWorld(a, b, c)
	os.Args = []string{"saratoga", "/etc/saratoga.json", "sim0"}
	w.TraceOn = o.Trace
	scs := Props[prop]
	weights := make([]int, len(scs))
	for i := range scs {
		weights[i] = scs[i].Weight
	}
	sc := scs[a.Pick(weights...)]
	if sc.Steps > 0 {
		w.StepCap = sc.Steps
	}
	e := &Env{Prop: prop, W: w, Work: a, Fault: b, Deep: o.Deep, stats: map[string]int64{}}
	for i := 0; i < sc.Nodes; i++ {
		br := Bridges[i]
		e.B = append(e.B, br)
		e.N = append(e.N, w.AddNode(br.Reset, br.Main))
	}
	// How tasks are interleaved in this run.
	switch a.Pick(2, 3, 3, 2) {
	case 0:
		w.PreemptNum = 0
	case 1:
		w.PreemptNum, w.BudgetMax = 150, 300
	case 2:
		w.PreemptNum, w.BudgetMax = 500, 60
	case 3:
		w.PreemptNum, w.BudgetMax = 900, 12
	}
	// Where the nodes are.
	time.Local = zones[a.Intn(len(zones))]
	w.OnCrash = func(n *simrt.Node) {
		if n.Expect {
			return
		}
		e.Fail("node ended: "+strip(n.Reason)+" in "+simrt.ShortStack(n.Stack), "node %d ended unexpectedly: %s\n%s", n.ID, n.Reason, clip(n.Stack, 3000))
	}
	w.Tap = e.tap
	done := false
	w.Spawn(nil, "scenario", func() {
		sc.Fn(e)
		done = true
		w.Finish()
	})
	w.Run(sc.Limit)
	if w.Overrun && len(w.Viol) == 0 && w.Unsup == "" {
		w.Fail(prop, "no end of activity", "the node does not come to rest: step limit %d reached at %.3f s of simulated time", w.StepCap, float64(w.Now)/1e9)
	}
	if !done && len(w.Viol) == 0 && w.Unsup == "" {
		w.Unsup = "scenario " + sc.Name + " did not finish"
	}
	r := &Result{Scenario: sc.Name, Viol: w.Viol, Unsup: w.Unsup, Steps: w.Steps, Switches: w.Switches, SimNs: w.Now,
		Faults: w.FaultCnt, Stats: e.stats, Hash: fmt.Sprintf("%016x", w.Hash()), Trace: w.Trace}
	for k := range w.Cover {
		r.Cover = append(r.Cover, k)
	}
	r.Ilv = w.Ilv()
	w.Close()
	r.Work, r.Fault, r.Sched = trim(a), trim(b), trim(c)
	if len(r.Viol) > 1 {
		r.Viol = r.Viol[:1]
	}
	return r
}

var zones = []*time.Location{time.UTC, time.FixedZone("NPT", 5*3600+2700), time.FixedZone("AEDT", 11*3600), time.FixedZone("NST", -(3*3600 + 1800))}

func trim(s *simrt.Stream) []uint32 {
	v := s.Vals
	if s.Used() < len(v) {
		v = v[:s.Used()]
	}
	return v
}

// strip removes from a message what differs between runs.
func strip(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	var b strings.Builder
	num := false
	for _, r := range s {
		if r >= '0' && r <= '9' {
			if !num {
				b.WriteByte('#')
			}
			num = true
			continue
		}
		num = false
		if r < 32 || r > 126 {
			r = '?'
		}
		b.WriteRune(r)
	}
	return clip(b.String(), 120)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- nodes ----

// Sardir is the directory of a node's files.
const Sardir = "/home/sar"

// conf is the shipped configuration with changes.
func conf(chg map[string]any) []byte {
	var m map[string]any
	if err := json.Unmarshal(Config, &m); err != nil {
		panic("shipped configuration: " + err.Error())
	}
	m["sardir"] = Sardir
	for _, k := range keys(chg) {
		m[k] = chg[k]
	}
	b, err := json.MarshalIndent(m, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

func keys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

var baseConf []byte

// Disk puts configuration and directory on the node's disk.
func (e *Env) Disk(i int, chg map[string]any) {
	f := e.N[i].FS
	f.MkdirAll(Sardir)
	f.Mount = Sardir
	f.MkdirAll("/tmp")
	f.MkdirAll("/etc")
	if chg == nil {
		if baseConf == nil {
			baseConf = conf(nil)
		}
		f.Put("/etc/saratoga.json", baseConf)
	} else {
		f.Put("/etc/saratoga.json", conf(chg))
	}
	f.Put("/etc/passwd", []byte("root:x:0:0:root:/root:/bin/sh\n"))
	f.Put("/home/other/secret", []byte("do not touch"))
}

// Boot starts a node and waits until it serves.
func (e *Env) Boot(i int) bool {
	n := e.N[i]
	n.Start()
	if !e.Serving(i, 60*Second) {
		if !e.Failed() && !n.Expect {
			e.Fail("node does not start", "node %d does not serve within 60 s of its start (up=%v reason=%q): %s %v", i, n.Up, n.Reason, e.W.BlockedReport(n), n.Stderr)
		}
		return false
	}
	return true
}

// Serving waits until the node listens on both groups and shows its windows.
func (e *Env) Serving(i int, limit int64) bool {
	n := e.N[i]
	return simrt.Wait(5*Milli, limit, func() bool {
		return e.ended || !n.Up || e.ready(i)
	}) && !e.ended && n.Up && e.ready(i)
}

func (e *Env) ready(i int) bool {
	n := e.N[i]
	if !n.Up || n.Gui == nil {
		return false
	}
	v4, v6 := false, false
	for _, s := range n.Socks() {
		if s.Group != nil {
			if s.Group.To4() != nil {
				v4 = true
			} else {
				v6 = true
			}
		}
	}
	if !v4 || !v6 {
		return false
	}
	g := e.Gui(i)
	for _, v := range []string{"msg", "err", "cmd", "packet"} {
		if _, err := g.View(v); err != nil {
			return false
		}
	}
	return true
}

// Gui is the user interface of the node.
func (e *Env) Gui(i int) *gocui.Gui {
	g, _ := e.N[i].Gui.(*gocui.Gui)
	return g
}

// Command is a command given to a node.
type Command struct {
	Node  int
	Tag   int
	Line  string
	Taken bool // the user interface has run it
	At    int64
	e     *Env
}

// Done tells whether all tasks of the command have ended.
func (c *Command) Done() bool {
	if !c.Taken {
		return false
	}
	for _, t := range c.e.W.Tasks() {
		if t.Tag == c.Tag && t.Node == c.e.N[c.Node] && !t.Done() {
			return false
		}
	}
	return true
}

// Wait waits for the end of the command.
func (c *Command) Wait(limit int64) bool {
	return simrt.Wait(5*Milli, limit, func() bool { return c.e.ended || c.Done() }) && !c.e.ended
}

// Cmd gives a command line to the node as the Enter key does: on the task of
// its user interface.
func (e *Env) Cmd(i int, line string) *Command {
	e.tag++
	c := &Command{Node: i, Tag: e.tag, Line: line, e: e}
	n := e.N[i]
	if !n.Up || n.Gui == nil {
		return c
	}
	e.W.Event("command on node %d: %q", i, line)
	g := e.Gui(i)
	b := e.B[i]
	n.Go("operator", func() {
		g.Update(func(g *gocui.Gui) error {
			t := simrt.Cur()
			old := t.Tag
			t.Tag = c.Tag
			c.At = e.W.Now
			b.Run(g, line)
			t.Tag = old
			c.Taken = true
			return nil
		})
	})
	return c
}

// Settle waits until nothing of the node is runnable: its tasks all block
// on input.
func (e *Env) Settle(i int, limit int64) bool {
	return simrt.Wait(10*Milli, limit, func() bool { return e.ended || e.idle(i) }) && !e.ended
}

func (e *Env) idle(i int) bool {
	n := e.N[i]
	for _, s := range n.Socks() {
		if s.Pending() > 0 {
			return false
		}
	}
	for _, t := range e.W.Tasks() {
		if t.Node == n && !t.Done() && !t.Blocked() {
			return false
		}
	}
	return true
}

// View is the contents of a window.
func (e *Env) View(i int, name string) []string {
	g := e.Gui(i)
	if g == nil {
		return nil
	}
	v, err := g.View(name)
	if err != nil {
		return nil
	}
	return v.BufferLines()
}

// ---- addresses ----

const Port = 7542

func group4() net.UDPAddr { return net.UDPAddr{IP: net.IPv4(224, 0, 0, 108).To4(), Port: Port} }
func group6() net.UDPAddr { return net.UDPAddr{IP: net.ParseIP("ff02::6c"), Port: Port} }

// host is an address of a machine that is not simulated in full.
func host(i int, v6 bool, port int) net.UDPAddr {
	if v6 {
		ip := net.ParseIP("fd00::100")
		ip[14], ip[15] = ip[14]+byte(i>>8), byte(i)
		if i&3 == 1 { // as most senders to a link-local group
			ip[0], ip[1] = 0xfe, 0x80
			return net.UDPAddr{IP: ip, Port: port, Zone: "sim0"}
		}
		if i&3 == 2 { // ends like an IPv4 address
			copy(ip[12:], host(i, false, port).IP)
		}
		return net.UDPAddr{IP: ip, Port: port}
	}
	return net.UDPAddr{IP: net.IPv4(10, 0, byte(1+i>>8), byte(i)).To4(), Port: port}
}

// typedAddr is how an operator writes an address.
func typedAddr(a net.UDPAddr) string {
	if a.Zone != "" {
		return a.IP.String() + "%" + a.Zone
	}
	return a.IP.String()
}

func (e *Env) send(from net.UDPAddr, b []byte) {
	to := group4()
	if from.IP.To4() == nil {
		to = group6()
	}
	e.W.Net.Send(from, to, b)
}
