package harness

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"time"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P15", Scenario{Name: "stamping under clock jumps", Weight: 3, Fn: stamping})
	reg("P15", Scenario{Name: "stamps between nodes with different clocks", Weight: 3, Nodes: 2, Fn: clocks})
}

// clock remembers how the clock of a node was set.
type clock struct {
	e    *Env
	i    int
	sets []clockSet
}

type clockSet struct{ at, sec, ns int64 }

// edges are moments at which formats begin or end.
var edges = []int64{0, 1 << 31, 1 << 32, 946684800, 946684800 + 1<<32, 9223372036, -9223372036, 1 << 33, 1 << 40, -(1 << 31), 253402300800, 4102444800, -62135596800}

func drawClock(s *simrt.Stream) (sec, ns int64) {
	switch s.Intn(5) {
	case 0:
		sec = int64(s.U32())
	case 1, 2:
		sec = edges[s.Intn(len(edges))] + int64(s.Intn(7)) - 3
	case 3:
		sec = 1_700_000_000 + int64(s.Intn(1000))
	case 4:
		sec = int64(s.U64()>>uint(23+s.Intn(20))) - int64(s.Intn(2))<<32
	}
	if s.Chance(1, 2) {
		ns = int64([]int{0, 1, 500, 999_999, 1_000_000, 500_000_000, 999_999_999}[s.Intn(7)])
	}
	return
}

func (c *clock) set(sec, ns int64) {
	n := c.e.N[c.i]
	n.ClockSec, n.ClockNs = sec-c.e.W.Now/1e9, ns
	c.sets = append(c.sets, clockSet{c.e.W.Now, n.ClockSec, n.ClockNs})
	c.e.W.Event("clock of node %d set to %s", c.i, n.Wall().UTC().Format(time.RFC3339Nano))
	if len(c.sets) > 1 {
		c.e.W.Injected("clock jump")
	}
}

type span struct{ lo, hi time.Time }

// spans are the times the clock showed between two moments.
func (c *clock) spans(from, to int64) []span {
	var l []span
	for k, x := range c.sets {
		a, b := x.at, to
		if k+1 < len(c.sets) && c.sets[k+1].at < b {
			b = c.sets[k+1].at
		}
		if a < from {
			a = from
		}
		if a > b {
			continue
		}
		at := func(n int64) time.Time { return time.Unix(x.sec+n/1e9, n%1e9+x.ns) }
		l = append(l, span{at(a), at(b)})
	}
	return l
}

// representable tells whether a format can hold a second: 1 yes, 0 no, -1 as
// the program likes.
func representable(kind string, sec int64) int {
	in := func(ok bool) int {
		if ok {
			return 1
		}
		return 0
	}
	switch kind {
	case "posix32", "posix32_32":
		return in(sec >= 0 && sec < 1<<32)
	case "epoch2000_32":
		return in(sec >= 946684800 && sec < 946684800+1<<32)
	case "posix64", "posix64_32":
		if sec < 0 {
			return -1
		}
		return 1
	}
	return -1
}

// denotes is the time in a timestamp.
func denotes(b []byte) (t time.Time, precise bool, ok bool) {
	if len(b) != 16 {
		return
	}
	b32, b64 := binary.BigEndian.Uint32, binary.BigEndian.Uint64
	switch b[0] {
	case 1:
		return time.Unix(int64(b32(b[1:])), 0), false, true
	case 2:
		return time.Unix(int64(b64(b[1:])), 0), false, true
	case 3:
		return time.Unix(int64(b32(b[1:])), int64(b32(b[5:]))), true, b32(b[5:]) < 1e9
	case 4:
		return time.Unix(int64(b64(b[1:])), int64(b32(b[9:]))), true, b32(b[9:]) < 1e9
	case 5:
		return time.Unix(int64(b32(b[1:]))+946684800, 0), false, true
	}
	return
}

// stampJudge checks a timestamp against the times it may denote.
func (e *Env) stampJudge(what, kind string, put []byte, l []span) bool {
	if len(put) != 16 || int(put[0]) >= len(tsNames) || tsNames[put[0]] != kind {
		e.Fail("timestamp of another format", "%s: %s was asked for, the timestamp is %x", what, kind, put)
		return false
	}
	if kind == "localinterp" {
		return true
	}
	t, precise, ok := denotes(put)
	if !ok {
		e.Fail("no valid time: "+kind, "%s: timestamp %x", what, put)
		return false
	}
	step := time.Second
	if precise {
		step = 1
	}
	for _, x := range l {
		if !t.After(x.hi) && t.Add(step).After(x.lo) {
			e.Count("timestamps judged", 1)
			return true
		}
	}
	var sp []string
	for _, x := range l {
		sp = append(sp, x.lo.UTC().Format(time.RFC3339Nano)+".."+x.hi.UTC().Format(time.RFC3339Nano))
	}
	e.Fail("wrong time: "+kind, "%s: timestamp %x denotes %s, the clock showed %s", what, put, t.UTC().Format(time.RFC3339Nano), strings.Join(sp, " or "))
	return false
}

// refusal checks whether an answer (refused or not) is right.
func (e *Env) refusal(what, kind string, err error, l []span) bool {
	can, cannot := false, false
	for _, x := range l {
		a, b := representable(kind, x.lo.Unix()), representable(kind, x.hi.Unix())
		if a != 0 || b != 0 {
			can = true
		}
		if a != 1 || b != 1 {
			cannot = true
		}
	}
	if err != nil {
		if !cannot {
			e.Fail("refused: "+kind, "%s: %s can hold this time, but: %v", what, kind, err)
			return false
		}
		e.Count("timestamps refused", 1)
		return true
	}
	if !can {
		e.Fail("not representable but made: "+kind, "%s: %s cannot hold this time (%s), but it was made", what, kind, l[0].lo.UTC().Format(time.RFC3339Nano))
		return false
	}
	return true
}

// shownJudge checks the display of a timestamp.
func (e *Env) shownJudge(what string, ts api.TS) bool {
	t, _, ok := denotes(ts.Put)
	if !ok {
		return true
	}
	t = t.UTC()
	if t.Year() < 1 || t.Year() > 9999 {
		return true
	}
	got, err := time.Parse("Mon Jan _2 15:04:05 2006 UTC", ts.Print) // takes fractions as well
	if err != nil {
		got, err = time.Parse("Mon Jan _2 15:04:05.000 2006 UTC", ts.Print)
	}
	if err != nil {
		e.Fail("unreadable display of a time", "%s: timestamp %x is shown as %q", what, ts.Put, ts.Print)
		return false
	}
	if !got.Equal(t.Truncate(time.Second)) && !got.Equal(t.Truncate(time.Millisecond)) {
		e.Fail("wrong display of a time: "+tsNames[ts.Put[0]], "%s: timestamp %x denotes %s and is shown as %q", what, ts.Put, t.Format(time.RFC3339Nano), ts.Print)
		return false
	}
	e.Count("displays judged", 1)
	return true
}

// stampedSend is a data or status frame made with a timestamp.
type stampedSend struct {
	kind       string // of the timestamp
	spec       api.Spec
	from, to   int64 // when it was made
	err        error
	built      api.Frame
	task       *simrt.Task
	made, sent bool
}

func drawStamped(s *simrt.Stream, sess uint32) *stampedSend {
	x := &stampedSend{}
	k := s.Intn(6)
	x.kind = tsNames[k]
	x.spec = api.Spec{Session: sess}
	typ := uint32(tData)
	if s.Chance(1, 2) {
		typ = tStatus
	}
	x.spec.Kind = kinds[typ]
	if s.Chance(1, 4) {
		x.kind = "posix32"
		x.spec.UseMake = true
		x.spec.Header = header(typ, fDesc, 2, fTstamp, 1)
	} else if s.Chance(1, 5) {
		x.kind = "posix32"
		x.spec.Flags = "descriptor=d64,reqtstamp=yes"
	} else if typ == tData {
		x.spec.Flags = "descriptor=d32,reqtstamp=" + x.kind
	} else {
		x.spec.Flags = "descriptor=d32," + x.kind + ",errcode=success"
	}
	x.spec.Payload = []byte("payload")
	x.spec.Progress = uint64(s.Intn(1000))
	return x
}

// run makes and sends the frame.
func (x *stampedSend) run(e *Env, i int, to net.UDPAddr) {
	x.from = e.W.Now
	f, err := e.B[i].Make(x.spec)
	x.to = e.W.Now
	if err != nil {
		x.err = err
		return
	}
	x.made = true
	x.built = f.Frame()
	c, err := e.B[i].DialUDP(&to)
	if err != nil {
		return
	}
	x.sent = f.Send(c, &to) == nil
	c.Close()
}

func (x *stampedSend) String() string {
	if x.spec.UseMake {
		return fmt.Sprintf("%s with header %08x", x.spec.Kind, x.spec.Header)
	}
	return fmt.Sprintf("%s with flags %q", x.spec.Kind, x.spec.Flags)
}

// judge checks what was made and sent.
func (x *stampedSend) judge(e *Env, i int, c *clock) bool {
	if x.task != nil && !x.task.Done() {
		e.Fail("does not finish", "making and sending %s does not finish: %s", x, x.task.Why())
		return false
	}
	l := c.spans(x.from, x.to)
	if !e.refusal(x.String(), x.kind, x.err, l) {
		return false
	}
	for _, d := range e.W.Net.Sent {
		if d.Node != i || x.task == nil || d.Task != x.task.ID {
			continue
		}
		v := refDecode(d.Data, 65000)
		if v.v == vBad {
			e.Fail("malformed frame sent", "%s went out as %x: %s", x, d.Data, v.why)
			return false
		}
		if v.frame.Session != x.spec.Session {
			continue
		}
		if x.err != nil {
			e.Fail("refused but sent", "%s was refused (%v) but went out as %x", x, x.err, d.Data)
			return false
		}
		if !e.stampJudge("sent "+x.String(), x.kind, v.frame.Tstamp.Put, l) {
			return false
		}
	}
	return true
}

func stamping(e *Env) {
	s := e.Work
	n, b := e.N[0], e.B[0]
	c := &clock{e: e}
	c.set(drawClock(s))
	e.Disk(0, nil)
	if s.Chance(1, 3) { // the clock runs over the edge of a format
		c.set(edges[s.Intn(len(edges))]-1-int64(s.Intn(2)), int64(s.Intn(1e9)))
	}
	if !e.Boot(0) {
		return
	}
	tasks := 1 + s.Intn(4)
	ops := 3 + s.Intn(8)
	if e.Deep {
		tasks, ops = 1+s.Intn(8), 3+s.Intn(30)
	}
	var all []*stampedSend
	var ts []*simrt.Task
	sess := uint32(0)
	for k := 0; k < tasks; k++ {
		type op struct {
			what int
			kind string
			t    time.Time
			x    *stampedSend
			nap  int64
		}
		var l []op
		for j := 0; j < ops; j++ {
			o := op{what: s.Pick(2, 3, 2, 1, 5), kind: tsNames[s.Intn(6)]}
			if s.Chance(1, 3) {
				o.nap = int64(s.Intn(1500)) * Milli
			}
			a, z := drawClock(s)
			o.t = time.Unix(a, z)
			if s.Chance(1, 2) { // not everybody lives at Greenwich
				o.t = o.t.In(time.FixedZone("X", s.Intn(86400)-43200))
			}
			sess++
			o.x = drawStamped(s, sess)
			if o.what == 4 {
				all = append(all, o.x)
			}
			l = append(l, o)
		}
		var me *simrt.Task
		me = n.Go(fmt.Sprintf("stamps %d", k), func() {
			for _, o := range l {
				if e.ended {
					return
				}
				if o.nap > 0 {
					simrt.Sleep(o.nap)
				}
				switch o.what {
				case 0: // the present
					from := e.W.Now
					t, err := b.TimeNow(o.kind)
					sp := c.spans(from, e.W.Now)
					if !e.refusal("a timestamp of now", o.kind, err, sp) || err != nil {
						continue
					}
					if e.stampJudge("a timestamp of now", o.kind, t.Put, sp) {
						e.shownJudge("a timestamp of now", t)
					}
				case 1, 2: // any time, to the wire and back
					t, err := b.TimeNew(o.kind, o.t)
					what := "a timestamp of " + o.t.UTC().Format(time.RFC3339Nano)
					sp := []span{{o.t, o.t}}
					if !e.refusal(what, o.kind, err, sp) || err != nil {
						continue
					}
					if !e.stampJudge(what, o.kind, t.Put, sp) || !e.shownJudge(what, t) {
						continue
					}
					r, err := b.TimeGet(t.Put)
					if err != nil {
						e.Fail("own timestamp not accepted: "+o.kind, "%s is %x, which is refused: %v", what, t.Put, err)
						continue
					}
					if string(r.Put) != string(t.Put) || r.Secs != t.Secs || r.Print != t.Print {
						e.Fail("timestamp changed by decoding: "+o.kind, "%s: %x %d %q became %x %d %q", what, t.Put, t.Secs, t.Print, r.Put, r.Secs, r.Print)
					}
				case 3: // the entry of something that has no times of its own
					from := e.W.Now
					d, _, err := b.DirNew("property=specialfile", "pipe")
					sp := c.spans(from, e.W.Now)
					if !e.refusal("a directory entry of a special file", "epoch2000_32", err, sp) || err != nil {
						continue
					}
					if e.stampJudge("modification time of a special file", "epoch2000_32", d.Mtime.Put, sp) {
						e.stampJudge("change time of a special file", "epoch2000_32", d.Ctime.Put, sp)
					}
				case 4:
					o.x.task = me
					o.x.run(e, 0, group4())
				}
			}
		})
		ts = append(ts, me)
	}
	running := func() bool {
		for _, t := range ts {
			if !t.Done() {
				return true
			}
		}
		return false
	}
	for k := 0; k < 200 && running() && !e.ended; k++ {
		simrt.Sleep(int64(e.Fault.Intn(900)) * Milli)
		if e.Fault.Chance(1, 2) {
			c.set(drawClock(e.Fault))
		}
		if e.Fault.Chance(1, 6) {
			n.Stall(int64(e.Fault.Intn(3000)) * Milli)
		}
	}
	if e.ended || !e.drain(0) {
		return
	}
	for _, x := range all {
		if x.task == nil {
			continue
		}
		if !x.judge(e, 0, c) {
			return
		}
	}
}

func clocks(e *Env) {
	s := e.Work
	cs := []*clock{{e: e, i: 0}, {e: e, i: 1}}
	cs[0].set(drawClock(s))
	near := func(t *simrt.Stream) (int64, int64) { // a clock the peer table can show
		_, ns := drawClock(t)
		switch t.Intn(3) {
		case 0:
			return int64(t.Intn(1000)), ns
		case 1:
			return 1<<32 - 100000 + int64(t.Intn(1000)), ns
		}
		return int64(t.U32()) >> 1, ns
	}
	cs[1].set(near(s))
	for i := range e.N {
		e.Disk(i, nil)
	}
	if !e.Boot(0) || !e.Boot(1) {
		return
	}
	e.netFaults(false)
	n := 3 + s.Intn(15)
	if e.Deep {
		n = 3 + s.Intn(60)
	}
	var all []*stampedSend
	tapAt := len(e.Taps)
	for k := 0; k < n && !e.ended; k++ {
		if s.Chance(2, 3) {
			x := drawStamped(s, uint32(k+1))
			to := group4()
			if s.Chance(1, 3) {
				to = group6()
			}
			x.task = e.N[0].Go("send", func() { x.run(e, 0, to) })
			all = append(all, x)
		} else {
			who := s.Intn(3)
			b := api.Frame{Kind: "beacon", Header: header(tBeacon, fDesc, uint32(s.Intn(3)), fTx, 3, fRx, 3), Eid: fmt.Sprintf("peer-%d", s.Intn(3))}
			e.send(host(1+who, who == 2, Port), refEncode(b))
		}
		simrt.Sleep(int64(s.Intn(1200)) * Milli)
		if e.Fault.Chance(1, 3) {
			cs[0].set(drawClock(e.Fault))
		}
		if e.Fault.Chance(1, 5) {
			cs[1].set(near(e.Fault))
		}
		if e.Fault.Chance(1, 10) {
			e.N[e.Fault.Intn(2)].Stall(int64(e.Fault.Intn(2500)) * Milli)
		}
	}
	if e.ended || !e.drain(0) || !e.drain(1) {
		return
	}
	for _, x := range all {
		if !x.judge(e, 0, cs[0]) {
			return
		}
	}
	// What the other node made of them.
	for _, t := range e.Taps[tapAt:] {
		if t.Node != 1 || !t.F.Addr.IP.Equal(e.N[0].IP4) && !t.F.Addr.IP.Equal(e.N[0].IP6) {
			continue
		}
		if t.F.Kind != "data" && t.F.Kind != "status" || t.F.Session == 0 || int(t.F.Session) > len(e.Taps)+n {
			continue
		}
		for _, x := range all {
			if x.spec.Session != t.F.Session || x.spec.Kind != t.F.Kind || !x.made || fTstamp.get(t.F.Header) == 0 {
				continue
			}
			what := fmt.Sprintf("%s as node 1 received it", x)
			if !e.stampJudge(what, x.kind, t.F.Tstamp.Put, cs[0].spans(x.from, x.to)) || !e.shownJudge(what, t.F.Tstamp) {
				return
			}
			e.Count("received timestamps judged", 1)
		}
	}
	// Times in the peer table of the other node.
	var peers []api.Peer
	if !e.N[1].Do("peers", 10*Second, func() { peers = e.B[1].Peers() }) {
		e.Fail("peer table not readable", "reading the peer table of node 1 blocks: %s", e.W.BlockedReport(e.N[1]))
		return
	}
	for _, p := range peers {
		var l []span
		for _, k := range e.N[1].Socks() {
			if k.Group == nil {
				continue
			}
			for _, d := range k.Delivered {
				if d.Src.IP.String() == p.Addr && len(d.Data) > 0 && kindOf(d.Data) == "beacon" {
					// The node takes a moment to work on it; stalls count.
					l = append(l, cs[1].spans(d.At, e.W.Now)...)
				}
			}
		}
		if len(l) == 0 {
			continue
		}
		for w, ts := range map[string]api.TS{"creation": p.Created, "update": p.Updated} {
			t, _, ok := denotes(ts.Put)
			if !ok {
				e.Fail("no valid time in the peer table", "peer %s: %s time %x", p.Addr, w, ts.Put)
				return
			}
			good := false
			for _, x := range l {
				if !t.Before(x.lo) && !t.After(x.hi) {
					good = true
				}
			}
			if !good {
				e.Fail("peer time is not the receiver's clock", "peer %s: %s time %s is none the clock of node 1 showed since its first beacon", p.Addr, w, t.UTC().Format(time.RFC3339Nano))
				return
			}
			if !e.shownJudge("peer "+w, ts) {
				return
			}
			e.Count("peer times judged", 1)
		}
	}
}
