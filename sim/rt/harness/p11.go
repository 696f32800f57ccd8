package harness

import (
	"bytes"
	"fmt"
	"net"
	"sort"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P11", Scenario{Name: "ranges in any order", Weight: 2, Fn: ranges})
	reg("P11", Scenario{Name: "transfer on a lossy network", Weight: 4, Nodes: 2, Limit: 4000 * Second, Fn: func(e *Env) { reassemble(e, false) }})
	reg("P11", Scenario{Name: "transfer with disk errors, partitions and restarts", Weight: 3, Nodes: 2, Limit: 4000 * Second, Fn: func(e *Env) { reassemble(e, true) }})
}

// union is the reference for ranges received.
type union struct{ l []api.Hole }

func (u *union) add(start, end int) {
	if end <= start {
		return
	}
	l := append(append([]api.Hole(nil), u.l...), api.Hole{Start: start, End: end})
	sort.Slice(l, func(i, j int) bool { return l[i].Start < l[j].Start })
	u.l = nil
	for _, h := range l {
		if k := len(u.l) - 1; k >= 0 && h.Start <= u.l[k].End {
			u.l[k].End = max(u.l[k].End, h.End)
		} else {
			u.l = append(u.l, h)
		}
	}
}

func (u *union) holes() (v []api.Hole) {
	at := 0
	for _, h := range u.l {
		if h.Start > at {
			v = append(v, api.Hole{Start: at, End: h.Start})
		}
		at = h.End
	}
	return v
}

// tracked compares recorded ranges with the reference.
func (e *Env) tracked(f api.Fills, u *union, what string) bool {
	if l := f.List(); !sameHoles(l, u.l) {
		e.Fail("ranges received", "%s: the ranges recorded are %s, they have to be %s", what, clip(fmt.Sprint(l), 200), clip(fmt.Sprint(u.l), 200))
		return false
	}
	h := f.Holes()
	if !sameHoles(h, u.holes()) {
		e.Fail("holes", "%s: the holes are %s, they have to be %s", what, clip(fmt.Sprint(h), 200), clip(fmt.Sprint(u.holes()), 200))
		return false
	}
	if f.Len() != len(h) {
		e.Fail("number of holes", "%s: the number of holes is %d, there are %d", what, f.Len(), len(h))
		return false
	}
	return true
}

func ranges(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	if !e.Boot(0) {
		return
	}
	var tasks []*simrt.Task
	for k := 1 + s.Intn(3); k > 0; k-- {
		tasks = append(tasks, n.Go("ranges", func() {
			f := e.B[0].NewFills()
			u := &union{}
			size := []int{20, 100, 1000, 1 << 40, 1<<63 - 1}[s.Intn(5)]
			ops := 1 + s.Intn(30)
			if e.Deep {
				ops = 1 + s.Intn(300)
			}
			var said []string
			for i := 0; i < ops && !e.ended; i++ {
				a := s.Intn(size)
				b := a + 1 + s.Intn(min(size-a, 1+size/(1+s.Intn(12))))
				if len(u.l) > 0 && s.Chance(1, 3) { // at the border of another
					h := u.l[s.Intn(len(u.l))]
					switch s.Intn(6) {
					case 0:
						a, b = h.End, h.End+1+s.Intn(5)
					case 1:
						a, b = max(0, h.Start-1-s.Intn(5)), h.Start
					case 2:
						a, b = h.Start, h.End
					case 3:
						a, b = h.Start, h.Start+1
					case 4:
						a, b = max(0, h.Start-1), h.Start+1
					case 5:
						a, b = h.End-1, h.End
					}
					if b < a || b < 0 {
						b = a
					}
				}
				if s.Chance(1, 20) {
					b = a
				}
				said = append(said, fmt.Sprintf("[%d,%d)", a, b))
				f = f.Add(a, b)
				u.add(a, b)
				if i%4 == 3 {
					simrt.Sleep(int64(s.Intn(2)))
				}
				e.Count("ranges added", 1)
				if !e.tracked(f, u, "after adding "+clip(fmt.Sprint(said), 400)) {
					return
				}
			}
		}))
	}
	if !simrt.Wait(5*Milli, 60*Second, func() bool {
		for _, t := range tasks {
			if !t.Done() {
				return e.ended
			}
		}
		return true
	}) {
		e.Fail("ranges block", "recording ranges does not finish: %s", e.W.BlockedReport(n))
	}
}

// reassemble transfers a file from node 0 to node 1: the sender's blocks are
// read, sent and received by the program; so are the reports of the holes.
func reassemble(e *Env, hard bool) {
	s := e.Work
	snd, rcv := e.N[0], e.N[1]
	mtu := []int{1500, 576, 1280, 300}[s.Intn(4)]
	block := 16 + s.Intn(mtu-130)
	size := s.Intn(40 * block)
	if s.Chance(1, 4) {
		block, size = 8+s.Intn(20), s.Intn(9000)
		if s.Chance(1, 2) {
			mtu = 300
		}
	}
	if e.Deep {
		size = s.Intn(200 * block)
	}
	if s.Chance(1, 8) {
		size -= size % block
	}
	for i := range e.N {
		e.N[i].MTU = mtu
		e.Disk(i, nil)
	}
	whole := s.Blob(size)
	snd.FS.Put(where("src"), whole)
	if !e.Boot(0) || !e.Boot(1) {
		return
	}
	cfg := &e.W.Net.Cfg
	cfg.Loss, cfg.Dup = 100+s.Intn(600), s.Intn(300)
	cfg.DelayMax = []int64{0, 20 * Milli, 500 * Milli, 5 * Second}[s.Intn(4)]
	if hard {
		for _, op := range []string{"write", "seek"} {
			if s.Chance(1, 2) {
				rcv.FS.Faults[op] = 50 + s.Intn(300)
			}
		}
		for _, op := range []string{"read", "seek", "open"} {
			if s.Chance(1, 3) {
				snd.FS.Faults[op] = 50 + s.Intn(300)
			}
		}
		snd.FS.ShortRd = s.Intn(2) * 300
		if s.Chance(1, 3) {
			cfg.WriteErr = s.Intn(200)
		}
	}
	v6 := s.Chance(1, 3)
	ip := func(n *simrt.Node) net.IP {
		if v6 {
			return n.IP6
		}
		return n.IP4
	}
	var tr api.Tran
	if !rcv.Do("start", 60*Second, func() {
		t, err := e.B[1].NewInitiator(e.Gui(1), "get", &net.UDPAddr{IP: ip(snd), Port: Port}, "dst")
		if err != nil {
			e.Fail("transfer refused", "a transfer cannot be started: %v", err)
			return
		}
		tr = t
	}) || e.ended {
		if !e.ended {
			e.Fail("transfer blocks", "starting a transfer does not finish: %s", e.W.BlockedReport(rcv))
		}
		return
	}
	sess := tr.Session()
	if size > 0 && tr.Fp().Nil() {
		e.Fail("no file", "a transfer is started without a file")
		return
	}

	// The sender. It knows what the reports it received name.
	want := []api.Hole{{Start: 0, End: size}}
	desc := []string{"d16", "d32", "d64"}[s.Intn(3)]
	if size > 65535 {
		desc = "d32"
	}
	// Data goes to the receiver's socket, or to the group.
	to := net.UDPAddr{IP: ip(rcv), Port: Port}
	if s.Chance(1, 4) {
		to = group4()
		if v6 {
			to = group6()
		}
	}
	transmit := func(list []api.Hole) func() {
		return func() {
			b := e.B[0]
			f, err := b.FileOpen("src", "put")
			if err != nil {
				return
			}
			defer f.Close()
			c, err := b.ListenUDP(&net.UDPAddr{})
			if err != nil {
				return
			}
			defer c.Close()
			var blocks []api.Hole
			for _, h := range list {
				for a := h.Start; a < h.End; a += block {
					blocks = append(blocks, api.Hole{Start: a, End: min(a+block, h.End)})
				}
			}
			for i := len(blocks) - 1; i > 0; i-- {
				if s.Chance(1, 3) {
					j := s.Intn(i + 1)
					blocks[i], blocks[j] = blocks[j], blocks[i]
				}
			}
			for _, h := range blocks {
				got, err := f.Read(uint64(h.Start), h.End-h.Start)
				if err != nil || len(got) == 0 {
					continue
				}
				d, err := b.Make(api.Spec{Kind: "data", Flags: "descriptor=" + desc + ",transfer=file,reqtstamp=no,reqstatus=no,eod=no",
					Session: sess, Offset: uint64(h.Start), Payload: got})
				if err != nil {
					e.Fail("block not sent", "a block of %d bytes at %d with %s cannot be made: %v", len(got), h.Start, desc, err)
					return
				}
				if err := d.Send(c, &to); err == nil {
					e.Count("blocks sent", 1)
				}
			}
		}
	}
	// The receiver.
	fills := e.B[1].NewFills()
	u := &union{}
	seen := 0
	record := func() {
		for ; seen < len(e.Taps) && !e.ended; seen++ {
			t := e.Taps[seen]
			if t.Node != 1 || t.F.Kind != "data" || t.F.Session != sess || len(t.F.Payload) == 0 {
				continue
			}
			k, err := tr.Fp().Write(t.F.Offset, t.F.Payload)
			if k > 0 {
				fills = fills.Add(int(t.F.Offset), int(t.F.Offset)+k)
				u.add(int(t.F.Offset), int(t.F.Offset)+k)
				e.Count("blocks recorded", 1)
				if !e.tracked(fills, u, fmt.Sprintf("after a block of %d bytes at %d", k, t.F.Offset)) {
					return
				}
			} else if err == nil {
				e.Fail("incomplete write not reported", "a block of %d bytes at %d is not written, no error is reported", len(t.F.Payload), t.F.Offset)
				return
			}
		}
	}
	report := func() {
		end := uint64(0)
		l := fills.List()
		if len(l) > 0 {
			end = uint64(l[len(l)-1].End)
		}
		tr.SetState(end, end, l)
		r := tr.WriteStatus(e.Gui(1), "descriptor="+desc+",reqtstamp=no,metadatarecvd=no,allholes=no,reqholes=requested,errcode=success")
		e.Count("reports", 1)
		if r != "success" && cfg.WriteErr == 0 && !hard {
			e.Fail("report refused", "the holes %s cannot be reported: %s", clip(fmt.Sprint(fills.Holes()), 100), r)
		}
	}
	do := func(n *simrt.Node, name string, fn func()) bool {
		if !n.Do(name, 300*Second, fn) {
			if !e.ended && n.Up {
				e.Fail(name+" blocks", "%s does not finish: %s", name, e.W.BlockedReport(n))
			}
			return !e.ended
		}
		return !e.ended
	}
	complete := func() bool {
		l := fills.List()
		return size == 0 || len(l) == 1 && l[0] == api.Hole{Start: 0, End: size}
	}
	lossy := s.Intn(5)
	if e.Deep {
		lossy = s.Intn(30)
	}
	const bound = 2
	stat := 0
	for r := 0; r < lossy+bound && !complete(); r++ {
		if r == lossy { // the network stops losing frames
			old := cfg.DelayMax
			e.cleanNet()
			simrt.Sleep(old)
			for _, n := range e.N {
				n.FS.Faults, n.FS.ShortRd = map[string]int{}, 0
			}
		} else if hard && r < lossy && s.Chance(1, 4) {
			e.W.Net.Cut[ip(rcv).String()] = true
		}
		if !do(snd, "sending blocks", transmit(want)) {
			return
		}
		if hard && r < lossy && s.Chance(1, 5) {
			if s.Chance(1, 2) {
				simrt.Sleep(int64(s.Intn(20)) * Milli)
			}
			snd.Crash()
			old := snd.FS.Faults
			snd.FS.Faults = map[string]int{}
			if !e.Boot(0) {
				return
			}
			snd.FS.Faults = old
		}
		simrt.Sleep(cfg.DelayMax + 10*Milli)
		if !e.drain(1) || !do(rcv, "recording blocks", record) {
			return
		}
		e.W.Net.Cut = map[string]bool{}
		stat = len(e.Taps)
		if !do(rcv, "reporting holes", report) {
			return
		}
		simrt.Sleep(cfg.DelayMax + 10*Milli)
		if !e.drain(0) || !e.drain(1) || !do(rcv, "recording blocks", record) {
			return
		}
		// What the sender was told.
		var next []api.Hole
		told := false
		tail := 0
		for _, t := range e.Taps[stat:] {
			if t.Node != 0 || t.F.Kind != "status" || t.F.Session != sess || !t.F.Addr.IP.Equal(ip(rcv)) {
				continue
			}
			told = true
			next = append(next, t.F.Holes...)
			tail = max(tail, int(t.F.Inrespto))
		}
		if told && r >= lossy {
			// Nothing is lost any more: the sender knows exactly what is
			// missing.
			sort.Slice(next, func(i, j int) bool { return next[i].Start < next[j].Start })
			if !sameHoles(next, u.holes()) {
				e.Fail("holes told", "the sender is told of the holes %s, they are %s", clip(fmt.Sprint(next), 200), clip(fmt.Sprint(u.holes()), 200))
				return
			}
			e.Count("complete reports", 1)
		}
		if told {
			if tail < size {
				next = append(next, api.Hole{Start: tail, End: size})
			}
			want = next
			e.Count("reports received", 1)
		} else if r >= lossy {
			e.Fail("report lost", "a report of holes does not reach the sender on a network without losses")
			return
		}
		e.Count("rounds", 1)
	}
	if e.ended {
		return
	}
	if !complete() {
		e.Fail("transfer does not finish", "after %d rounds without losses the receiver has %s of %d bytes", bound, clip(fmt.Sprint(fills.List()), 200), size)
		return
	}
	got := rcv.FS.Get(where("dst"))
	if got == nil {
		e.Fail("received file missing", "the received file is not there")
		return
	}
	if !bytes.Equal(got.Bytes(), whole) {
		d := 0
		for b := got.Bytes(); d < len(b) && d < len(whole) && b[d] == whole[d]; d++ {
		}
		e.Fail("received file differs", "the received file of %d bytes differs from the sender's %d bytes at %d", got.Size, size, d)
		return
	}
	e.Count("files transferred", 1)
}
