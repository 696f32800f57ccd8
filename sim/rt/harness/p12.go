package harness

import (
	"fmt"
	"net"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P12", Scenario{Name: "status reports", Weight: 4, Fn: func(e *Env) { reports(e, false) }})
	reg("P12", Scenario{Name: "status reports with failing sends", Weight: 4, Fn: func(e *Env) { reports(e, true) }})
}

// reporting is one call that reports the state of a transfer.
type reporting struct {
	t                  api.Tran
	tag                int
	session            uint32
	peer               string
	flags              string
	desc               uint32
	stamp              bool
	code               uint32
	metarx, reqholes   uint32
	progress, inrespto uint64
	holes              []api.Hole
	conn               bool
	result             string
	task               *simrt.Task
	clock              int64
}

func reports(e *Env, hard bool) {
	s := e.Work
	n := e.N[0]
	mtu := []int{1500, 1500, 1280, 576, 300, 128 + s.Intn(200), 9000}[s.Intn(7)]
	n.MTU = mtu
	e.Disk(0, nil)
	if !e.Boot(0) {
		return
	}
	g := e.Gui(0)
	b := e.B[0]
	var trs []api.Tran
	want := 1 + s.Intn(3)
	if !n.Do("start", 60*Second, func() {
		for k := 0; k < want; k++ {
			h := host(1+s.Intn(3), s.Chance(1, 3), []int{Port, Port, 4000}[s.Intn(3)])
			t, err := b.NewInitiator(g, []string{"get", "take"}[s.Intn(2)], &h, fmt.Sprintf("f%d", k))
			if err != nil || t == nil {
				e.Fail("transfer refused", "a transfer of f%d with %s cannot be started: %v", k, h.String(), err)
				return
			}
			trs = append(trs, t)
		}
	}) || e.ended {
		if !e.ended {
			e.Fail("transfer blocks", "starting a transfer does not finish: %s", e.W.BlockedReport(n))
		}
		return
	}
	if hard {
		if s.Chance(3, 4) {
			e.W.Net.Cfg.WriteErr = []int{20, 100, 400}[s.Intn(3)]
		}
	}
	if s.Chance(1, 6) { // anybody may listen in, that must not matter
		e.netFaults(false)
	}
	rounds := 1 + s.Intn(4)
	if e.Deep {
		rounds = 1 + s.Intn(40)
	}
	for r := 0; r < rounds && !e.ended; r++ {
		var rs []*reporting
		for _, t := range trs {
			if len(rs) > 0 && s.Chance(1, 3) {
				continue
			}
			rs = append(rs, e.oneReport(t, mtu))
		}
		mark, fmark := len(e.W.Net.Sent), len(e.W.Net.Fails)
		for _, x := range rs {
			x := x
			e.tag++
			x.tag = e.tag
			x.task = n.Go("report", func() {
				simrt.Cur().Tag = x.tag
				x.result = x.t.WriteStatus(g, x.flags)
			})
		}
		if hard && s.Chance(1, 8) {
			simrt.Sleep(int64(s.Intn(3)) * Milli)
			n.Crash()
			// What a crash interrupts has no result, but sends nothing wrong.
			for _, x := range rs {
				if !x.task.Done() {
					x.result = ""
				}
				e.checkReport(x, mark, fmark, mtu, true)
			}
			e.Count("reports cut off by a crash", int64(len(rs)))
			return
		}
		if !simrt.Wait(5*Milli, 60*Second, func() bool {
			for _, x := range rs {
				if !x.task.Done() {
					return e.ended
				}
			}
			return true
		}) {
			e.Fail("report blocks", "reporting does not finish: %s", e.W.BlockedReport(n))
		}
		for _, x := range rs {
			if !e.ended {
				e.checkReport(x, mark, fmark, mtu, false)
			}
		}
	}
}

// oneReport sets the state of a transfer and says what to report of it.
func (e *Env) oneReport(t api.Tran, mtu int) *reporting {
	s := e.Work
	x := &reporting{t: t, session: t.Session(), peer: t.Peer(), conn: true}
	x.desc = uint32(s.Intn(3))
	if s.Chance(1, 25) {
		x.desc = 3
	}
	x.stamp = s.Chance(1, 3)
	if s.Chance(1, 3) {
		x.code = uint32(s.Intn(len(errNames)))
	}
	x.metarx, x.reqholes = uint32(s.Intn(2)), uint32(s.Intn(2))
	fl := []string{"descriptor=" + descNames[x.desc], "metadatarecvd=" + []string{"yes", "no"}[x.metarx],
		"reqholes=" + []string{"requested", "voluntarily"}[x.reqholes], "errcode=" + errNames[x.code]}
	if x.desc == 0 && s.Chance(1, 3) { // which is what it is if nothing is said
		fl = fl[1:]
	}
	if s.Chance(2, 3) {
		fl = append(fl, "allholes="+[]string{"yes", "no"}[s.Intn(2)])
	}
	if x.stamp {
		fl = append(fl, "reqtstamp=yes")
	} else if s.Chance(1, 2) {
		fl = append(fl, "reqtstamp=no")
	}
	for i := len(fl) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		fl[i], fl[j] = fl[j], fl[i]
	}
	for i, f := range fl {
		if i > 0 {
			x.flags += ","
		}
		x.flags += f
	}
	d := min(x.desc, 2)
	// How many holes go in one frame, about.
	fit := (mtu - 60 - 8 - 2*sizeN(d)) / (2 * sizeN(d))
	var nh int
	switch s.Pick(3, 3, 4, 2) {
	case 1:
		nh = 1 + s.Intn(10)
	case 2:
		nh = max(0, fit*(1+s.Intn(3))+s.Intn(9)-7)
	case 3:
		nh = s.Intn(3*fit + 10)
	}
	nh = min(nh, 1500)
	if e.Work.Chance(1, 10) { // no fills at all
		nh = 0
	}
	at := 0
	if s.Chance(1, 2) {
		at = s.Intn(20)
	}
	if d == 2 && s.Chance(1, 4) {
		at = 1 << 40
	}
	if d >= 1 && s.Chance(1, 8) {
		at = 1<<32 - 1 - s.Intn(4*nh+10)
	}
	if d == 0 && s.Chance(1, 8) {
		at = 1<<16 - 1 - s.Intn(4*nh+10)
		if at < 0 {
			at = 0
		}
	}
	var l []api.Hole
	for len(l) < nh || len(l) == 0 && nh > 0 {
		k := 1 + s.Intn(3)
		l = append(l, api.Hole{Start: at, End: at + k})
		at += k + 1 + s.Intn(3)
	}
	x.progress, x.inrespto = uint64(at), uint64(s.Intn(at+1))
	switch s.Pick(8, 1, 1) {
	case 1:
		x.progress = big(s, d)
	case 2:
		x.inrespto = big(s, d)
	}
	u := &union{}
	for _, h := range l {
		u.add(h.Start, h.End)
	}
	t.SetState(x.progress, x.inrespto, u.l)
	if x.code == 0 {
		x.holes = u.holes()
	}
	if s.Chance(1, 30) {
		t.DropConn()
	}
	x.conn = t.HasConn()
	return x
}

func (e *Env) checkReport(x *reporting, mark, fmark, mtu int, cut bool) {
	what := fmt.Sprintf("report with %q of session %d to %s (MTU %d, progress %d/%d, %d holes)", x.flags, x.session, x.peer, mtu, x.progress, x.inrespto, len(x.holes))
	var out []simrt.Dgram
	for _, d := range e.W.Net.Sent[mark:] {
		if d.Tag == x.tag {
			out = append(out, d)
		}
	}
	failed := 0
	for _, d := range e.W.Net.Fails[fmark:] {
		if d.Tag == x.tag {
			failed++
		}
	}
	e.Count("reports", 1)
	e.Count("report frames", int64(len(out)))
	// What a frame with these values cannot carry.
	unfit := x.desc == 3
	var room int
	if !unfit {
		m := maxN(x.desc)
		unfit = x.progress > m || x.inrespto > m
		for _, h := range x.holes {
			unfit = unfit || uint64(h.End) > m
		}
		room = mtu - 60 - 8 - 2*sizeN(x.desc)
		if x.stamp {
			room -= 16
		}
		unfit = unfit || room < 0 || len(x.holes) > 0 && room < 2*sizeN(x.desc)
	}
	if x.result == "success" {
		switch {
		case !x.conn:
			e.Fail("impossible report not reported", "%s: success is returned, there is no connection", what)
			return
		case failed > 0:
			e.Fail("failed send not reported", "%s: success is returned, %d sends failed", what, failed)
			return
		case unfit:
			e.Fail("impossible report not reported", "%s: success is returned, a frame cannot carry this", what)
			return
		case len(out) == 0:
			e.Fail("no report", "%s: success is returned, nothing was sent", what)
			return
		}
		e.Count("reports sent", 1)
	} else if !cut {
		e.Count("reports refused", 1)
		// Room for a little less than fits is fine, none at all is not.
		snug := !unfit && len(x.holes) > 0 && room < 2*sizeN(x.desc)+8
		if x.conn && failed == 0 && !unfit && !snug {
			e.Fail("possible report refused", "%s: %q is returned", what, x.result)
			return
		}
	}
	var got []api.Hole
	for i, d := range out {
		to, err := net.ResolveUDPAddr("udp", x.peer)
		if err != nil || !sameAddr(*to, d.Dst) {
			e.Fail("report to somebody else", "%s: a frame goes to %s", what, d.Dst.String())
			return
		}
		v := refDecode(d.Data, mtu)
		if v.v != vAccept || v.frame.Kind != "status" {
			sig := "report not acceptable"
			if len(d.Data) > mtu-60 {
				sig = "report too long for the link"
			}
			e.Fail(sig, "%s: frame %d has %d bytes, a peer would not accept it (%s)", what, i, len(d.Data), v.why)
			return
		}
		f := v.frame
		if f.Session != x.session || f.Progress != x.progress || f.Inrespto != x.inrespto {
			e.Fail("report values", "%s: frame %d carries session %d progress %d/%d", what, i, f.Session, f.Progress, f.Inrespto)
			return
		}
		if fErr.get(f.Header) != x.code || fDesc.get(f.Header) != x.desc || fMetaRx.get(f.Header) != x.metarx || fReqH.get(f.Header) != x.reqholes ||
			(fTstamp.get(f.Header) == 1) != x.stamp {
			e.Fail("report header", "%s: frame %d has the header %08x", what, i, f.Header)
			return
		}
		got = append(got, f.Holes...)
	}
	all := map[api.Hole]int{}
	for _, h := range x.holes {
		all[h]++
	}
	for _, h := range got {
		if all[h] == 0 {
			kind := "hole reported twice"
			was := false
			for _, w := range x.holes {
				was = was || w == h
			}
			if !was {
				kind = "other range reported as hole"
			}
			if x.code != 0 {
				kind = "holes in a report of an error"
			}
			e.Fail(kind, "%s: the hole [%d,%d) is reported, the holes are %s", what, h.Start, h.End, clip(fmt.Sprint(x.holes), 200))
			return
		}
		all[h]--
	}
	if x.result == "success" {
		if len(got) < len(x.holes) {
			var miss []api.Hole
			for _, h := range x.holes {
				if all[h] > 0 {
					miss = append(miss, h)
				}
			}
			e.Fail("hole not reported", "%s: %d frames do not name the holes %s", what, len(out), clip(fmt.Sprint(miss), 200))
			return
		}
		for i, d := range out {
			f := refDecode(d.Data, mtu).frame
			// allholes: 0 is yes.
			if complete := fAllH.get(f.Header) == 0; complete != (len(out) == 1) {
				e.Fail("report wrongly marked as complete", "%s: frame %d of %d is marked %v", what, i, len(out), complete)
				return
			}
		}
	}
}
