package harness

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P05", Scenario{Name: "beacon bursts", Weight: 4, Limit: 200000 * Second, Fn: func(e *Env) { beacons(e, false) }})
	reg("P05", Scenario{Name: "beacon bursts with failing sends and disk", Weight: 4, Limit: 200000 * Second, Fn: func(e *Env) { beacons(e, true) }})
}

// burst is a beacon command.
type burst struct {
	cmd     *Command
	line    string
	to      []net.UDPAddr
	from    settings            // in force before
	allow   map[string][]string // values each setting may have
	first   int64               // time of the first beacon
	crashed bool
	pid     int
}

func (b *burst) could(k string) []string {
	return append([]string{b.from[k]}, b.allow[k]...)
}

// freeAt is a change of the free space.
type freeAt struct {
	at    int64
	bsize int64
	avail uint64
}

func beacons(e *Env, faulty bool) {
	s := e.Work
	n := e.N[0]
	n.Pid = 2 + s.Intn(60000)
	n.ClockSec = int64(s.Intn(1 << 31))
	e.Disk(0, nil)
	var free []freeAt
	setFree := func() {
		n.FS.Bsize = []int64{512, 1024, 4096, 65536, 1}[s.Intn(5)]
		switch s.Intn(5) {
		case 0:
			n.FS.Bavail = uint64(s.Intn(1 << 20))
		case 1: // around the limits of the field sizes
			n.FS.Bavail = uint64([]int64{65535, 65536, 1<<32 - 1, 1 << 32}[s.Intn(4)]+int64(s.Intn(3))-1) * 1024 / uint64(n.FS.Bsize)
		case 2:
			n.FS.Bavail = uint64(s.Intn(3))
		case 3:
			n.FS.Bavail = s.U64() >> 17
		case 4:
			n.FS.Bavail = s.U64() >> 40
		}
		n.FS.Bfree = n.FS.Bavail + uint64(1+s.Intn(5000))
		n.FS.Blocks = n.FS.Bfree + uint64(1+s.Intn(5000))
		free = append(free, freeAt{e.W.Now, n.FS.Bsize, n.FS.Bavail})
	}
	setFree()
	if !e.Boot(0) {
		return
	}
	var peers int
	for _, h := range []int{1, 2, 3} { // someone listens
		e.W.Net.Hosts[host(h, false, 0).IP.String()] = func(d simrt.Dgram) { peers++ }
	}
	cur := factory()
	set := func(line string, wait bool) *Command {
		c := e.Cmd(0, line)
		if wait {
			if !c.Wait(30 * Second) {
				if !e.ended {
					e.Fail("setting command blocks", "%q does not finish: %s", line, e.W.BlockedReport(n))
				}
				return nil
			}
			cur.apply(line)
		}
		return c
	}
	var all []*burst
	nextHost := 0
	phases := 1 + s.Intn(2)
	if e.Deep {
		phases = 1 + s.Intn(4)
	}
	for ph := 0; ph < phases && !e.ended; ph++ {
		e.cleanNet()
		n.FS.Faults = map[string]int{}
		// Settings, one after the other.
		lines := []string{fmt.Sprintf("bcount %d", 1+s.Intn(6)), fmt.Sprintf("interval %d", 1+s.Intn(5))}
		if e.Deep {
			lines = []string{fmt.Sprintf("bcount %d", 1+s.Intn(20)), fmt.Sprintf("interval %d", 1+s.Intn(12))}
		}
		slow, many := false, false
		switch s.Pick(28, 2, 1, 1) {
		case 1: // minutes apart
			slow = true
			lines = []string{fmt.Sprintf("bcount %d", 1+s.Intn(3)), fmt.Sprintf("interval %d", []int{60, 128, 256, 300, 600}[s.Intn(5)]-1+s.Intn(3))}
		case 2: // many
			slow = true
			lines = []string{fmt.Sprintf("bcount %d", []int{64, 100, 128, 256, 300}[s.Intn(5)]-1+s.Intn(3)), "interval 1"}
			if s.Chance(1, 4) {
				many = true
				lines[0] = fmt.Sprintf("bcount %d", []int{512, 1000, 1024}[s.Intn(3)]-1+s.Intn(3))
			}
		case 3:
			lines[1] = "interval off"
		}
		for k := s.Intn(5); k > 0; k-- {
			lines = append(lines, beaconLines[s.Intn(len(beaconLines))])
		}
		if s.Chance(1, 3) {
			lines = append(lines, badLine(s))
		}
		for _, l := range lines {
			if set(l, true) == nil {
				return
			}
		}
		if s.Chance(1, 2) {
			setFree()
		}
		if faulty {
			c := &e.W.Net.Cfg
			switch s.Intn(4) {
			case 0:
				c.WriteErr = 50 + s.Intn(400)
			case 1:
				c.DialErr = 100 + s.Intn(500)
			case 2:
				n.FS.Faults["statfs"] = []int{1000, 300}[s.Intn(2)]
			case 3:
				n.FS.Faults["getwd"] = []int{1000, 300}[s.Intn(2)]
			}
			if s.Chance(1, 3) {
				c.Loss, c.Dup = s.Intn(300), s.Intn(300)
			}
		}
		var bs []*burst
		racing := func(l string) {
			f := effect(l)
			for _, b := range bs {
				for _, k := range keys(f) {
					b.allow[k] = append(b.allow[k], f[k])
				}
			}
			e.Count("settings racing with a burst", 1)
		}
		var early []string // given before a burst, may not have been done yet
		var loose []*Command
		nb, kinds := 1+s.Intn(3), []int{2, 2, 4, 3}
		if many { // to one place
			nb, kinds = 1, []int{2, 2, 4}
		}
		used := map[string]bool{}
		for k := 0; k < nb && !e.ended; k++ {
			b := &burst{allow: map[string][]string{}, from: cur.copy(), first: -1, pid: n.Pid}
			switch s.Pick(kinds...) {
			case 0:
				b.line, b.to = "beacon v4", []net.UDPAddr{group4()}
			case 1:
				b.line, b.to = "beacon v6", []net.UDPAddr{group6()}
			case 2:
				nextHost++
				b.to = []net.UDPAddr{host(nextHost, s.Chance(1, 2), Port)}
				b.line = "beacon " + typedAddr(b.to[0])
			case 3:
				b.line = "beacon"
				valid := 0
				for m := 2 + s.Intn(3); m > 0; m-- {
					if m == 1 && valid > 0 && s.Chance(1, 3) {
						b.line += " " + []string{"10.0.0.300", "nowhere", "fd00::zz", "10.0.0.1:7542"}[s.Intn(4)]
						continue
					}
					nextHost++
					valid++
					a := host(nextHost, s.Chance(1, 2), Port)
					b.to = append(b.to, a)
					b.line += " " + typedAddr(a)
				}
			}
			dup := false
			for _, a := range b.to {
				dup = dup || used[a.IP.String()]
			}
			if dup {
				continue
			}
			for _, a := range b.to {
				used[a.IP.String()] = true
			}
			for _, l := range early {
				f := effect(l)
				for _, q := range keys(f) {
					b.allow[q] = append(b.allow[q], f[q])
				}
			}
			bs = append(bs, b)
			all = append(all, b)
			b.cmd = e.Cmd(0, b.line)
			if s.Chance(1, 4) {
				l := beaconLines[s.Intn(len(beaconLines))]
				racing(l)
				loose = append(loose, e.Cmd(0, l))
				early = append(early, l)
			}
			if s.Chance(1, 3) {
				simrt.Sleep(int64(s.Intn(1500)) * Milli)
			}
		}
		// While beacons go out.
		simrt.Sleep(50 * Milli)
		crashAt := -1
		during := s.Intn(6)
		if s.Chance(1, 6) && during > 0 {
			crashAt = s.Intn(during)
		}
		for k := 0; k < during && !e.ended; k++ {
			switch s.Pick(5, 2, 1, 1) {
			case 0:
				l := setLine(s)
				if s.Chance(1, 2) {
					l = beaconLines[s.Intn(len(beaconLines))]
				}
				started := 0
				for _, b := range bs {
					if e.firstOf(b) >= 0 {
						started++
					} else {
						f := effect(l)
						for _, q := range keys(f) {
							b.allow[q] = append(b.allow[q], f[q])
						}
					}
				}
				c := e.Cmd(0, l)
				simrt.Sleep(900 * Milli)
				if e.ended {
					return
				}
				if !c.Done() {
					if !simrt.Wait(10*Milli, 100*Milli, func() bool { return c.Done() }) {
						e.Fail("settings wait for beacons", "%q was not done a second after it was given while beacons went out: %s", l, e.W.BlockedReport(n))
						return
					}
				}
				cur.apply(l)
				e.Count("settings during a burst", 1)
			case 1:
				q := []string{"beacon", "beacon off", "beacon ?", "bcount", "interval", "peers"}[s.Intn(6)]
				if s.Chance(1, 4) { // none of these asks for a beacon
					q = []string{"beacon off 10.0.0.9", "beacon off fd00::9 10.0.0.9", "beacon 10.0.0.9.", "beacon V4", "beacon fd00::zz", "beacon 10.0.9", "beacon 10.0.0.256", "beacon 3"}[s.Intn(8)]
				}
				c := e.Cmd(0, q)
				simrt.Sleep(900 * Milli)
				if !c.Done() && !e.ended && !simrt.Wait(10*Milli, 100*Milli, func() bool { return c.Done() }) {
					e.Fail("commands wait for beacons", "%q was not done a second after it was given while beacons went out: %s", q, e.W.BlockedReport(n))
					return
				}
			case 2:
				setFree()
				e.W.Injected("free space change")
			case 3:
				n.ClockSec += int64(s.Intn(1<<20)) - 1<<19
				e.W.Injected("clock jump")
			}
			if k == crashAt {
				for _, b := range bs {
					b.crashed = true
				}
				n.Crash()
				mark := len(e.W.Net.Sent)
				simrt.Sleep(int64(s.Intn(8000)) * Milli)
				if len(e.W.Net.Sent) != mark {
					e.Fail("beacons after a crash", "a node that is down sends %d datagrams", len(e.W.Net.Sent)-mark)
					return
				}
				n.FS.Faults = map[string]int{}
				n.Pid = 2 + s.Intn(60000)
				if !e.Boot(0) {
					return
				}
				mark = len(e.W.Net.Sent)
				simrt.Sleep(5 * Second)
				if len(e.W.Net.Sent) != mark {
					e.Fail("beacons after a restart", "a restarted node given no beacon command sends %s", e.W.Net.Sent[mark])
					return
				}
				cur = factory()
				loose = nil
				break
			}
		}
		if e.ended {
			return
		}
		limit := 120 * Second
		if slow {
			limit = 9000 * Second
		}
		if e.Deep {
			limit = 4000 * Second
		}
		for _, b := range bs {
			if slow {
				simrt.Wait(Second, limit, func() bool { return b.crashed || b.cmd.Done() })
			}
			if !b.crashed && !b.cmd.Wait(limit) {
				if !e.ended {
					e.Fail("beacon command does not end", "%q does not finish: %s", b.line, e.W.BlockedReport(n))
				}
				return
			}
		}
		for _, c := range loose {
			if !c.Wait(30 * Second) {
				if !e.ended {
					e.Fail("setting command blocks", "%q does not finish: %s", c.Line, e.W.BlockedReport(n))
				}
				return
			}
		}
		simrt.Sleep(10 * Milli)
		for _, b := range bs {
			if !e.checkBurst(b, free) {
				return
			}
		}
		if !e.onlyBursts(all) {
			return
		}
		// What racing settings left is known now.
		if len(early) > 0 {
			var c api.Cli
			n.Do("settings", 10*Second, func() { c = e.B[0].Cli() })
			if e.ended {
				return
			}
			cur = settingsOf(c)
		}
	}
}

func (e *Env) firstOf(b *burst) int64 {
	if b.first < 0 {
		for _, d := range e.W.Net.Sent {
			if d.Tag == b.cmd.Tag || b.owns(d) {
				b.first = d.At
				break
			}
		}
	}
	return b.first
}

func (b *burst) owns(d simrt.Dgram) bool {
	if b.cmd.Taken && d.At < b.cmd.At {
		return false
	}
	for _, a := range b.to {
		if sameAddr(a, d.Dst) {
			return d.Tag == b.cmd.Tag
		}
	}
	return false
}

// onlyBursts checks that every datagram sent belongs to a beacon command.
func (e *Env) onlyBursts(bs []*burst) bool {
	for _, d := range e.W.Net.Sent {
		ok := false
		for _, b := range bs {
			ok = ok || b.owns(d)
		}
		if !ok {
			e.Fail("beacon to another address", "the node sends %s, which no beacon command asked for", d)
			return false
		}
	}
	return true
}

func (e *Env) checkBurst(b *burst, free []freeAt) bool {
	var err []simrt.Dgram
	for _, d := range e.W.Net.Fails {
		if d.Tag == b.cmd.Tag {
			err = append(err, d)
		}
	}
	wdErr, statErr, statOK := 0, 0, 0
	for _, o := range e.N[0].FS.Log {
		if o.Tag != b.cmd.Tag {
			continue
		}
		switch {
		case o.Op == "getwd" && o.Err != "":
			wdErr++
		case o.Op == "statfs" && o.Err != "":
			statErr++
		case o.Op == "statfs":
			statOK++
		}
	}
	opts := map[string]map[string]bool{}
	for _, k := range []string{"descriptor", "stream", "txwilling", "rxwilling", "freespace", "bcount", "binterval"} {
		opts[k] = map[string]bool{}
		for _, v := range b.could(k) {
			opts[k][v] = true
		}
	}
	for ai, a := range b.to {
		var got []simrt.Dgram
		for _, d := range e.W.Net.Sent {
			if d.Tag == b.cmd.Tag && sameAddr(d.Dst, a) {
				got = append(got, d)
			}
		}
		errs := 0
		for _, d := range err {
			if d.Dst.IP.Equal(a.IP) {
				errs++
			}
		}
		want := 0
		counts := []string{}
		hit := false
		for v := range opts["bcount"] {
			fmt.Sscan(v, &want)
			counts = append(counts, v)
			if opts["binterval"]["0"] && want > 1 && len(got) == 1 { // the comments have it so
				hit = true
			}
			if len(got) == want || len(got) < want && (errs > 0 || wdErr > 0 || b.crashed) {
				hit = true
			}
		}
		sort.Strings(counts)
		if !hit {
			e.Fail("wrong number of beacons", "%q: %d beacons to %s (address %d), configured %s, failed sends %d, crashed %v", b.line, len(got), a.IP, ai+1, strings.Join(counts, " or "), errs, b.crashed)
			return false
		}
		if errs == 0 && !b.crashed {
			e.Count("bursts complete", 1)
		}
		e.Count("beacons checked", int64(len(got)))
		var h0 uint32
		for k, d := range got {
			if k > 0 {
				gap := d.At - got[k-1].At
				ok := false
				for v := range opts["binterval"] {
					iv := int64(0)
					fmt.Sscan(v, &iv)
					ok = ok || gap >= iv*Second-50*Milli && gap <= iv*Second+Second // a ticker would do, too
				}
				if !ok {
					e.Fail("wrong spacing", "%q: beacons %d and %d to %s are %.3f s apart, the interval is %s s", b.line, k, k+1, a.IP, float64(gap)/1e9, b.from["binterval"])
					return false
				}
			}
			r := refDecode(d.Data, 9000)
			if r.v != vAccept || r.frame.Kind != "beacon" {
				e.Fail("not a beacon", "%q sends %x, which is no beacon: %s", b.line, d.Data, r.why)
				return false
			}
			f := r.frame
			h := f.Header
			vals := map[string]string{"descriptor": descNames[fDesc.get(h)], "stream": []string{"no", "yes"}[fStream.get(h)], "txwilling": willNames[fTx.get(h)], "rxwilling": willNames[fRx.get(h)]}
			for _, q := range keys(vals) {
				if !opts[q][vals[q]] {
					e.Fail("beacon does not carry the setting: "+q, "%q: beacon %d to %s says %s=%s, in force was %s", b.line, k+1, a.IP, q, vals[q], strings.Join(b.could(q), " or "))
					return false
				}
			}
			if fUlite.get(h) != 0 {
				e.Fail("beacon does not carry the setting: udplite", "%q: beacon to %s says udplite=yes", b.line, a.IP)
				return false
			}
			hx := fFreeD.set(fFree.set(h, 0), 0)
			if k == 0 {
				h0 = hx
			} else if hx != h0 {
				e.Fail("burst altered", "%q: beacon %d to %s has header %08x, the first had %08x", b.line, k+1, a.IP, h, h0)
				return false
			}
			if w := fmt.Sprintf("%s-%d", d.Src.String(), b.pid); f.Eid != w {
				e.Fail("wrong endpoint id", "%q: beacon %d to %s has endpoint id %q, the sender is %q", b.line, k+1, a.IP, f.Eid, w)
				return false
			}
			if fFree.get(h) == 1 {
				if !opts["freespace"]["yes"] {
					e.Fail("free space against the setting", "%q: beacon to %s advertises free space, the setting is no", b.line, a.IP)
					return false
				}
				if statOK == 0 && statErr > 0 {
					e.Fail("free space made up", "%q: beacon to %s advertises %d kB, the file system could not be queried", b.line, a.IP, f.Freespace)
					return false
				}
				ok := false
				for i, x := range free {
					end := d.At
					from := b.cmd.At
					next := int64(1) << 62
					if i+1 < len(free) {
						next = free[i+1].at
					}
					if x.at <= end && next >= from && f.Freespace == uint64(x.bsize)*x.avail/1024 {
						ok = true
					}
				}
				if !ok {
					e.Fail("wrong free space", "%q: beacon to %s advertises %d kB, the file system reported %v", b.line, a.IP, f.Freespace, free)
					return false
				}
				e.Count("figures checked", 1)
			} else if !opts["freespace"]["no"] && statErr == 0 && wdErr == 0 {
				e.Fail("free space not advertised", "%q: beacon to %s advertises no free space, the setting is yes", b.line, a.IP)
				return false
			}
		}
	}
	return true
}
