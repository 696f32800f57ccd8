package harness

import (
	"encoding/binary"
	"fmt"
	"net"
	"strconv"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P04", Scenario{Name: "beacons and listings", Weight: 3, Fn: func(e *Env) { peers(e, false) }})
	reg("P04", Scenario{Name: "beacons, restarts and clock jumps", Weight: 2, Fn: func(e *Env) { peers(e, true) }})
}

// peerState is what one address has said.
type peerState struct {
	free         uint64
	eid          string
	desc, rx, tx uint32
	changes      int   // beacons that changed something
	cLo, cHi     int64 // bounds of the creation time
	uLo, uHi     int64
	ports        map[string]int // changes by source
}

func (p *peerState) same(f api.Frame) bool {
	h := f.Header
	return p.free == f.Freespace && p.eid == f.Eid && p.desc == fDesc.get(h) && p.rx == fRx.get(h) && p.tx == fTx.get(h)
}

func (p *peerState) set(f api.Frame) {
	h := f.Header
	p.free, p.eid, p.desc, p.rx, p.tx = f.Freespace, f.Eid, fDesc.get(h), fRx.get(h), fTx.get(h)
}

func (p *peerState) is(q api.Peer) string {
	switch {
	case q.Freespace != p.free:
		return fmt.Sprintf("free space %d, the last beacon said %d", q.Freespace, p.free)
	case q.Eid != p.eid:
		return fmt.Sprintf("eid %q, the last beacon said %q", q.Eid, p.eid)
	case q.Maxdesc != descNames[p.desc]:
		return fmt.Sprintf("descriptor %q, the last beacon said %q", q.Maxdesc, descNames[p.desc])
	case q.Canrx != willNames[p.rx]:
		return fmt.Sprintf("receive willingness %q, the last beacon said %q", q.Canrx, willNames[p.rx])
	case q.Cantx != willNames[p.tx]:
		return fmt.Sprintf("transmit willingness %q, the last beacon said %q", q.Cantx, willNames[p.tx])
	}
	return ""
}

// wallOf is the time in a posix32_32 timestamp, in nanoseconds.
func wallOf(t api.TS) (int64, bool) {
	if len(t.Put) != 16 || t.Put[0] != 3 {
		return 0, false
	}
	return int64(binary.BigEndian.Uint32(t.Put[1:]))*1e9 + int64(binary.BigEndian.Uint32(t.Put[5:])), true
}

// lookalike is an address much like the IPv4 address root.
func lookalike(like, h int, root net.IP) net.IP {
	ip := make(net.IP, 16)
	switch like {
	case 0: // the same end
		copy(ip[12:], root)
		ip[0], ip[1], ip[11] = 0xfd, byte(h>>8), byte(h)
	case 1: // one byte in a different place
		ip = net.ParseIP("fd00:1:2:3:4:5:6:7")
		ip[1+(h-1)%15] += byte(1 + (h-1)/15)
	case 2: // the same start
		copy(ip, root)
		ip[0] = 0x2a
		ip[14], ip[15] = byte(h>>8), byte(h)
	case 3: // IPv4 addresses with bytes traded
		b := [][4]byte{{10, 0, 1, 2}, {10, 0, 2, 1}, {10, 1, 0, 2}, {10, 1, 2, 0}, {10, 2, 0, 1}, {10, 2, 1, 0}, {11, 0, 1, 1}, {10, 0, 0, 2}, {10, 0, 0, 12}, {10, 0, 0, 121}}
		x := b[h%len(b)]
		return net.IPv4(x[0]+byte(h/len(b)), x[1], x[2], x[3]).To4()
	default: // printed alike
		return net.IPv4(10, 0, []byte{11, 1, 1, 11, 111}[h%5], []byte{1, 11, 111, 11}[h/5%4]+byte(h/20)).To4()
	}
	return ip
}

type peerRead struct {
	peers []api.Peer
	until int // taps seen when it was read
}

func peers(e *Env, restarts bool) {
	s := e.Work
	n := e.N[0]
	n.ClockSec = int64(s.Intn(1 << 31))
	e.Disk(0, nil)
	if !e.Boot(0) {
		return
	}
	e.netFaults(false)
	nh := 1 + s.Intn(5)
	phases := 1 + s.Intn(3)
	if e.Deep {
		nh, phases = 1+s.Intn(20), 1+s.Intn(8)
	}
	many := s.Chance(1, 100)
	if many { // a crowd
		nh, phases = []int{32, 64, 100, 128, 200, 256, 512, 1200, 1400}[s.Pick(4, 4, 4, 4, 4, 4, 1, 1, 1)]+s.Intn(3), 1
	}
	// Addresses that differ in little.
	alike := !many && s.Chance(1, 4)
	like := s.Intn(5)
	root := host(1, false, 0).IP.To4()
	seq := 0
	last := map[int][]byte{}
	model := map[string]*peerState{}
	hist := map[string][]peerState{} // states an address went through
	created := map[string]int64{}
	tapAt := len(e.Taps)
	starts := n.Starts
	for ph := 0; ph < phases && !e.ended; ph++ {
		var reads []*peerRead
		var cmds []*Command
		k := 2 + s.Intn(20)
		if e.Deep {
			k = 2 + s.Intn(80)
		}
		fresh := 0
		if many {
			k += nh
			e.Count("crowds", 1)
		}
		for ; k > 0 && !e.ended; k-- {
			h := s.Intn(nh)
			if many && fresh < nh {
				h = fresh
				fresh++
			}
			from := host(1+h, h%3 == 2, 7542+s.Pick(4, 1))
			if alike && h > 0 {
				from.IP, from.Zone = lookalike(like, h, root), ""
			}
			b := last[h]
			if b == nil || s.Chance(2, 3) {
				seq++
				hd := header(tBeacon, fDesc, uint32(s.Intn(3)), fStream, uint32(s.Intn(2)), fTx, uint32(s.Intn(4)), fRx, uint32(s.Intn(4)))
				f := api.Frame{Kind: "beacon", Header: hd, Eid: fmt.Sprintf("eid-%d-%d", h, seq)}
				if s.Chance(1, 3) { // a beacon that may not differ in its name
					f.Eid = fmt.Sprintf("eid-%d", h)
					if s.Chance(1, 3) {
						f.Eid = f.Eid[:s.Intn(3)]
					}
				}
				if s.Chance(2, 3) {
					fd := uint32(s.Intn(3))
					f.Header = fFreeD.set(fFree.set(hd, 1), fd)
					f.Freespace = num(s, fd)
				}
				if p := refDecode(b, 9000).frame; b != nil && p.Kind == "beacon" && s.Chance(1, 3) { // change one thing only
					switch s.Intn(7) {
					case 4: // what is sent and received is traded
						rx, tx := fRx.get(p.Header), fTx.get(p.Header)
						p.Header = fRx.set(fTx.set(p.Header, rx), tx)
					case 5: // a digit moves from one value to the other
						if d := strconv.FormatUint(p.Freespace, 10); fFree.get(p.Header) == 1 && len(d) > 1 && d[1] != '0' && len(p.Eid) < 30 {
							p.Eid += d[:1]
							p.Freespace, _ = strconv.ParseUint(d[1:], 10, 64)
						}
					case 6: // names alike
						if b := []byte(p.Eid); len(b) > 0 {
							switch i := s.Intn(len(b)); {
							case b[i] >= 'a' && b[i] <= 'z', b[i] >= 'A' && b[i] <= 'Z':
								b[i] ^= 0x20
							case b[i] >= '0' && b[i] <= '9':
								b[i] ^= 1
							}
							p.Eid = string(b)
						}
					case 0:
						p.Header = fDesc.set(p.Header, uint32(s.Intn(3)))
					case 1:
						p.Header = fTx.set(p.Header, uint32(s.Intn(4)))
					case 2:
						p.Header = fRx.set(p.Header, uint32(s.Intn(4)))
					case 3:
						if fFree.get(p.Header) == 1 {
							p.Freespace = num(s, fFreeD.get(p.Header))
						}
					}
					f = p
				}
				b = refEncode(f)
				last[h] = b
			}
			e.send(from, b)
			pick := s.Pick(8, 2, 2)
			if many && !s.Chance(1, 20) {
				pick = 0
			}
			switch pick {
			case 1:
				cmds = append(cmds, e.Cmd(0, "peers"))
			case 2:
				r := &peerRead{}
				reads = append(reads, r)
				n.Go("reader", func() {
					r.peers = e.B[0].Peers()
					r.until = len(e.Taps)
				})
			}
			if !many && s.Chance(1, 2) || s.Chance(1, 10) {
				simrt.Sleep(int64(s.Intn(40)) * Milli)
			}
		}
		crash := restarts && s.Chance(1, 3)
		if crash && s.Chance(1, 2) { // before all is worked off
			n.Crash()
			if !e.Boot(0) {
				return
			}
			reads, cmds = nil, nil
		}
		if e.ended || !e.drain(0) {
			return
		}
		for _, c := range cmds {
			if !c.Wait(60 * Second) {
				if !e.ended {
					e.Fail("listing blocks", "the peers command does not finish: %s", e.W.BlockedReport(n))
				}
				return
			}
		}
		if n.Starts != starts {
			starts = n.Starts
			model, hist, created = map[string]*peerState{}, map[string][]peerState{}, map[string]int64{}
		}
		hi := n.Wall().UnixNano()
		// Bring the model up to date.
		for ; tapAt < len(e.Taps); tapAt++ {
			t := e.Taps[tapAt]
			if t.Start != n.Starts || t.F.Kind != "beacon" {
				continue
			}
			a := t.F.Addr.IP.String()
			lo := n.ClockSec*1e9 + t.At + n.ClockNs
			p := model[a]
			if p == nil {
				p = &peerState{cLo: lo, cHi: hi, ports: map[string]int{}}
				model[a] = p
			} else if p.same(t.F) {
				e.Count("repeated beacons", 1)
				continue
			}
			p.set(t.F)
			p.uLo, p.uHi = lo, hi
			p.changes++
			p.ports[t.F.Addr.String()]++
			hist[a] = append(hist[a], *p)
			e.Count("changes", 1)
		}
		var got []api.Peer
		if !n.Do("peers", 60*Second, func() { got = e.B[0].Peers() }) {
			if !e.ended {
				e.Fail("listing blocks", "the peer table cannot be read: %s", e.W.BlockedReport(n))
			}
			return
		}
		if !e.checkPeers(got, model, created) {
			return
		}
		for _, r := range reads {
			if !e.checkRead(r.peers, hist, created) {
				return
			}
		}
		c := e.Cmd(0, "peers")
		if !c.Wait(60*Second) || !e.Settle(0, 60*Second) {
			if !e.ended {
				e.Fail("listing blocks", "the peers command does not finish: %s", e.W.BlockedReport(n))
			}
			return
		}
		if !e.checkListings(got, hist) || !e.checkReports(model) {
			return
		}
		e.Count("tables compared", 1)
		if restarts {
			switch s.Intn(3) {
			case 0:
				n.ClockSec = int64(s.Intn(1 << 31))
				e.W.Injected("clock jump")
			case 1:
				n.Crash()
				simrt.Sleep(int64(s.Intn(100)) * Milli)
				if !e.Boot(0) {
					return
				}
				starts = n.Starts
				tapAt = len(e.Taps)
				model, hist, created = map[string]*peerState{}, map[string][]peerState{}, map[string]int64{}
			}
		}
	}
}

func (e *Env) checkPeers(got []api.Peer, model map[string]*peerState, created map[string]int64) bool {
	seen := map[string]bool{}
	for _, q := range got {
		p := model[q.Addr]
		if p == nil {
			e.Fail("peer never heard from", "the table has an entry for %q, which sent no beacon", q.Addr)
			return false
		}
		if seen[q.Addr] {
			e.Fail("two entries for one peer", "the table has two entries for %s", q.Addr)
			return false
		}
		seen[q.Addr] = true
		if d := p.is(q); d != "" {
			e.Fail("entry differs from the last beacon", "peer %s: %s", q.Addr, d)
			return false
		}
		c, ok1 := wallOf(q.Created)
		u, ok2 := wallOf(q.Updated)
		if !ok1 || !ok2 {
			e.Fail("no time", "peer %s has times %x and %x", q.Addr, q.Created.Put, q.Updated.Put)
			return false
		}
		if w, ok := created[q.Addr]; ok && w != c {
			e.Fail("creation time changed", "peer %s: creation time %d, was %d", q.Addr, c, w)
			return false
		}
		created[q.Addr] = c
		if c < p.cLo || c > p.cHi {
			e.Fail("wrong creation time", "peer %s: created at %d ns, its first beacon came between %d and %d", q.Addr, c, p.cLo, p.cHi)
			return false
		}
		if u < p.uLo || u > p.uHi {
			e.Fail("wrong update time", "peer %s: updated at %d ns, the last beacon that changed something came between %d and %d", q.Addr, u, p.uLo, p.uHi)
			return false
		}
	}
	for _, a := range keys(model) {
		if !seen[a] {
			e.Fail("peer missing", "no entry for %s, which sent %d beacons that changed something", a, model[a].changes)
			return false
		}
	}
	return true
}

// checkRead checks a table read while beacons arrived.
func (e *Env) checkRead(got []api.Peer, hist map[string][]peerState, created map[string]int64) bool {
	seen := map[string]bool{}
	for _, q := range got {
		if seen[q.Addr] {
			e.Fail("two entries for one peer", "a table read while beacons arrived has two entries for %s", q.Addr)
			return false
		}
		seen[q.Addr] = true
		ok := false
		for k := range hist[q.Addr] {
			if hist[q.Addr][k].is(q) == "" {
				ok = true
			}
		}
		if !ok {
			e.Fail("mixed entry", "a table read while beacons arrived has %+v, which no beacon of %s said", q, q.Addr)
			return false
		}
		if c, k := wallOf(q.Created); !k || c != created[q.Addr] {
			e.Fail("creation time changed", "peer %s: creation time %d in an earlier reading, now %d", q.Addr, c, created[q.Addr])
			return false
		}
	}
	return true
}

// checkListings checks the tables shown to the operator; the last one was
// shown at rest.
func (e *Env) checkListings(got []api.Peer, hist map[string][]peerState) bool {
	var tables [][][]string
	in := 0
	for _, l := range e.View(0, "msg") {
		l = strings.TrimRight(l, " \x00")
		switch {
		case strings.HasPrefix(l, "+") && strings.HasSuffix(l, "+"):
			in++
			if in%3 == 1 {
				tables = append(tables, nil)
			}
		case strings.HasPrefix(l, "|") && strings.HasSuffix(l, "|") && in%3 == 2 && len(tables) > 0:
			c := strings.Split(strings.Trim(l, "|"), "|")
			for i := range c {
				c[i] = strings.TrimSpace(c[i])
			}
			tables[len(tables)-1] = append(tables[len(tables)-1], c)
		}
	}
	for i, t := range tables {
		seen := map[string]bool{}
		for _, c := range t {
			if len(c) != 8 {
				e.Fail("listing broken", "a peer listing has the row %q", c)
				return false
			}
			if seen[c[0]] {
				e.Fail("peer listed twice", "a peer listing shows %s twice", c[0])
				return false
			}
			seen[c[0]] = true
			ok := false
			for _, p := range hist[c[0]] {
				if c[1] == strconv.Itoa(int(p.free/1024/1024)) && c[2] == p.eid && c[3] == descNames[p.desc] && c[4] == willNames[p.rx] && c[5] == willNames[p.tx] {
					ok = true
				}
			}
			if !ok {
				e.Fail("listing mixes beacons", "a peer listing shows %q, which no beacon of %s said", c, c[0])
				return false
			}
		}
		if i < len(tables)-1 {
			continue
		}
		for _, q := range got {
			ok := false
			for _, c := range t {
				if c[0] == q.Addr && c[1] == strconv.Itoa(int(q.Freespace/1024/1024)) && c[2] == q.Eid && c[3] == q.Maxdesc && c[4] == q.Canrx && c[5] == q.Cantx &&
					c[6] == q.Created.Print && c[7] == q.Updated.Print {
					ok = true
				}
			}
			if !ok {
				e.Fail("listing incomplete", "the peer listing shows %q and lacks %+v", t, q)
				return false
			}
		}
		if len(t) != len(got) {
			e.Fail("listing has more", "the peer listing shows %d peers, the table has %d", len(t), len(got))
			return false
		}
	}
	if len(tables) == 0 && len(got) > 0 {
		e.Fail("no listing", "the peers command showed nothing: %q", e.View(0, "msg"))
		return false
	}
	return true
}

// checkReports checks that new and changed peers are reported, each once.
func (e *Env) checkReports(model map[string]*peerState) bool {
	n := map[string]int{}
	for _, l := range e.View(0, "msg") {
		if _, a, ok := strings.Cut(strings.TrimRight(l, " \x00"), "New Peer "); ok {
			n[strings.TrimSpace(a)]++
		}
	}
	want := map[string]int{}
	for _, a := range keys(model) {
		for _, p := range keys(model[a].ports) {
			want[p] += model[a].ports[p]
		}
	}
	for _, p := range keys(want) {
		if n[p] != want[p] {
			e.Fail("reports of new peers", "%d beacons from %s were new or changed something, %d were reported", want[p], p, n[p])
			return false
		}
	}
	for _, p := range keys(n) {
		if want[p] == 0 {
			e.Fail("reports of new peers", "%s was reported %d times and changed nothing", p, n[p])
			return false
		}
	}
	return true
}
