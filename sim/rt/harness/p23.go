package harness

import (
	"fmt"
	"net"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P23", Scenario{Name: "a network of nodes", Weight: 4, Nodes: 3, Limit: 4000 * Second, Fn: func(e *Env) { fleet(e, false) }})
	reg("P23", Scenario{Name: "a network of nodes that fail", Weight: 4, Nodes: 3, Limit: 4000 * Second, Fn: func(e *Env) { fleet(e, true) }})
}

// member is a node of the network, as its operator knows it.
type member struct {
	cur  settings
	cmds []*Command // under way
}

func (e *Env) addrOf(i int, v6 bool) net.IP {
	if v6 {
		return e.N[i].IP6
	}
	return e.N[i].IP4
}

// typedNode is how an operator writes the address of a node.
func (e *Env) typedNode(i int, v6 bool) string {
	a := e.addrOf(i, v6)
	if a.IsLinkLocalUnicast() {
		return a.String() + "%" + e.N[i].IfName
	}
	return a.String()
}

func (e *Env) cutNode(i int, cut bool) {
	for _, v6 := range []bool{false, true} {
		a := e.addrOf(i, v6).String()
		if cut {
			e.W.Net.Cut[a] = true
		} else {
			delete(e.W.Net.Cut, a)
		}
	}
}

func (e *Env) newDisk(i int) {
	s := e.Work
	f := e.N[i].FS
	f.Bsize = []int64{512, 1024, 4096, 65536}[s.Intn(4)]
	switch s.Intn(4) {
	case 0:
		f.Bavail = uint64(s.Intn(1 << 20))
	case 1: // around the limits of the field sizes
		f.Bavail = uint64([]int64{65535, 65536, 1<<32 - 1, 1 << 32}[s.Intn(4)]+int64(s.Intn(3))-1) * 1024 / uint64(f.Bsize)
	case 2:
		f.Bavail = uint64(s.Intn(3))
	case 3:
		f.Bavail = s.U64() >> 24
	}
	f.Bfree = f.Bavail + uint64(1+s.Intn(5000))
	f.Blocks = f.Bfree + uint64(1+s.Intn(5000))
}

// fleet has nodes that beacon to each other through faults. Once the faults
// have stopped and some of them have beaconed again, all know those.
func fleet(e *Env, failing bool) {
	s := e.Work
	m := make([]*member, len(e.N))
	pids := 60000
	if s.Chance(1, 2) { // in containers
		pids = 1 + s.Intn(3)
	}
	for i, n := range e.N {
		n.Pid = 1 + s.Intn(pids)
		n.ClockSec = int64(s.Intn(1 << 31))
		n.MTU = []int{1500, 1500, 1280, 9000}[s.Intn(4)]
		if s.Chance(1, 2) { // no router, as usual on the link-local group
			n.IP6 = append(net.IP(nil), n.IP6...)
			n.IP6[0], n.IP6[1] = 0xfe, 0x80
		}
		e.Disk(i, nil)
		e.newDisk(i)
		if !e.Boot(i) {
			return
		}
		m[i] = &member{cur: factory()}
	}
	e.netFaults(false)
	heard := map[string]bool{} // strangers that beaconed
	up := func(i int) bool { return e.N[i].Up }
	boot := func(i int) bool {
		e.N[i].Pid = 1 + s.Intn(pids)
		m[i] = &member{cur: factory()}
		if len(e.N[i].FS.Faults) > 0 {
			e.N[i].FS.Faults = map[string]int{}
		}
		return e.Boot(i)
	}
	set := func(i int, line string) bool {
		c := e.Cmd(i, line)
		if !c.Wait(30 * Second) {
			if !e.ended {
				e.Fail("setting command blocks", "%q on node %d does not finish: %s", line, i, e.W.BlockedReport(e.N[i]))
			}
			return false
		}
		m[i].cur.apply(line)
		return true
	}
	target := func(i int) string {
		switch s.Pick(3, 3, 2, 2) {
		case 0:
			return "beacon v4"
		case 1:
			return "beacon v6"
		case 2: // one of the others
			j := (i + 1 + s.Intn(len(e.N)-1)) % len(e.N)
			return "beacon " + e.typedNode(j, s.Chance(1, 2))
		}
		l := "beacon"
		for j := range e.N {
			if j != i {
				l += " " + e.typedNode(j, s.Chance(1, 2))
			}
		}
		return l
	}
	rounds := 1 + s.Intn(2)
	churn := 3 + s.Intn(12)
	if e.Deep {
		rounds, churn = 1+s.Intn(4), 3+s.Intn(40)
	}
	for r := 0; r < rounds && !e.ended; r++ {
		for k := churn; k > 0 && !e.ended; k-- {
			i := s.Intn(len(e.N))
			w := 0
			if failing {
				w = 1
			}
			switch s.Pick(5, 3, 1, 1, 2*w, 2*w, w, w, w) {
			case 0:
				if up(i) {
					m[i].cmds = append(m[i].cmds, e.Cmd(i, target(i)))
				}
			case 1:
				if up(i) {
					l := beaconLines[s.Intn(len(beaconLines))]
					if s.Chance(1, 3) {
						l = fmt.Sprintf([]string{"bcount %d", "interval %d"}[s.Intn(2)], 1+s.Intn(3))
					}
					if !set(i, l) {
						return
					}
				}
			case 2:
				e.newDisk(i)
				e.W.Injected("free space change")
			case 3: // a stranger
				h := host(1+s.Intn(3), s.Chance(1, 2), Port)
				if s.Chance(1, 2) {
					heard[h.IP.String()] = true
					e.send(h, frameBeacon(fmt.Sprintf("stranger-%d", k)))
				} else {
					e.send(h, refEncode(frame(s, []string{"request", "data", "status"}[s.Intn(3)], 200)))
				}
			case 4:
				cut := s.Chance(2, 3)
				e.cutNode(i, cut)
				if cut {
					e.W.Injected("partition")
				}
			case 5:
				if up(i) {
					e.N[i].Crash()
					if s.Chance(1, 3) {
						continue // stays down
					}
					simrt.Sleep(int64(s.Intn(1000)) * Milli)
				}
				if !up(i) && !boot(i) {
					return
				}
			case 6:
				e.N[i].ClockSec = int64(s.Intn(1 << 31))
				e.W.Injected("clock jump")
			case 7:
				e.N[i].Stall(int64(s.Intn(3000)) * Milli)
			case 8:
				if s.Chance(1, 2) {
					e.N[i].FS.Faults = map[string]int{[]string{"statfs", "getwd"}[s.Intn(2)]: 500}
				} else {
					e.W.Net.Cfg.WriteErr = s.Intn(300)
				}
			}
			if s.Chance(2, 3) {
				simrt.Sleep(int64(s.Intn(2000)) * Milli)
			}
		}
		if e.ended {
			return
		}
		// The faults stop.
		e.cleanNet()
		for i := range e.N {
			e.N[i].FS.Faults = map[string]int{}
		}
		for i := range e.N {
			if !up(i) && !boot(i) {
				return
			}
		}
		for i := range e.N {
			for _, c := range m[i].cmds {
				if !c.Wait(200 * Second) {
					if !e.ended {
						e.Fail("beacon command does not end", "%q on node %d does not finish: %s", c.Line, i, e.W.BlockedReport(e.N[i]))
					}
					return
				}
			}
			m[i].cmds = nil
		}
		for i := range e.N {
			if !e.drain(i) {
				return
			}
		}
		// Some beacon again.
		mark := len(e.W.Net.Sent)
		var last []*Command
		for i := range e.N {
			if s.Chance(1, 4) {
				continue
			}
			var lines []string
			if s.Chance(1, 3) {
				lines = append(lines, beaconLines[s.Intn(len(beaconLines))])
			}
			lines = append(lines, fmt.Sprintf("bcount %d", 1+s.Intn(2)), "interval 1")
			for _, l := range lines {
				if !set(i, l) {
					return
				}
			}
			if s.Chance(1, 2) {
				e.newDisk(i)
			}
			last = append(last, e.Cmd(i, target(i)))
			if s.Chance(1, 2) {
				last = append(last, e.Cmd(i, "beacon "+[]string{"v4", "v6"}[s.Intn(2)]))
			}
			if s.Chance(1, 2) {
				simrt.Sleep(int64(s.Intn(1500)) * Milli)
			}
		}
		for _, c := range last {
			if !c.Wait(60 * Second) {
				if !e.ended {
					e.Fail("beacon command does not end", "%q on node %d does not finish: %s", c.Line, c.Node, e.W.BlockedReport(e.N[c.Node]))
				}
				return
			}
		}
		for i := range e.N {
			if !e.drain(i) {
				return
			}
		}
		if !e.known(m, mark, last, heard) {
			return
		}
	}
}

// reaches tells whether a datagram for an address gets to a node.
func (e *Env) reaches(a net.IP, j int) bool {
	return a.IsMulticast() || a.Equal(e.N[j].IP4) || a.Equal(e.N[j].IP6)
}

// known checks the peer tables against the commands just given and what their
// operators know of the nodes.
func (e *Env) known(m []*member, mark int, last []*Command, heard map[string]bool) bool {
	sent := map[string]bool{}
	for _, d := range e.W.Net.Sent {
		sent[d.Src.IP.String()] = true
	}
	for j := range e.N {
		var got []api.Peer
		if !e.N[j].Do("peers", 60*Second, func() { got = e.B[j].Peers() }) {
			if !e.ended {
				e.Fail("the peer table cannot be read", "node %d: %s", j, e.W.BlockedReport(e.N[j]))
			}
			return false
		}
		of := map[string]api.Peer{}
		for _, p := range got {
			if _, ok := of[p.Addr]; ok {
				e.Fail("two entries for one node", "node %d lists %s twice", j, p.Addr)
				return false
			}
			of[p.Addr] = p
			if !sent[p.Addr] && !heard[p.Addr] {
				e.Fail("peer made up", "node %d lists %s, which never sent anything", j, p.Addr)
				return false
			}
			if sent[p.Addr] && !e.said(p, j) {
				e.Fail("entry no beacon said", "node %d lists %s with %+v, which no beacon from there said", j, p.Addr, p)
				return false
			}
		}
		c := e.Cmd(j, "peers")
		if !c.Wait(60*Second) || !e.Settle(j, 60*Second) {
			if !e.ended {
				e.Fail("the peer table cannot be read", "node %d: %s", j, e.W.BlockedReport(e.N[j]))
			}
			return false
		}
		shown := strings.Join(e.View(j, "msg"), "\n")
		if k := strings.LastIndex(shown, "\nsaratoga["); k > 0 {
			shown = shown[k:]
		}
		for i := range e.N {
			if i == j {
				continue
			}
			n := e.N[i]
			want := map[string]bool{} // families it beaconed on to this node
			for _, c := range last {
				if c.Node != i {
					continue
				}
				for _, a := range strings.Fields(c.Line)[1:] {
					var ip net.IP
					switch a {
					case "v4":
						ip = group4().IP
					case "v6":
						ip = group6().IP
					default:
						ip = net.ParseIP(a)
					}
					if e.reaches(ip, j) {
						want[e.addrOf(i, ip.To4() == nil).String()] = true
					}
				}
			}
			for _, a := range keys(want) {
				p, ok := of[a]
				if !ok {
					e.Fail("node not found", "node %d does not list %s, which beaconed after all faults had stopped", j, a)
					return false
				}
				cur := m[i].cur
				free := uint64(0)
				if cur["freespace"] == "yes" {
					free = uint64(n.FS.Bsize) * n.FS.Bavail / 1024
				}
				switch {
				case p.Freespace != free:
					e.Fail("wrong free space of a node", "node %d lists %s with %d kB free, it has %d", j, a, p.Freespace, free)
				case p.Maxdesc != cur["descriptor"]:
					e.Fail("wrong descriptor of a node", "node %d lists %s with %q, it is set to %q", j, a, p.Maxdesc, cur["descriptor"])
				case p.Canrx != cur["rxwilling"]:
					e.Fail("wrong willingness of a node", "node %d lists %s with receive willingness %q, it is set to %q", j, a, p.Canrx, cur["rxwilling"])
				case p.Cantx != cur["txwilling"]:
					e.Fail("wrong willingness of a node", "node %d lists %s with transmit willingness %q, it is set to %q", j, a, p.Cantx, cur["txwilling"])
				}
				if e.Failed() {
					return false
				}
				// The endpoint id is that of a beacon just sent: address, port and process.
				id := false
				for _, d := range e.W.Net.Sent[mark:] {
					if d.Node == i && d.Src.IP.String() == a && e.reaches(d.Dst.IP, j) && p.Eid == fmt.Sprintf("%s-%d", d.Src.String(), n.Pid) {
						id = true
					}
				}
				if !id {
					e.Fail("wrong endpoint id of a node", "node %d lists %s with endpoint id %q, which no beacon it just sent has (process %d)", j, a, p.Eid, n.Pid)
					return false
				}
				if !strings.Contains(shown, a) {
					e.Fail("node not shown", "the peers command on node %d does not show %s: %q", j, a, shown)
					return false
				}
				e.Count("nodes found", 1)
			}
		}
		e.Count("tables checked", 1)
	}
	return true
}

// said tells whether all of an entry comes from one beacon of that address.
func (e *Env) said(p api.Peer, j int) bool {
	for _, d := range e.W.Net.Sent {
		if d.Src.IP.String() != p.Addr || !e.reaches(d.Dst.IP, j) {
			continue
		}
		if r := refDecode(d.Data, 9000); r.v == vAccept && r.frame.Kind == "beacon" {
			q := &peerState{}
			q.set(r.frame)
			if q.is(p) == "" {
				return true
			}
		}
	}
	return false
}
