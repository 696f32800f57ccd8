package harness

import (
	"fmt"
	"net"

	"simmod/simrt"
)

func init() {
	reg("P01", Scenario{Name: "hostile traffic", Weight: 5, Fn: func(e *Env) { hostile(e, false) }})
	reg("P01", Scenario{Name: "hostile traffic with crashes", Weight: 2, Fn: func(e *Env) { hostile(e, true) }})
}

var queries = []string{"descriptor", "files", "tran", "peers", "beacon", "timeout ?", "checksum", "usage", "help", "help ?", "interval", "bcount", "stream",
	"rxwilling", "txwilling", "timestamp", "timezone", "reqtstamp", "freespace", "history", "home", "clear", "?", "nonsense", "get", "put"}

var changes = []string{"descriptor d16", "descriptor d32", "descriptor d64", "checksum md5", "checksum off", "rxwilling on", "rxwilling off",
	"txwilling capable", "freespace no", "freespace yes", "timestamp 32", "timestamp off", "interval 1", "bcount 2", "stream yes", "stream no", "reqtstamp no"}

// someCmd draws a harmless command line.
func someCmd(s *simrt.Stream) string {
	switch s.Pick(4, 3, 2) {
	case 0:
		return queries[s.Intn(len(queries))]
	case 1:
		return changes[s.Intn(len(changes))]
	}
	switch s.Intn(5) {
	case 0:
		return "beacon v4"
	case 1:
		return "beacon 10.0.1.9"
	case 2:
		return fmt.Sprintf("get 10.0.1.%d f%d", 1+s.Intn(3), s.Intn(9))
	case 3:
		return fmt.Sprintf("take 10.0.1.%d f%d", 1+s.Intn(3), s.Intn(9))
	}
	return fmt.Sprintf("delete 10.0.1.%d f%d", 1+s.Intn(3), s.Intn(9))
}

func (e *Env) someFiles(i int) {
	s := e.Work
	for k := 0; k < s.Intn(5); k++ {
		e.N[i].FS.Put(Sardir+"/"+fmt.Sprintf("f%d", s.Intn(9)), s.Blob(s.Intn(200)))
	}
	e.N[i].FS.Put(Sardir+"/file.txt", []byte("text"))
}

// netFaults draws the behaviour of the network.
func (e *Env) netFaults(hostile bool) {
	s := e.Work
	c := &e.W.Net.Cfg
	c.DelayMax = []int64{0, Milli, 20 * Milli, 500 * Milli}[s.Intn(4)]
	if s.Chance(1, 2) {
		c.Loss = s.Intn(300)
	}
	if s.Chance(1, 2) {
		c.Dup = s.Intn(300)
	}
	if hostile {
		if s.Chance(1, 2) {
			c.Corrupt = s.Intn(400)
		}
		if s.Chance(1, 3) {
			c.Trunc = s.Intn(300)
		}
	}
}

func (e *Env) cleanNet() {
	c := &e.W.Net.Cfg
	c.Loss, c.Dup, c.Corrupt, c.Trunc, c.WriteErr, c.DialErr, c.DelayMax = 0, 0, 0, 0, 0, 0, Milli
	e.W.Net.Cut = map[string]bool{}
}

func hostile(e *Env, crashes bool) {
	s := e.Work
	mtu := []int{1500, 1500, 1280, 9000, 576}[s.Intn(5)]
	e.N[0].MTU = mtu
	e.Disk(0, nil)
	e.someFiles(0)
	if !e.Boot(0) {
		return
	}
	e.netFaults(true)
	rounds := 1
	if crashes {
		rounds = 2 + s.Intn(2)
	}
	probe := 0
	for r := 0; r < rounds; r++ {
		n := 5 + s.Intn(35)
		if e.Deep {
			n = 5 + s.Intn(120)
		}
		burst := s.Chance(1, 3)
		for k := 0; k < n && !e.ended; k++ {
			switch s.Pick(12, 2, 1, 2) {
			case 3: // well-formed requests which get in each other's way
				e.send(host(1+s.Intn(2), s.Chance(1, 3), Port), frameReq(uint32(s.Intn(3)), uint32(1+s.Intn(6)), []string{"file.txt", "f1", "f2", "new", ""}[s.Pick(4, 2, 2, 2, 1)]))
			case 0:
				from := host(1+s.Intn(4), s.Chance(1, 3), 7542+s.Intn(2))
				e.send(from, datagram(s, mtu-60))
			case 1:
				e.Cmd(0, someCmd(s))
			case 2:
				switch s.Intn(3) {
				case 0:
					e.N[0].ClockSec += int64(s.Intn(1<<31)) - 1<<30
					e.W.Injected("clock jump")
				case 1:
					e.N[0].Stall(int64(s.Intn(2000)) * Milli)
				case 2:
					e.N[0].FS.Bavail = uint64(s.Intn(1 << 30))
				}
			}
			if !burst || s.Chance(1, 8) {
				simrt.Sleep(int64(s.Intn(50)) * Milli)
			}
		}
		if e.ended {
			return
		}
		if crashes && (r < rounds-1 || s.Chance(1, 2)) {
			if s.Chance(1, 2) {
				simrt.Sleep(int64(s.Intn(100)) * Milli)
			}
			e.N[0].Expect = true
			e.N[0].Crash()
			e.N[0].Expect = false
			simrt.Sleep(int64(s.Intn(200)) * Milli)
			if !e.Boot(0) {
				return
			}
			e.Count("restarts", 1)
		}
		if r == rounds-1 || s.Chance(1, 2) {
			e.cleanNet()
			simrt.Sleep(3 * Second)
			for _, v6 := range []bool{false, true} {
				probe++
				if !e.probe(0, probe, v6) {
					return
				}
			}
			e.netFaults(true)
		}
	}
}

// probe checks that a beacon, a request and a command are still acted on.
func (e *Env) probe(i, k int, v6 bool) bool {
	const limit = 60 * Second
	from := host(200+k, v6, 7542)
	eid := fmt.Sprintf("probe-%d", k)
	bcn := frameBeacon(eid)
	e.send(from, bcn)
	sess := uint32(0xABCD0000 + k)
	// What the request asks for does not matter: every one has an answer.
	req := frameReq(sess, uint32(1+e.Work.Intn(6)), "probefile")
	e.send(from, req)
	mark := len(e.Taps)
	okb, okr := false, false
	simrt.Wait(50*Milli, limit, func() bool {
		if e.ended {
			return true
		}
		if !okb {
			var peers []string
			if !e.N[i].Do("peers", 30*Second, func() {
				for _, p := range e.B[i].Peers() {
					if p.Eid == eid && sameHost(p.Addr, from.IP) {
						peers = append(peers, p.Addr)
					}
				}
			}) {
				return false
			}
			okb = len(peers) > 0
		}
		for ; mark < len(e.Taps); mark++ {
			t := e.Taps[mark]
			if t.Node == i && t.F.Kind == "status" && t.F.Session == sess && sameAddr(t.F.Addr, from) {
				okr = true
			}
		}
		return okb && okr
	})
	if e.ended {
		return false
	}
	if !okb || !okr {
		e.Fail(fmt.Sprintf("wedged beacon=%v request=%v", okb, okr), "node %d no longer acts: beacon acted on: %v, request answered: %v within 60 s; blocked: %s", i, okb, okr, e.W.BlockedReport(e.N[i]))
		return false
	}
	c := e.Cmd(i, "descriptor")
	if !c.Wait(limit) {
		if !e.ended {
			e.Fail("wedged command", "node %d no longer handles commands (taken=%v); blocked: %s", i, c.Taken, e.W.BlockedReport(e.N[i]))
		}
		return false
	}
	e.Count("probes", 1)
	return true
}

func sameHost(addr string, ip net.IP) bool {
	if x := net.ParseIP(addr); x != nil {
		return x.Equal(ip)
	}
	if h, _, err := net.SplitHostPort(addr); err == nil {
		if x := net.ParseIP(h); x != nil {
			return x.Equal(ip)
		}
	}
	return false
}
