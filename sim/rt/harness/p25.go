package harness

import (
	"fmt"
	"net"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P25", Scenario{Name: "commands, requests and failures", Weight: 4, Limit: 20000 * Second, Fn: func(e *Env) { descriptors(e, false) }})
	reg("P25", Scenario{Name: "commands and requests without descriptors", Weight: 3, Limit: 20000 * Second, Fn: func(e *Env) { descriptors(e, true) }})
}

// descriptors lets a node do all kinds of things, some of which fail, and
// then compares what it has open with what it still uses.
func descriptors(e *Env, scarce bool) {
	s, n, b := e.Work, e.N[0], e.B[0]
	fs := n.FS
	e.Disk(0, nil)
	e.someFiles(0)
	fs.MkdirAll(Sardir + "/sub")
	fs.Put(Sardir+"/sub/inner", s.Blob(s.Intn(50)))
	if !e.Boot(0) {
		return
	}
	fresh := 0
	name := func() string {
		switch s.Pick(3, 3, 2, 1, 1) {
		case 0:
			return "file.txt"
		case 1:
			fresh++
			return fmt.Sprintf("new%d", fresh)
		case 2:
			return fmt.Sprintf("f%d", s.Intn(9))
		case 3:
			return "sub"
		}
		return []string{"sub/inner", "sub/missing", "missing/x", "../x", "none"}[s.Intn(5)]
	}
	to := func() net.UDPAddr { return host(s.Intn(6), s.Chance(1, 3), Port) }
	listed := func() (l []api.Tran, ok bool) {
		ok = n.Do("transfers", 60*Second, func() { l = b.Trans() })
		return l, ok
	}
	var held map[*simrt.Sock]bool
	start := func() {
		held = map[*simrt.Sock]bool{}
		for _, k := range n.Socks() {
			held[k] = true
		}
	}
	// rest compares, true if the run can go on.
	var bursts []*Command
	rest := func(after string) bool {
		for _, x := range bursts {
			if !x.Wait(5000*Second) && !e.ended {
				e.Fail("command does not end", "after %s %q does not end: %s", after, x.Line, e.W.BlockedReport(n))
			}
		}
		bursts = nil
		if e.Failed() {
			return false
		}
		if !e.Settle(0, 5000*Second) {
			if !e.ended && !e.Failed() {
				e.Fail("never rests", "after %s the node does not come to rest: %s", after, e.W.BlockedReport(n))
			}
			return false
		}
		l, ok := listed()
		if !ok {
			if !e.ended {
				e.Fail("no list of transfers", "after %s the transfers cannot be listed: %s", after, e.W.BlockedReport(n))
			}
			return false
		}
		socks, files := map[*simrt.Sock]bool{}, map[*simrt.OpenFD]bool{}
		n.Do("what transfers have", 60*Second, func() {
			for _, t := range l {
				if t.HasConn() {
					socks[t.Conn().Sock()] = true
				}
				if f := t.Fp(); f != nil && !f.Nil() {
					files[f.Sim()] = true
				}
			}
		})
		for _, k := range n.Socks() {
			if k.Group == nil && !held[k] && !socks[k] {
				e.Fail("socket kept", "after %s the node rests, its socket %s to %v, which belongs to no transfer of the %d it lists, is still open", after, k.Local.String(), k.Remote, len(l))
				return false
			}
		}
		for k := range held {
			if k.Closed() {
				e.Fail("listener closed", "after %s the socket %s the node has had since its start is closed", after, k.Local.String())
				return false
			}
		}
		for _, o := range n.Files() {
			if !files[o] {
				e.Fail("file kept", "after %s the node rests, its file %s, which belongs to no transfer of the %d it lists, is still open", after, o.Name(), len(l))
				return false
			}
		}
		e.Count("descriptors compared", 1)
		return true
	}
	start()
	if !rest("its start") {
		return
	}
	rounds := 1 + s.Intn(3)
	if e.Deep {
		rounds = 1 + s.Intn(10)
	}
	probes := 0
	for r := 0; r < rounds && !e.ended; r++ {
		for _, l := range []string{fmt.Sprintf("bcount %d", 1+s.Intn(3)), fmt.Sprintf("interval %d", 1+s.Intn(3))} {
			if !e.Cmd(0, l).Wait(60*Second) && !e.ended {
				e.Fail("command does not end", "%q does not end: %s", l, e.W.BlockedReport(n))
				return
			}
		}
		c := &e.W.Net.Cfg
		c.DelayMax = []int64{0, Milli, 20 * Milli}[s.Intn(3)]
		if s.Chance(1, 3) {
			c.DialErr = 100 + s.Intn(900)
		}
		if s.Chance(1, 3) {
			c.WriteErr = 100 + s.Intn(900)
		}
		if s.Chance(1, 2) {
			op := []string{"stat", "lstat", "open", "create", "read", "seek", "mkdir", "chdir", "getwd", "statfs", "remove"}[s.Intn(11)]
			fs.Faults = map[string]int{op: 100 + s.Intn(900)}
		}
		if s.Chance(1, 6) {
			fs.Room = int64(s.Intn(60))
		}
		if scarce {
			n.MaxFds = len(n.Socks()) + len(n.Files()) + s.Intn(6)
		}
		var did []string
		one := -1 // the same over and over
		if s.Chance(1, 3) {
			one = s.Intn(9)
		}
		atOnce := s.Chance(1, 2)
		for k := 2 + s.Intn(9); k > 0 && !e.ended; k-- {
			what := one
			if what < 0 {
				what = s.Pick(4, 5, 1, 2, 3, 2, 2, 3, 1)
			}
			cmd := func(l string) {
				did = append(did, l)
				x := e.Cmd(0, l)
				if what == 0 {
					bursts = append(bursts, x)
				}
				if !atOnce && what == 0 {
					x.Wait(100 * Second)
				} else if !atOnce {
					e.Settle(0, 100*Second)
				}
			}
			task := func(l string, fn func()) {
				did = append(did, l)
				t := n.Go(l, fn)
				if !atOnce {
					simrt.Wait(5*Milli, 100*Second, func() bool { return e.ended || t.Done() })
				}
				e.Count("calls", 1)
			}
			switch what {
			case 0:
				l := []string{"beacon v4", "beacon v6", "beacon "}[s.Pick(1, 1, 4)]
				if l == "beacon " {
					l += typedAddr(to())
					for s.Chance(1, 3) {
						l += " " + typedAddr(to())
					}
				}
				cmd(l)
			case 1:
				cmd(fmt.Sprintf("%s %s %s", []string{"get", "take", "getdir", "put", "give", "putblind", "delete"}[s.Intn(7)], typedAddr(to()), name()))
			case 2:
				cmd(badLine(s))
			case 3:
				for x := 1 + s.Intn(3); x > 0; x-- {
					e.send(to(), datagram(s, 1400))
				}
				did = append(did, "datagrams")
			case 4:
				nm := name()
				typ := uint32(1 + s.Intn(6))
				e.send(to(), frameReq(uint32(s.Intn(1000)), typ, nm))
				did = append(did, fmt.Sprintf("a request of type %d for %s", typ, nm))
			case 5:
				nm, kind := name(), csNames[1+s.Intn(3)]
				if s.Chance(1, 2) {
					task("the "+kind+" of "+nm, func() { b.Checksum(kind, nm) })
				} else {
					sp := api.Spec{Kind: "metadata", Session: s.U32(), Fname: nm, Flags: "descriptor=d32,progress=inprogress,reliability=udponly,transfer=" +
						[]string{"file", "directory"}[s.Intn(2)] + ",csumtype=" + kind}
					task("metadata of "+nm+" with "+kind, func() { b.Make(sp) })
				}
			case 6:
				nm := name()
				if s.Chance(1, 2) {
					task("file information of "+nm, func() { b.FileMeta(nm) })
				} else {
					task("directory entry of "+nm, func() { b.DirNew("property=normalfile,descriptor=d32,reliability=yes", nm) })
				}
			case 7, 8: // a transfer ends
				l, ok := listed()
				if !ok || len(l) == 0 {
					continue
				}
				t := l[s.Intn(len(l))]
				if what == 7 || s.Chance(1, 2) {
					task("the end of "+t.Print(), func() { t.Remove() })
					e.Count("transfers ended", 1)
					break
				}
				if !atOnce && s.Chance(1, 2) { // it loses its connection, the next transfer ends it
					task("the loss of the connection of "+t.Print(), func() {
						if t.HasConn() {
							t.Conn().Close()
							t.DropConn()
						}
					})
					break
				}
				task("a report of "+t.Print(), func() {
					if t.HasConn() {
						t.WriteStatus(e.Gui(0), "errcode=success,metadatarecvd=yes,allholes=yes,reqholes=requested")
					}
				})
			}
		}
		last := did
		if len(last) > 12 {
			last = last[len(last)-12:]
		}
		if !rest(fmt.Sprintf("%q", last)) {
			return
		}
		e.cleanNet()
		fs.Faults = map[string]int{}
		fs.Room = -1
		n.MaxFds = 0
		if s.Chance(1, 6) {
			n.Crash()
			simrt.Sleep(int64(1+s.Intn(1000)) * Milli)
			if !e.Boot(0) {
				return
			}
			start()
			if !rest("a restart") {
				return
			}
		}
		if s.Chance(1, 2) || scarce {
			if !e.probe(0, probes, s.Chance(1, 2)) {
				return
			}
			probes++
			// It sends again as well.
			mark := len(e.W.Net.Sent)
			dst := to()
			x := e.Cmd(0, "beacon "+typedAddr(dst))
			if !x.Wait(100*Second) || e.ended {
				if !e.ended {
					e.Fail("command does not end", "%q does not end: %s", x.Line, e.W.BlockedReport(n))
				}
				return
			}
			sent := false
			for _, d := range e.W.Net.Sent[mark:] {
				sent = sent || d.Node == 0 && sameAddr(d.Dst, dst)
			}
			if !sent {
				e.Fail("cannot send any more", "after %q, once nothing fails any more, %q sends nothing", last, x.Line)
				return
			}
		}
	}
}
