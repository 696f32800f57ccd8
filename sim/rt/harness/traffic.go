package harness

import (
	"fmt"

	"simmod/api"
	"simmod/simrt"
)

// judge compares what the listeners of a node were delivered with what the
// node handed on, and reports what does not agree. All traffic must have been
// worked off. It is used on runs in which the node did not restart.
func (e *Env) judge(i int) {
	n := e.N[i]
	for _, fam := range []bool{false, true} {
		var sock *simrt.Sock
		for _, s := range n.Socks() {
			if s.Group != nil && (s.Group.To4() == nil) == fam {
				sock = s
			}
		}
		if sock == nil {
			e.Fail("listener gone", "node %d has no listener any more (IPv6: %v)", i, fam)
			return
		}
		var obs []Tapped
		for _, t := range e.Taps {
			if t.Node == i && t.Start == n.Starts && (t.F.Addr.IP.To4() == nil) == fam {
				obs = append(obs, t)
				if df := diff(t.F, e.again(t)); df != "" {
					e.Fail("frame changed after being handed on: "+t.F.Kind, "node %d: %s changed afterwards: %s", i, brief(t.F), df)
					return
				}
			}
		}
		if !e.match(i, sock.Delivered, obs, n.MTU) {
			return
		}
	}
}

func (e *Env) match(i int, in []simrt.Dgram, obs []Tapped, mtu int) bool {
	used := make([]bool, len(obs))
	vs := make([]verdict, len(in))
	took := make([]bool, len(in)) // handed on as a frame
	for k, d := range in {
		vs[k] = refDecode(d.Data, mtu)
	}
	// Where each possible observation sits, by a rough key.
	type key struct {
		kind string
		sess uint32
		port int
	}
	idx := map[key][]int{}
	for k, o := range obs {
		x := key{o.F.Kind, o.F.Session, o.F.Addr.Port}
		idx[x] = append(idx[x], k)
	}
	find := func(d simrt.Dgram, f api.Frame) int {
		for _, k := range idx[key{f.Kind, f.Session, d.Src.Port}] {
			if !used[k] && sameAddr(obs[k].F.Addr, d.Src) && diff(f, obs[k].F) == "" {
				return k
			}
		}
		return -1
	}
	for k, d := range in {
		if vs[k].v != vAccept {
			continue
		}
		p := find(d, vs[k].frame)
		if p < 0 {
			e.Count("frames judged", 1)
			e.Fail("frame lost or changed: "+vs[k].frame.Kind, "node %d: %s from %s (%d bytes %s) was not handed on with its values%s", i, brief(vs[k].frame), d.Src.String(), len(d.Data), clip(fmt.Sprintf("%x", d.Data), 120), near(vs[k].frame, d, obs, used))
			return false
		}
		used[p] = true
		took[k] = true
	}
	for k, d := range in {
		if vs[k].v != vEither {
			continue
		}
		if p := find(d, vs[k].frame); p >= 0 {
			used[p] = true
			took[k] = true
		}
	}
	isBad := func(k int, d simrt.Dgram) bool {
		f := obs[k].F
		return !used[k] && f.Kind == "status" && sameAddr(f.Addr, d.Src) && fErr.get(f.Header) == errCode("badpacket")
	}
	for pass := 0; pass < 2; pass++ {
		for k, d := range in {
			v := vs[k]
			refused := v.v == vBad || v.v == vEither && !took[k] && v.refuse == vBad
			if !refused || v.hasSess != (pass == 0) {
				continue
			}
			hit := -1
			for p := range obs {
				if isBad(p, d) && (!v.hasSess || obs[p].F.Session == v.session) {
					hit = p
					break
				}
			}
			if hit < 0 {
				e.Fail("no bad-packet answer: "+v.why, "node %d: %d bytes %s from %s (%s) got no bad-packet status for session %d", i, len(d.Data), clip(fmt.Sprintf("%x", d.Data), 120), d.Src.String(), v.why, v.session)
				return false
			}
			used[hit] = true
			e.Count("bad packets answered", 1)
		}
	}
	// Answers to requests.
	for k, d := range in {
		if !took[k] || vs[k].frame.Kind != "request" {
			continue
		}
		for p := range obs {
			f := obs[p].F
			if !used[p] && f.Kind == "status" && f.Session == vs[k].frame.Session && sameAddr(f.Addr, d.Src) && fErr.get(f.Header) != errCode("badpacket") {
				used[p] = true
				break
			}
		}
	}
	for p, o := range obs {
		if used[p] {
			continue
		}
		why := ""
		for k, d := range in {
			if !took[k] && sameAddr(d.Src, o.F.Addr) && len(d.Data) >= 4 && kindOf(d.Data) == o.F.Kind && vs[k].why != "" {
				why = vs[k].why
			}
		}
		if why != "" {
			e.Fail("malformed frame accepted: "+why, "node %d handed on %s from %s which no well-formed datagram carried (a datagram of this kind was malformed: %s)", i, brief(o.F), o.F.Addr.String(), why)
		} else {
			e.Fail("unexpected "+o.F.Kind+" handed on", "node %d handed on %s for %s, which nothing accounts for", i, brief(o.F), o.F.Addr.String())
		}
		return false
	}
	// Order of arrival.
	p := 0
	for k, d := range in {
		if !took[k] {
			continue
		}
		q := p
		for q < len(obs) && !(sameAddr(obs[q].F.Addr, d.Src) && diff(vs[k].frame, obs[q].F) == "") {
			q++
		}
		if q == len(obs) {
			e.Fail("order of arrival not kept", "node %d: %s from %s was handed on before an earlier datagram of the same socket", i, brief(vs[k].frame), d.Src.String())
			return false
		}
		p = q + 1
	}
	e.Count("datagrams judged", int64(len(in)))
	return true
}

func kindOf(b []byte) string {
	t := int(b[0] & 31)
	if t < len(kinds) {
		return kinds[t]
	}
	return "?"
}

// near describes an observation that resembles a missing frame.
func near(f api.Frame, d simrt.Dgram, obs []Tapped, used []bool) string {
	for k, o := range obs {
		if !used[k] && o.F.Kind == f.Kind && sameAddr(o.F.Addr, d.Src) {
			return "; " + diff(f, o.F)
		}
	}
	for k, o := range obs {
		if !used[k] && diff(f, o.F) == "" {
			return "; handed on for " + o.F.Addr.String()
		}
	}
	return ""
}

// drain lets the network and the node finish what is under way.
func (e *Env) drain(i int) bool {
	if d := e.W.Net.Last - e.W.Now; d > 0 {
		simrt.Sleep(d)
	}
	simrt.Sleep(e.W.Net.Cfg.DelayMax + 10*Milli)
	if !e.Settle(i, 120*Second) {
		if !e.ended {
			e.Fail("does not come to rest", "node %d still works 120 s after the last datagram", i)
		}
		return false
	}
	for _, s := range e.N[i].Socks() {
		if s.Group != nil && s.Pending() > 0 {
			e.Fail("datagrams not read", "node %d does not read its socket: %s", i, e.W.BlockedReport(e.N[i]))
			return false
		}
	}
	return true
}
