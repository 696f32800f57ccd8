package harness

import "simmod/simrt"

func init() {
	reg("P03", Scenario{Name: "damaged traffic", Weight: 4, Fn: func(e *Env) { damaged(e, false) }})
	reg("P03", Scenario{Name: "well-formed traffic damaged by the network", Weight: 2, Fn: func(e *Env) { damaged(e, true) }})
	reg("P03", Scenario{Name: "every way of cutting one frame", Weight: 2, Fn: cuts})
}

func damaged(e *Env, bynet bool) {
	s := e.Work
	mtu := []int{1500, 1500, 1280, 9000, 576}[s.Intn(5)]
	e.N[0].MTU = mtu
	e.Disk(0, nil)
	e.someFiles(0)
	if !e.Boot(0) {
		return
	}
	e.netFaults(bynet)
	n := 5 + s.Intn(30)
	if e.Deep {
		n = 5 + s.Intn(150)
	}
	burst := s.Chance(1, 2)
	for k := 0; k < n && !e.ended; k++ {
		from := host(1+s.Intn(3), s.Chance(1, 3), 7540+s.Intn(4))
		if bynet {
			e.send(from, refEncode(frame(s, kinds[s.Intn(5)], mtu-60)))
		} else {
			e.send(from, datagram(s, mtu-60))
		}
		if s.Chance(1, 12) {
			e.Cmd(0, someCmd(s))
		}
		if s.Chance(1, 25) {
			e.N[0].Stall(int64(s.Intn(800)) * Milli)
		}
		if !burst || s.Chance(1, 8) {
			simrt.Sleep(int64(s.Intn(30)) * Milli)
		}
	}
	if e.ended || !e.drain(0) {
		return
	}
	e.judge(0)
}

// cuts sends one frame cut at each of a range of lengths.
func cuts(e *Env) {
	s := e.Work
	e.Disk(0, nil)
	if !e.Boot(0) {
		return
	}
	b := refEncode(frame(s, kinds[s.Intn(5)], 400))
	if s.Chance(1, 3) {
		h := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		h ^= 1 << s.Intn(24)
		b[0], b[1], b[2], b[3] = byte(h>>24), byte(h>>16), byte(h>>8), byte(h)
	}
	from := host(1, s.Chance(1, 3), 7540)
	lo := 0
	hi := len(b)
	if hi > 70 {
		hi = 70
	}
	for k := lo; k <= hi && !e.ended; k++ {
		e.send(from, b[:k])
		if s.Chance(1, 4) {
			simrt.Sleep(2 * Milli)
		}
	}
	e.send(from, b)
	if e.ended || !e.drain(0) {
		return
	}
	e.judge(0)
}
