package harness

import (
	"errors"
	"fmt"
	"strings"
	"syscall"

	"simmod/shim/os"
	"simmod/simrt"
	"simmod/third/termbox"
)

func init() {
	reg("P19", Scenario{Name: "told to end", Weight: 5, Limit: 3000 * Second, Fn: toldToEnd})
	reg("P19", Scenario{Name: "not told to end", Weight: 3, Limit: 3000 * Second, Fn: notTold})
	reg("P19", Scenario{Name: "receive error", Weight: 2, Limit: 3000 * Second, Fn: deafness})
	reg("P19", Scenario{Name: "terminal trouble", Weight: 2, Limit: 3000 * Second, Fn: terminal})
	reg("P19", Scenario{Name: "failing start", Weight: 2, Limit: 3000 * Second, Fn: failingStart})
}

// burden gives the node something to do and does not wait for it.
func (e *Env) burden(i int, left *int) {
	s := e.Work
	n := e.N[i]
	e.netFaults(s.Chance(1, 2))
	k := s.Intn(30)
	if e.Deep {
		k = s.Intn(300)
	}
	for ; k > 0 && !e.ended; k-- {
		switch s.Pick(6, 3, 1, 1, 1) {
		case 0:
			e.send(host(1+s.Intn(3), s.Chance(1, 3), Port), datagram(s, n.MTU-60))
		case 1:
			if l := someCmd(s); tame(l) {
				e.Cmd(i, l)
			}
		case 2:
			if *left < 3 {
				e.hog(i, int64(s.Intn(2000))*Milli, left)
			}
		case 3:
			if s.Chance(1, 3) {
				n.Stall(int64(1+s.Intn(2000)) * Milli)
			}
		case 4:
			e.Cmd(i, fmt.Sprintf("beacon v4 v6 10.0.1.%d", 1+s.Intn(9)))
		}
		if s.Chance(1, 2) {
			simrt.Sleep(int64(s.Intn(50)) * Milli)
		}
	}
}

// atPrompt types a text and tells whether the command line shows it.
func (e *Env) atPrompt(i int, l string) bool {
	e.slow = 20 * Milli
	e.typed(i, l)
	return simrt.Wait(20*Milli, 30*Second, func() bool {
		if e.ended {
			return true
		}
		v := e.View(i, "cmd")
		for k := len(v) - 1; k >= 0; k-- {
			if strings.Trim(v[k], " \x00") != "" {
				return strings.HasSuffix(strings.TrimRight(strings.ReplaceAll(v[k], "\x00", " "), " "), ":"+strings.TrimRight(l, " "))
			}
		}
		return false
	}) && !e.ended
}

// gone waits for the end of the node's process.
func (e *Env) gone(i int, why string) bool {
	n := e.N[i]
	simrt.Wait(20*Milli, 40*Second, func() bool { return e.ended || !n.Up })
	if e.ended {
		return false
	}
	if n.Up {
		e.Fail("does not end", "node %d still runs 40 s after %s: %s", i, why, e.W.BlockedReport(n))
		return false
	}
	if strings.HasPrefix(n.Reason, "panic") {
		e.Fail("panics instead of ending", "node %d panicked after %s: %s\n%s", i, why, n.Reason, clip(n.Stack, 2000))
		return false
	}
	return true
}

// afterwards starts the node once more: it serves.
func (e *Env) afterwards(i int) {
	s := e.Work
	e.cleanNet()
	e.N[i].Expect = false
	simrt.Sleep(int64(s.Intn(2000)) * Milli)
	if e.Boot(i) {
		e.probe(i, 30, s.Chance(1, 2))
	}
}

func toldToEnd(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	e.someFiles(0)
	rounds := 1 + s.Intn(2)
	if e.Deep {
		rounds = 1 + s.Intn(8)
	}
	for ; rounds > 0 && !e.ended; rounds-- {
		n.Expect = false
		if !e.Boot(0) || !e.Settle(0, 10*Second) {
			return
		}
		left := 0
		if s.Chance(1, 2) {
			n.FS.Faults = map[string]int{"": s.Intn(300)}
		}
		e.burden(0, &left)
		if e.ended {
			return
		}
		way := []string{"exit", "quit", "exit 0", "exit 1", "quit 0", "quit 1", "ctrl-c"}[s.Intn(7)]
		code, key := -1, termbox.KeyCtrlC
		if way != "ctrl-c" {
			l := way
			if f := strings.Fields(way); len(f) == 2 {
				code = int(f[1][0] - '0')
				if s.Chance(1, 3) {
					l = f[0] + strings.Repeat(" ", 1+s.Intn(4)) + f[1]
				}
			}
			if s.Chance(1, 4) {
				l = strings.Repeat(" ", s.Intn(3)) + l + strings.Repeat(" ", s.Intn(3))
			}
			if !e.atPrompt(0, l) {
				if e.ended {
					return
				}
				// Typed faster than it is displayed: something else.
				e.Count("command lines mixed up", 1)
				way = "ctrl-c"
				code = -1
			} else {
				key = termbox.KeyEnter
				way = fmt.Sprintf("%q was entered", l)
			}
		}
		if s.Chance(1, 3) {
			for k := s.Intn(6); k > 0; k-- {
				e.send(host(1+s.Intn(3), s.Chance(1, 3), Port), datagram(s, n.MTU-60))
			}
			e.Cmd(0, "beacon v4 v6")
		}
		n.Expect = true
		e.press(0, key)
		if !e.gone(0, way) {
			return
		}
		if code >= 0 && n.Code != code {
			e.Fail("wrong exit level", "the node ended with exit level %d after %s", n.Code, way)
			return
		}
		e.Count("ends", 1)
		n.FS.Faults = nil
		e.cleanNet()
		simrt.Sleep(int64(s.Intn(3000)) * Milli)
	}
	e.afterwards(0)
}

// notEnds are lines close to the ones that end the node. None of them does.
var notEnds = []string{"exit 2", "exit -1", "exit now", "quit now", "exit 0 0", "exit 1 0", "quit 1 1", "exit ?", "quit ?", "exit0", "exit1", "exi", "qui", "Exit", "QUIT", "exitt",
	"quit00", "exit 00", "exit 10", "exit 01", "help exit", "usage exit", "usage quit", "help quit", "0", "1 exit", "? exit", "get exit quit", "history exit", "timeout exit 0", "exit exit",
	"exit.", "exit;", "quit,", "bye", "exit x y z", "tran exit", "clear exit", "stop", "q", "e"}

func notTold(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	e.someFiles(0)
	if !e.Boot(0) || !e.Settle(0, 10*Second) {
		return
	}
	left := 0
	k := 1 + s.Intn(12)
	if e.Deep {
		k = 1 + s.Intn(60)
	}
	others := []termbox.Key{termbox.KeyEsc, termbox.KeyCtrlD, termbox.KeyCtrlZ, termbox.KeyCtrlQ, termbox.KeyCtrlX, termbox.KeyCtrlA, termbox.KeyCtrlW, termbox.KeyCtrlS, termbox.KeyF1,
		termbox.KeyF10, termbox.KeyTab, termbox.KeyInsert, termbox.KeyPgdn, termbox.KeyPgup, termbox.KeyHome, termbox.KeyEnd, termbox.KeyCtrlP, termbox.KeyCtrlBackslash}
	for ; k > 0 && !e.ended; k-- {
		switch s.Pick(4, 2, 2) {
		case 0:
			l := notEnds[s.Intn(len(notEnds))]
			if !e.atPrompt(0, l) {
				// Typed faster than it is displayed: something else.
				e.Count("command lines mixed up", 1)
				k = 0
				break
			}
			e.press(0, termbox.KeyEnter)
			simrt.Sleep(300 * Milli)
			e.Count("lines that do not end the node", 1)
		case 1:
			e.press(0, others[s.Intn(len(others))])
			simrt.Sleep(int64(s.Intn(100)) * Milli)
		case 2:
			// From elsewhere than the keyboard, as a line of a script would.
			e.Cmd(0, notEnds[s.Intn(len(notEnds))])
		}
		if s.Chance(1, 6) {
			e.burden(0, &left)
		}
	}
	e.cleanNet()
	simrt.Wait(20*Milli, 60*Second, func() bool { return e.ended || left == 0 })
	if e.ended || !n.Up {
		return
	}
	e.probe(0, 31, s.Chance(1, 2))
}

// deafness makes a listener fail to receive.
func deafness(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	if !e.Boot(0) {
		return
	}
	left := 0
	if s.Chance(1, 2) {
		e.burden(0, &left)
	}
	if e.ended {
		return
	}
	v6 := s.Chance(1, 2)
	n.Expect = true
	hit := false
	for _, k := range n.Socks() {
		if k.Group != nil && (k.Group.To4() == nil) == v6 {
			k.FailRead([]syscall.Errno{syscall.ENETDOWN, syscall.ENOBUFS, syscall.ENOMEM, syscall.EIO, syscall.EBADF, syscall.EINTR}[e.Fault.Intn(6)])
			hit = true
		}
	}
	if !hit {
		return
	}
	for k := s.Intn(4); k > 0; k-- {
		e.send(host(1+s.Intn(3), s.Chance(1, 2), Port), datagram(s, n.MTU-60))
		e.Cmd(0, someCmd(s))
	}
	simrt.Wait(20*Milli, 20*Second, func() bool { return e.ended || !n.Up })
	if e.ended {
		return
	}
	e.cleanNet()
	if n.Up {
		// It has to hear again.
		n.Expect = false
		e.Count("failed reads outlived", 1)
		if e.probe(0, 32, v6) {
			e.probe(0, 33, !v6)
		}
		return
	}
	if !e.gone(0, "a listener failed") {
		return
	}
	e.Count("ends on a failed listener", 1)
	e.afterwards(0)
}

// terminal gives the node a terminal that fails or changes its size.
func terminal(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	size := func() {
		n.TermW, n.TermH = 1+s.Intn(200), 1+s.Intn(80)
		if s.Chance(1, 3) {
			n.TermW = s.Intn(30)
		}
		if s.Chance(1, 3) {
			n.TermH = s.Intn(20)
		}
	}
	if s.Chance(1, 3) {
		size()
	}
	if !e.Boot(0) {
		return
	}
	left := 0
	for k := 1 + s.Intn(8); k > 0 && !e.ended; k-- {
		size()
		e.W.Injected("terminal resized")
		n.Key(termbox.Event{Type: termbox.EventResize, Width: n.TermW, Height: n.TermH})
		if s.Chance(1, 2) {
			e.typed(0, []string{"peers", "help", "usage", "tran", "history", "descriptor d32"}[s.Intn(6)])
			e.press(0, termbox.KeyEnter)
		}
		if s.Chance(1, 3) {
			e.press(0, []termbox.Key{termbox.KeyCtrlSpace, termbox.KeyArrowDown, termbox.KeyArrowUp, termbox.KeyArrowLeft, termbox.KeyArrowRight, termbox.KeyBackspace, termbox.KeyCtrlP}[s.Intn(7)])
		}
		if s.Chance(1, 6) {
			e.burden(0, &left)
		}
		simrt.Sleep(int64(s.Intn(400)) * Milli)
	}
	e.cleanNet()
	simrt.Wait(20*Milli, 60*Second, func() bool { return e.ended || left == 0 })
	if e.ended || !e.probe(0, 34, s.Chance(1, 2)) {
		return
	}
	e.Count("sizes outlived", 1)
	if s.Chance(1, 2) {
		return
	}
	n.Expect = true
	e.W.Injected("terminal error")
	n.Key(termbox.Event{Type: termbox.EventError, Err: errors.New("read /dev/tty: input/output error")})
	simrt.Wait(20*Milli, 20*Second, func() bool { return e.ended || !n.Up })
	if e.ended {
		return
	}
	if n.Up {
		n.Expect = false
		if e.probe(0, 35, s.Chance(1, 2)) {
			n.Expect = true
			e.press(0, termbox.KeyCtrlC)
			if e.gone(0, "ctrl-c") {
				e.afterwards(0)
			}
		}
		return
	}
	if !e.gone(0, "an error of the terminal") {
		return
	}
	n.TermW, n.TermH = 80, 24
	e.afterwards(0)
}

// failingStart lets the start of the node fail before it serves.
func failingStart(e *Env) {
	n := e.N[0]
	e.Disk(0, nil)
	n.Expect = true
	what, must := "", true
	switch e.Fault.Intn(5) {
	case 0:
		what = "the terminal cannot be opened"
		n.TermErr = true
	case 1:
		what = "the interfaces cannot be listed"
		n.IfErr = true
		must = false
	case 2:
		what = "socket options cannot be set"
		n.OptErr = true
		must = false
	case 3:
		what = "the wrong number of arguments"
		os.Args = [][]string{{"saratoga"}, {"saratoga", "/etc/saratoga.json"}, {"saratoga", "/etc/saratoga.json", "sim0", "sim0"}, {"saratoga", "/etc/saratoga.json", "sim0", "sim0", "sim0"}, {"saratoga", "sim0"}}[e.Fault.Intn(5)]
	case 4:
		what = "no such interface"
		os.Args = []string{"saratoga", "/etc/saratoga.json", []string{"sim1", "", "eth0", "sim", "sim0 ", "/etc/saratoga.json"}[e.Fault.Intn(6)]}
	}
	e.W.Injected("start fails")
	n.Start()
	simrt.Wait(20*Milli, 30*Second, func() bool { return e.ended || !n.Up || e.ready(0) })
	if e.ended {
		return
	}
	if n.Up && e.ready(0) {
		if must {
			e.Fail("serves after a failed start", "the node serves although %s", what)
			return
		}
		n.Expect = false
		if !e.probe(0, 36, false) || !e.probe(0, 37, true) {
			return
		}
		n.Crash()
	} else if !e.gone(0, what) {
		return
	}
	e.Count("failed starts", 1)
	n.TermErr, n.IfErr, n.OptErr = false, false, false
	os.Args = []string{"saratoga", "/etc/saratoga.json", "sim0"}
	e.afterwards(0)
}
