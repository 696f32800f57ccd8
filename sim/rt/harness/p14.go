package harness

import (
	"fmt"
	"sort"
	"strings"

	"simmod/api"
	"simmod/simrt"
	"simmod/third/termbox"
)

func init() {
	reg("P14", Scenario{Name: "commands one after another", Weight: 3, Fn: func(e *Env) { commands(e, false) }})
	reg("P14", Scenario{Name: "commands at once", Weight: 5, Fn: func(e *Env) { commands(e, true) }})
	reg("P14", Scenario{Name: "malformed commands", Weight: 3, Fn: garbage})
	reg("P14", Scenario{Name: "keyboard", Weight: 2, Fn: keyboard})
	reg("P14", Scenario{Name: "typed commands", Weight: 2, Limit: 3000 * Second, Fn: typing})
}

// operation is something that changes or shows the settings.
type operation struct {
	from, to int64
	set      map[string]string // what it sets
	saw      settings          // what it saw
	what     string
	cmd      *Command
	task     *simrt.Task
	t        api.Tran
}

// explain tells whether a history of operations can be explained by an order
// in which each takes effect at one moment between its start and end.
func explain(init settings, ops []*operation) bool {
	var l []*operation
	for _, o := range ops {
		if o.saw != nil || len(o.set) > 0 {
			l = append(l, o)
		}
	}
	if len(l) > 62 {
		return true
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].from < l[j].from })
	tried := map[string]bool{}
	budget := 200000
	var try func(done uint64, cur settings) bool
	try = func(done uint64, cur settings) bool {
		if done == 1<<uint(len(l))-1 {
			return true
		}
		if budget--; budget < 0 {
			return true
		}
		k := fmt.Sprintf("%x", done)
		for _, x := range keys(cur) {
			k += "," + cur[x]
		}
		if tried[k] {
			return false
		}
		tried[k] = true
		first := never
		for i, o := range l {
			if done>>uint(i)&1 == 0 && o.to < first {
				first = o.to
			}
		}
		// What is seen as it is costs nothing.
		for i, o := range l {
			if done>>uint(i)&1 == 0 && o.saw != nil && o.from <= first && o.saw.differ(cur) == "" {
				return try(done|1<<uint(i), cur)
			}
		}
		for i, o := range l {
			if done>>uint(i)&1 != 0 || o.from > first || o.saw != nil {
				continue
			}
			c := cur.copy()
			for k, v := range o.set {
				c[k] = v
			}
			if try(done|1<<uint(i), c) {
				return true
			}
		}
		return false
	}
	return try(0, init.copy())
}

// carried tells whether the header settings have values frames can carry.
func carried(c api.Cli, tb api.Tables) string {
	m := c.Global
	for _, k := range keys(tb.Flags) {
		v, ok := m[k]
		if !ok {
			continue
		}
		if _, ok := tb.Flags[k].Options[v]; !ok {
			return fmt.Sprintf("%s is %q", k, v)
		}
	}
	if _, ok := tb.Timestamps.Options[c.Timestamp]; !ok {
		return fmt.Sprintf("timestamp is %q", c.Timestamp)
	}
	return ""
}

// tame tells whether a line leaves the node usable for further commands.
func tame(line string) bool {
	f := strings.Fields(line)
	if len(f) == 0 {
		return true
	}
	if f[0] == "exit" || f[0] == "quit" {
		return false
	}
	m := effect(line)
	return len(m["bcount"]) < 3
}

func commands(e *Env, atOnce bool) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	e.someFiles(0)
	if !e.Boot(0) {
		return
	}
	b := e.B[0]
	model := factory()
	if d := settingsOf(b.CliRaw()).differ(model); d != "" {
		e.Fail("initial setting "+d, "%s starts as %q, configured is %q", d, settingsOf(b.CliRaw())[d], model[d])
		return
	}
	if s.Chance(1, 3) {
		e.netFaults(true)
	}
	var trs []*operation
	rounds := 3 + s.Intn(10)
	if e.Deep {
		rounds = 3 + s.Intn(50)
	}
	serial := 0
	for r := 0; r < rounds && !e.ended; r++ {
		k := 1
		if atOnce {
			k = 2 + s.Intn(7)
		}
		// Something else going on.
		switch s.Pick(4, 2, 1, 1) {
		case 1:
			e.Cmd(0, "beacon "+[]string{"v4", "v6", "10.0.1.9", "fd00::109"}[s.Intn(4)])
		case 2:
			for c := s.Intn(5); c >= 0; c-- {
				e.send(host(1+s.Intn(3), s.Chance(1, 3), Port), datagram(s, n.MTU-60))
			}
		case 3:
			e.Cmd(0, queries[s.Intn(len(queries))])
		}
		var ops []*operation
		start := e.W.Now
		for ; k > 0; k-- {
			o := &operation{from: e.W.Now, to: never}
			switch s.Pick(8, 3, 2, 3, 2) {
			case 0:
				o.what = setLine(s)
				for !tame(o.what) {
					o.what = setLine(s)
				}
				if s.Chance(1, 8) {
					o.what = "  " + strings.Replace(o.what, " ", "  ", -1) + " "
				}
				o.set = effect(o.what)
				o.cmd = e.Cmd(0, o.what)
			case 1:
				o.what = badLine(s)
				o.set = effect(o.what)
				o.cmd = e.Cmd(0, o.what)
			case 2:
				o.what = queries[s.Intn(len(queries))]
				o.cmd = e.Cmd(0, o.what)
			case 3: // looks at the settings
				o.what = "look"
				o.task = n.Go("look", func() {
					c := b.Cli()
					o.saw, o.to = settingsOf(c), e.W.Now
				})
			case 4: // a transfer captures the settings
				serial++
				o.what = fmt.Sprintf("transfer %d", serial)
				a := host(1, s.Chance(1, 3), Port)
				f := fmt.Sprintf("t%d", serial)
				o.task = n.Go("transfer", func() {
					t, err := b.NewInitiator(e.Gui(0), "take", &a, f)
					if err != nil || t == nil {
						e.Fail("transfer refused", "a transfer of %s cannot be started: %v", f, err)
						return
					}
					o.to = e.W.Now
					c, ok := t.Cli()
					if !ok {
						e.Fail("transfer without settings", "a transfer has not captured any settings")
						return
					}
					o.t, o.saw = t, settingsOf(c)
				})
			}
			ops = append(ops, o)
			if s.Chance(1, 4) {
				simrt.Sleep(int64(s.Intn(4)) * Milli)
			}
		}
		const prompt = 5 * Second
		if !simrt.Wait(Milli, prompt, func() bool {
			all := true
			for _, o := range ops {
				switch {
				case o.cmd != nil && o.to == never && o.cmd.Done():
					o.to = e.W.Now
				case o.to == never:
					all = false
				}
			}
			return all || e.ended
		}) {
			for _, o := range ops {
				if o.to == never && !e.ended {
					what := strings.Fields(o.what + " -")[0]
					if what == "put" || what == "get" { // these may wait for their peer
						o.to = e.W.Now
						continue
					}
					e.Fail("command not prompt: "+what, "%q is not finished after %d s: %s", o.what, prompt/Second, e.W.BlockedReport(n))
				}
			}
		}
		if e.ended {
			return
		}
		e.Count("commands", int64(len(ops)))
		// The settings all at rest.
		now := settingsOf(b.CliRaw())
		if w := carried(b.CliRaw(), b.Tables()); w != "" {
			e.Fail("setting not sendable", "%s, no frame can carry that", w)
			return
		}
		hist := append(ops, &operation{from: e.W.Now, to: e.W.Now, saw: now, what: "at the end"})
		if !explain(model, hist) {
			var l []string
			for _, o := range hist {
				if len(o.set) > 0 {
					l = append(l, fmt.Sprintf("[%d..%d] %q", o.from-start, o.to-start, o.what))
				} else if o.saw != nil {
					var d []string
					for _, k := range keys(o.saw) {
						if o.saw[k] != model[k] {
							d = append(d, k+"="+o.saw[k])
						}
					}
					l = append(l, fmt.Sprintf("[%d..%d] %s sees %v", o.from-start, o.to-start, o.what, d))
				} else {
					l = append(l, fmt.Sprintf("[%d..%d] %q", o.from-start, o.to-start, o.what))
				}
			}
			sig := "settings not those commanded"
			alone := settings{}
			for _, o := range ops {
				for k := range o.set {
					alone[k] = "?"
				}
			}
			for _, k := range keys(now) {
				if now[k] != model[k] && alone[k] == "" {
					sig = "setting changed without a command: " + k
					break
				}
			}
			e.Fail(sig, "no order of the commands explains what was seen: %s", strings.Join(l, "; "))
			return
		}
		e.Count("histories explained", 1)
		for _, o := range ops {
			if o.t != nil {
				trs = append(trs, o)
				e.Count("transfers", 1)
			}
		}
		for _, o := range trs {
			c, _ := o.t.Cli()
			if d := settingsOf(c).differ(o.saw); d != "" {
				e.Fail("captured setting changed", "%s of an existing transfer was %q and is %q", d, o.saw[d], settingsOf(c)[d])
				return
			}
		}
		model = now
		if !atOnce && s.Chance(1, 4) {
			simrt.Sleep(int64(s.Intn(3000)) * Milli)
		}
	}
	if e.ended || !s.Chance(1, 3) {
		return
	}
	e.cleanNet()
	simrt.Sleep(3 * Second)
	e.probe(0, 1, s.Chance(1, 2))
}

var commandNames = []string{"?", "beacon", "bcount", "cancel", "checksum", "clear", "delete", "descriptor", "files", "freespace", "get", "getdir", "give",
	"help", "history", "home", "interval", "ls", "peers", "put", "putblind", "reqtstamp", "rmtran", "rxwilling", "stream", "take", "timeout", "timestamp",
	"timezone", "tran", "txwilling", "usage", "rm", "rmdir", "prompt", "debug", "getrm", "putrm"}

var words = []string{"?", "off", "on", "yes", "no", "v4", "v6", "10.0.1.9", "fd00::109", "10.0.1.9.", "256.1.1.1", "::", ":::", "1.2.3", "a.b.c.d", "", "0",
	"-1", "1", "18446744073709551616", "9223372036854775807", "f1", "/", "..", "../../etc/passwd", "msg", "err", "packet", "cmd", "request", "metadata",
	"status", "datacounter", "transfer", "d16", "d64", "d128", "crc32", "32", "local", "%d%s%n", "\x00", "\x1b[2J", "é", "\xff\xfe", "|", "10.0.1.1:7542", "1003",
	"224.0.0.108", "ff02::6c", "0.0.0.0", "10.0.1.1%sim0", "fe80::1%sim0", "capable", "utc", "none", "get", "beacon"}

func malformed(s *simrt.Stream) string {
	switch s.Pick(8, 2, 1, 1) {
	case 1:
		return string(s.Bytes(s.Intn(40)))
	case 2:
		return strings.Repeat(commandNames[s.Intn(len(commandNames))]+" ", 1+s.Intn(300))
	case 3:
		c := commandNames[s.Intn(len(commandNames))]
		return c[:s.Intn(len(c)+1)] + string(rune(32+s.Intn(95)))
	}
	l := commandNames[s.Intn(len(commandNames))]
	for k := s.Pick(1, 3, 3, 3, 1); k > 0; k-- {
		l += []string{" ", " ", " ", "\t", "  "}[s.Intn(5)] + words[s.Intn(len(words))]
	}
	return l
}

// garbage gives the node command lines that mean little.
func garbage(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	e.someFiles(0)
	if !e.Boot(0) {
		return
	}
	b := e.B[0]
	cand := map[string]map[string]bool{} // values each setting may have
	f := factory()
	for k, v := range f {
		cand[k] = map[string]bool{v: true}
	}
	k := 5 + s.Intn(40)
	if e.Deep {
		k = 5 + s.Intn(400)
	}
	if s.Chance(1, 4) {
		n.FS.Faults[""] = s.Intn(500)
	}
	if s.Chance(1, 4) {
		e.W.Net.Cfg.DialErr, e.W.Net.Cfg.WriteErr = s.Intn(500), s.Intn(500)
	}
	for ; k > 0 && !e.ended; k-- {
		l := malformed(s)
		if !tame(l) || strings.HasPrefix(strings.TrimSpace(l), "interval") {
			continue
		}
		if m := effect(l); m != nil {
			for x, v := range m {
				cand[x][v] = true
			}
		}
		e.Cmd(0, l)
		e.Count("malformed commands", 1)
		if s.Chance(1, 2) {
			simrt.Sleep(int64(s.Intn(20)) * Milli)
		}
	}
	n.FS.Faults = map[string]int{}
	e.cleanNet()
	if e.ended {
		return
	}
	simrt.Sleep(200 * Second) // beacons end
	if e.ended || !e.Settle(0, 60*Second) {
		if !e.ended {
			e.Fail("no rest", "the node is still busy after the commands: %s", e.W.BlockedReport(n))
		}
		return
	}
	now := settingsOf(b.CliRaw())
	for _, x := range keys(now) {
		if !cand[x][now[x]] {
			e.Fail("setting changed by a rejected command: "+x, "%s is %q, no command set it to that; possible are %v", x, now[x], keys(cand[x]))
			return
		}
	}
	if w := carried(b.CliRaw(), b.Tables()); w != "" {
		e.Fail("setting not sendable", "%s, no frame can carry that", w)
		return
	}
	e.probe(0, 1, s.Chance(1, 2))
}

// press presses a key at the node's terminal.
func (e *Env) press(i int, k termbox.Key) {
	e.N[i].Key(termbox.Event{Type: termbox.EventKey, Key: k})
}

// typed types a text at the node's terminal.
func (e *Env) typed(i int, l string) {
	for _, r := range l {
		if e.slow > 0 {
			simrt.Sleep(e.slow)
		}
		if r == ' ' {
			e.press(i, termbox.KeySpace)
			continue
		}
		e.N[i].Key(termbox.Event{Type: termbox.EventKey, Ch: r})
	}
}

// typing types commands at the prompt, with slips put right and other
// things in between. Every one of them is carried out.
func typing(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	n.TermW, n.TermH = 40+s.Intn(200), 16+s.Intn(80)
	if !e.Boot(0) || !e.Settle(0, 10*Second) {
		return
	}
	model := factory()
	e.slow = 20 * Milli
	k := 1 + s.Intn(20)
	if e.Deep {
		k = 1 + s.Intn(200)
	}
	// The views the cursor can be in, in their order, are found by coming
	// back to the prompt.
	views := 0
	if s.Chance(1, 3) {
		for {
			e.press(0, termbox.KeyCtrlSpace)
			simrt.Sleep(100 * Milli)
			if views++; e.ended || !e.Settle(0, 10*Second) {
				return
			}
			if v := e.Gui(0).CurrentView(); v != nil && v.Name() == "cmd" {
				break
			}
			if views > 8 {
				e.Fail("no way back to the prompt", "switching the window %d times does not get back to the command line", views)
				return
			}
		}
	}
	before, last := "", ""
	if s.Chance(1, 16) { // the operator was busy
		for j := []int{8, 9, 10, 97, 99}[s.Pick(6, 6, 6, 1, 1)]; j > 0 && !e.ended; j-- {
			e.typed(0, "tran")
			e.press(0, termbox.KeyEnter)
			simrt.Sleep(100 * Milli)
			e.Settle(0, 60*Second)
		}
		before = "many commands"
	}
	for ; k > 0 && !e.ended; k-- {
		// Something before it.
		switch s.Pick(5, 1, 1, 1, 1, 1, 1) {
		case 6: // nearly a command
			l := setLine(s)
			l += []string{":", ": x", ":" + l, " :", ":yes"}[s.Intn(5)]
			before = fmt.Sprintf("%q", l)
			e.typed(0, l)
			e.press(0, termbox.KeyEnter)
		case 1:
			before = "an empty line"
			e.press(0, termbox.KeyEnter)
		case 2:
			l := malformed(s)
			if !tame(l) || effect(l) != nil || strings.IndexFunc(l, func(r rune) bool { return r < 32 || r == 127 || r == 0xfffd }) >= 0 || strings.HasPrefix(l, "clear") || strings.HasPrefix(l, "interval") {
				continue
			}
			before = fmt.Sprintf("%q", clip(l, 100))
			e.typed(0, l)
			e.press(0, termbox.KeyEnter)
		case 3:
			l := strings.Repeat("put 10.0.1.9 nothing ", 1+s.Intn(10))
			before = fmt.Sprintf("a line of %d characters", len(l))
			e.typed(0, l)
			e.press(0, termbox.KeyEnter)
		case 4:
			before = "a tour of the windows"
			for x := 0; x < views; x++ {
				e.press(0, termbox.KeyCtrlSpace)
			}
		case 5:
			before = "traffic"
			e.send(host(1+s.Intn(3), s.Chance(1, 3), Port), datagram(s, n.MTU-60))
		}
		simrt.Sleep(Second)
		e.Settle(0, 10*Second)
		l := setLine(s)
		for !tame(l) {
			l = setLine(s)
		}
		if last != "" && s.Chance(1, 4) { // the same again, after another value was set elsewhere
			o := setLine(s)
			for !tame(o) || strings.Fields(o)[0] != strings.Fields(last)[0] {
				o = setLine(s)
			}
			if c := e.Cmd(0, o); !c.Wait(30*Second) || e.ended {
				if !e.ended {
					e.Fail("setting command blocks", "%q does not finish: %s", o, e.W.BlockedReport(n))
				}
				return
			}
			model.apply(o)
			l, before = last, fmt.Sprintf("the same typed, then %q", o)
		} else if s.Chance(1, 4) {
			l = strings.Replace(l, " ", strings.Repeat(" ", 1+s.Intn(80)), -1)
		}
		var slips []int
		for x := s.Pick(4, 2, 1, 1); x > 0; x-- {
			slips = append(slips, s.Intn(len(l)+1))
		}
		sort.Ints(slips)
		at := 0
		for _, x := range slips {
			e.typed(0, l[at:x])
			at = x
			c := 1 + s.Intn(3)
			e.typed(0, "xyz"[:c])
			for ; c > 0; c-- {
				simrt.Sleep(20 * Milli)
				e.press(0, []termbox.Key{termbox.KeyBackspace, termbox.KeyBackspace2, termbox.KeyDelete}[s.Intn(3)])
			}
		}
		e.typed(0, l[at:])
		switch s.Pick(4, 1, 1) {
		case 1:
			// All over again, with more deleting than there is to delete.
			for x := len(l) + s.Intn(4); x > 0; x-- {
				simrt.Sleep(20 * Milli)
				e.press(0, []termbox.Key{termbox.KeyBackspace, termbox.KeyBackspace2, termbox.KeyDelete}[s.Intn(3)])
			}
			e.typed(0, l)
		case 2:
			// Back to a part of it, which is typed over.
			move := func(k termbox.Key, y int) {
				for ; y > 0; y-- {
					simrt.Sleep(20 * Milli)
					e.press(0, k)
				}
			}
			x := s.Intn(len(l) + 1)
			c := s.Intn(x + 1)
			move(termbox.KeyArrowLeft, x)
			e.typed(0, l[len(l)-x:len(l)-x+c])
			x -= c
			if s.Chance(1, 2) {
				move(termbox.KeyArrowRight, s.Intn(x+3))
			}
		}
		e.press(0, termbox.KeyEnter)
		model.apply(l)
		last = l
		simrt.Sleep(Second)
		if e.ended {
			return
		}
		if !e.Settle(0, 60*Second) && !e.ended {
			e.Fail("no rest", "the node is still busy after a typed command: %s", e.W.BlockedReport(n))
			return
		}
		now := settingsOf(e.B[0].CliRaw())
		if d := now.differ(model); d != "" {
			e.Fail("typed command not carried out", "after typing %q (before it: %s) %s is %q, it has to be %q; the command line shows %q", l, before, d, now[d], model[d], e.View(0, "cmd"))
			return
		}
		e.Count("typed commands checked", 1)
	}
}

// keyboard types at the node's terminal.
func keyboard(e *Env) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	if s.Chance(1, 3) {
		n.TermW, n.TermH = 20+s.Intn(200), 12+s.Intn(80)
	}
	if !e.Boot(0) {
		return
	}
	keysOf := []termbox.Key{termbox.KeyArrowUp, termbox.KeyArrowDown, termbox.KeyArrowLeft, termbox.KeyArrowRight, termbox.KeyBackspace, termbox.KeyBackspace2,
		termbox.KeyDelete, termbox.KeyCtrlSpace, termbox.KeyCtrlP, termbox.KeyEnter, termbox.KeyTab, termbox.KeyEsc, termbox.KeyHome, termbox.KeyEnd, termbox.KeyPgup, termbox.KeyInsert, termbox.KeySpace}
	press := func(k termbox.Key) { e.press(0, k) }
	typed := func(l string) { e.typed(0, l) }
	k := 10 + s.Intn(100)
	if e.Deep {
		k = 10 + s.Intn(1000)
	}
	for ; k > 0 && !e.ended; k-- {
		switch s.Pick(6, 2, 1, 1) {
		case 0:
			press(keysOf[s.Intn(len(keysOf))])
		case 1:
			l := []string{queries[s.Intn(len(queries))], setLine(s), someCmd(s)}[s.Intn(3)]
			typed(strings.Replace(strings.Replace(l, "exit", "", -1), "quit", "", -1))
			if s.Chance(2, 3) {
				press(termbox.KeyEnter)
			}
		case 2:
			r := rune(32 + s.Intn(500))
			if r != 'e' && r != 'q' {
				n.Key(termbox.Event{Type: termbox.EventKey, Ch: r})
			}
		case 3:
			if s.Chance(1, 2) {
				e.Cmd(0, someCmd(s))
			} else {
				e.send(host(1+s.Intn(3), s.Chance(1, 3), Port), datagram(s, n.MTU-60))
			}
		}
		e.Count("keys", 1)
		if s.Chance(1, 2) {
			simrt.Sleep(int64(s.Intn(20)) * Milli)
		}
	}
	if e.ended {
		return
	}
	simrt.Sleep(Second)
	e.probe(0, 1, s.Chance(1, 2))
}
