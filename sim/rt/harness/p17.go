package harness

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"simmod/simrt"
	"simmod/third/gocui"
	"simmod/third/termbox"
)

func init() {
	reg("P17", Scenario{Name: "many reporters", Weight: 4, Fn: func(e *Env) { reporters(e, false) }})
	reg("P17", Scenario{Name: "reporters and clearing", Weight: 2, Fn: func(e *Env) { reporters(e, true) }})
	reg("P17", Scenario{Name: "reports on traffic", Weight: 3, Fn: reported})
}

var windows = []string{"msg", "err", "packet", "cmd"}

// message is something reported to the operator.
type message struct {
	id       int
	win      string
	ln       bool
	colour   string
	format   string
	args     []any
	body     string // what has to show
	from, to int64  // when it was reported
	settled  int64  // when it was known to show
	done     bool
	by       string
	again    int            // how often the very same is reported after that
	like     *regexp.Regexp // of a body with characters that are not text
}

// wild are characters which are no text: they may show as others, or not at
// all, but what is around them has to show.
var wild = []string{"\x1b", "\x1b[31m", "\x1b[", "\x1b]0;x", "\r", "\x00", "\x07", "\b", "\x7f", "\v", "\f", "\t", "\u0085", "\u009b", "\u202e", "\u200b", "\xff", "\xc3"}

// find is where a message shows first in a text.
func (m *message) find(t string) (from, to int) {
	if m.like != nil {
		if x := m.like.FindStringIndex(t); x != nil {
			return x[0], x[1]
		}
		return -1, -1
	}
	k := strings.Index(t, m.body)
	return k, k + len(m.body)
}

// count is how often a message shows in a text.
func (m *message) count(t string) (n int) {
	if m.like == nil {
		return strings.Count(t, m.body)
	}
	return len(m.like.FindAllStringIndex(t, -1))
}

func drawMessage(s *simrt.Stream, id int, max int) *message {
	m := &message{id: id, win: windows[s.Pick(4, 3, 3, 1)], ln: s.Chance(3, 5)}
	cols := []string{"red_black", "green_black", "", "none", "white_bred", "magenta", "plaid", "red_plaid", "a_b_c", "iwhite_bcyan", "yellow_black"}
	m.colour = cols[s.Intn(len(cols))]
	strange := s.Chance(1, 8)
	word := func() string {
		if strange && s.Chance(1, 2) {
			return "a" + wild[s.Intn(len(wild))] + "b"
		}
		n := 1 + s.Intn(12)
		if s.Chance(1, 12) {
			n = s.Intn(max)
			if s.Chance(1, 20) { // a report of many holes, say
				n = 2000 + s.Intn(8000)
			}
		}
		var b strings.Builder
		for k := 0; k < n; k++ {
			switch s.Pick(12, 2, 1, 1) {
			case 0:
				b.WriteByte(byte('a' + s.Intn(26)))
			case 1:
				b.WriteByte(' ')
			case 2:
				b.WriteRune([]rune{'%', '[', ']', ';', '|', 'é', '世', 'ß', '\'', '"', '\\'}[s.Intn(11)])
			case 3:
				b.WriteByte(byte('0' + s.Intn(10)))
			}
		}
		return b.String()
	}
	open, end := fmt.Sprintf("<%d:", id), fmt.Sprintf(":%d>", id)
	var args []any
	f := "%s"
	if s.Chance(1, 6) { // indented
		open = strings.Repeat(" ", 1+s.Intn(8)) + open
	}
	args = append(args, open)
	for k := s.Intn(5); k > 0; k-- {
		switch s.Intn(5) {
		case 0:
			args = append(args, s.Intn(100000))
			f += "%d"
		case 1:
			args = append(args, word())
			f += "%-7s"
		case 2:
			args = append(args, word()+"\n"+word())
			f += " %s"
		case 3:
			args = append(args, s.Chance(1, 2))
			f += "%v|"
		case 4:
			args = append(args, word())
			f += "100%% %s"
		}
	}
	args = append(args, end)
	f += "%s"
	m.args = args
	if m.ln {
		m.body = fmt.Sprint(args...)
	} else {
		if s.Chance(1, 2) {
			f += "\n"
		}
		m.format = f
		m.body = strings.TrimSuffix(fmt.Sprintf(f, args...), "\n")
	}
	if strange {
		var x strings.Builder
		gap := false
		for _, r := range m.body {
			if r == '\n' || r != utf8.RuneError && unicode.IsGraphic(r) {
				x.WriteString(regexp.QuoteMeta(string(r)))
				gap = false
			} else if !gap {
				x.WriteString(`(?s:.{0,12}?)`)
				gap = true
			}
		}
		m.like = regexp.MustCompile(x.String())
	}
	return m
}

func (m *message) print(e *Env, i int, g *gocui.Gui) {
	m.from = e.W.Now
	for k := 0; k <= m.again; k++ {
		e.B[i].Print(g, m.win, m.ln, m.colour, m.format, m.args...)
	}
	m.to = e.W.Now
	m.done = true
}

// text is the contents of a window.
func (e *Env) text(i int, win string) string { return strings.Join(e.View(i, win), "\n") + "\n" }

// shows checks a message in the contents of its window.
func (e *Env) shows(m *message, text map[string]string, mayLack bool) bool {
	t, x := text[m.win], m.again+1
	open, end := fmt.Sprintf("<%d:", m.id), fmt.Sprintf(":%d>", m.id)
	n, no, ne := m.count(t), strings.Count(t, open), strings.Count(t, end)
	what := fmt.Sprintf("message %d for window %s (%s, colour %q, reported by %s at %.3f s: %q)", m.id, m.win, map[bool]string{true: "as a line", false: "formatted"}[m.ln], m.colour, m.by, float64(m.from)/1e9, clip(m.body, 200))
	switch {
	case n == x && no == x && ne == x:
	case mayLack && n < x && no == n && ne == n:
		e.Count("messages cleared", int64(x-n))
	case n > x || no > x && n > 0:
		e.Fail("reported more than once", "%s was reported %d times and shows %d times", what, x, no)
		return false
	case n > 0 && no == n && ne == n:
		e.Fail("message lost", "%s was reported %d times and shows %d times", what, x, n)
		return false
	case no == 0 && ne == 0 && n == 0:
		for _, w := range windows {
			if strings.Contains(text[w], open) {
				e.Fail("in the wrong window", "%s shows in window %s", what, w)
				return false
			}
		}
		e.Fail("message lost", "%s does not show", what)
		return false
	default:
		k := strings.Index(t, open)
		if k < 0 {
			k = strings.Index(t, end)
		}
		e.Fail("message broken", "%s shows as %q", what, clip(t[k:], 300))
		return false
	}
	for m.ln && n > 0 {
		_, to := m.find(t)
		t = t[to:]
		if t[0] != '\n' {
			e.Fail("line runs on", "%s is followed by %q on its line", what, clip(t, 60))
			return false
		}
		n--
	}
	for _, w := range windows {
		if w != m.win && strings.Contains(text[w], open) {
			e.Fail("in the wrong window", "%s shows in window %s, too", what, w)
			return false
		}
	}
	e.Count("messages checked", 1)
	return true
}

// hog keeps the user interface of a node busy for a while; left
// counts those which still do.
func (e *Env) hog(i int, d int64, left *int) {
	n, g := e.N[i], e.Gui(i)
	*left++
	e.W.Injected("slow user interface")
	n.Go("hog", func() {
		g.Update(func(*gocui.Gui) error { simrt.Sleep(d); *left--; return nil })
	})
}

// shown waits until the user interface has worked off everything.
func (e *Env) shown(i int, left *int) bool {
	simrt.Wait(10*Milli, 120*Second, func() bool { return e.ended || *left == 0 })
	return !e.ended && e.Settle(i, 120*Second)
}

// onScreen checks that what was written to the windows is what they display.
func (e *Env) onScreen(i int) bool {
	for _, w := range windows {
		v, err := e.Gui(i).View(w)
		if err != nil {
			e.Fail("no window", "window %s: %v", w, err)
			return false
		}
		a, b := strings.ReplaceAll(v.Buffer(), "\n", ""), strings.ReplaceAll(v.ViewBuffer(), "\n", "")
		if a != b {
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			e.Fail("not displayed", "window %s holds %q but displays %q", w, clip(a[k:], 200), clip(b[k:], 200))
			return false
		}
	}
	return true
}

func reporters(e *Env, clearing bool) {
	hogs := 0
	s, n := e.Work, e.N[0]
	e.Disk(0, nil)
	if s.Chance(1, 4) {
		n.TermW, n.TermH = 20+s.Intn(200), 12+s.Intn(80)
	}
	if !e.Boot(0) {
		return
	}
	g := e.Gui(0)
	nt, nm, size := 1+s.Intn(8), 1+s.Intn(8), 300
	if e.Deep {
		nt, nm, size = 1+s.Intn(40), 1+s.Intn(20), 3000
	}
	var all []*message
	var tasks []*simrt.Task
	id := 0
	for k := 0; k < nt; k++ {
		var l []*message
		var naps []int64
		for j := 0; j < nm; j++ {
			id++
			m := drawMessage(s, 1000+id, size)
			if s.Chance(1, 6) {
				m.again = 1 + s.Intn(3)
			}
			l = append(l, m)
			all = append(all, m)
			nap := int64(0)
			if s.Chance(1, 4) {
				nap = int64(s.Intn(100)) * Milli
			}
			naps = append(naps, nap)
		}
		how := s.Pick(6, 2, 1)
		name := fmt.Sprintf("reporter %d", k)
		body := func() {
			for j, m := range l {
				simrt.Sleep(naps[j])
				m.by = name
				m.print(e, 0, g)
			}
		}
		switch how {
		case 0:
		case 1: // on the task of the user interface
			in := body
			name = fmt.Sprintf("the user interface for %d", k)
			body = func() {
				g.Update(func(*gocui.Gui) error {
					for j := range naps {
						naps[j] = 0
					}
					in()
					return nil
				})
			}
		case 2: // each message on a task of its own
			body = func() {
				for _, m := range l {
					m := m
					m.by = name
					n.Go(name, func() { m.print(e, 0, g) })
				}
			}
		}
		tasks = append(tasks, n.Go(name, body))
	}
	type clear struct {
		win      string
		from, to int64
		cmd      *Command
	}
	var clears []*clear
	tick := func() {
		if !e.shown(0, &hogs) {
			return
		}
		for _, m := range all {
			if m.done && m.settled == 0 {
				m.settled = e.W.Now
			}
		}
	}
	for k := s.Intn(12); k > 0 && !e.ended; k-- {
		switch e.Fault.Pick(3, 2, 2, 2, 1) {
		case 0:
			simrt.Sleep(int64(e.Fault.Intn(60)) * Milli)
		case 1:
			n.Stall(int64(e.Fault.Intn(500)) * Milli)
		case 2: // the user interface is slow
			d := int64(e.Fault.Intn(3000)) * Milli
			e.hog(0, d, &hogs)
		case 3:
			for j := 0; j < 1+s.Intn(4); j++ {
				n.Key(termbox.Event{Type: termbox.EventKey, Key: []termbox.Key{termbox.KeyCtrlP, termbox.KeyCtrlSpace, termbox.KeyArrowUp, termbox.KeyArrowDown, termbox.KeyArrowLeft, termbox.KeyArrowRight}[s.Intn(6)]})
			}
		case 4:
			e.Cmd(0, []string{"peers", "tran", "?", "history", "timeout", "files", "ls", "help"}[s.Intn(8)])
		}
		if clearing && s.Chance(2, 3) {
			if s.Chance(1, 2) {
				tick()
			}
			w := windows[s.Intn(3)]
			line := "clear " + w
			ws := []string{w}
			switch s.Intn(4) {
			case 0:
				line, ws = "clear", windows[:3]
			case 1:
				line, ws = "clear err msg", []string{"err", "msg"}
			}
			c := e.Cmd(0, line)
			for _, w := range ws {
				clears = append(clears, &clear{win: w, from: e.W.Now, cmd: c})
			}
			c.Wait(60 * Second)
			ok := e.shown(0, &hogs)
			for _, x := range clears {
				if ok && x.cmd == c {
					x.to = e.W.Now
				}
			}
		}
	}
	if e.ended {
		return
	}
	ok := simrt.Wait(10*Milli, 120*Second, func() bool {
		if e.ended {
			return true
		}
		for _, t := range tasks {
			if !t.Done() {
				return false
			}
		}
		for _, m := range all {
			if !m.done {
				return false
			}
		}
		return true
	})
	if e.ended {
		return
	}
	if !ok {
		e.Fail("reporting blocks", "tasks reporting to the operator do not get on: %s", e.W.BlockedReport(n))
		return
	}
	if !e.shown(0, &hogs) {
		if !e.ended {
			e.Fail("does not come to rest", "the node is still busy 120 s after the last report: %s", e.W.BlockedReport(n))
		}
		return
	}
	text := map[string]string{}
	for _, w := range windows {
		text[w] = e.text(0, w)
	}
	for _, m := range all {
		may := false
		gone := false
		for _, c := range clears {
			if c.win != m.win {
				continue
			}
			if c.to == 0 || m.from <= c.to {
				may = true
			}
			if m.settled > 0 && m.settled < c.from && c.to > 0 {
				gone = true
			}
		}
		if gone {
			if strings.Contains(text[m.win], fmt.Sprintf("<%d:", m.id)) {
				e.Fail("not cleared", "message %d still shows in window %s after it was cleared", m.id, m.win)
				return
			}
			e.Count("messages cleared", 1)
			continue
		}
		if !e.shows(m, text, may) {
			return
		}
	}
	if !e.onScreen(0) {
		return
	}
	// What the node said when it started is there, too.
	if len(clears) == 0 {
		for _, w := range []string{"Saratoga Directory is " + Sardir, "Available space is ", "Saratoga IPv6 Multicast Listener started on ", "Saratoga IPv4 Multicast Listener started on "} {
			if c := strings.Count(text["msg"], w); c != 1 {
				e.Fail("message of the start", "%q shows %d times", w, c)
				return
			}
		}
	}
	c := e.Cmd(0, "peers")
	if !c.Wait(60*Second) && !e.ended {
		e.Fail("user interface blocked", "the user interface does not take commands any more: %s", e.W.BlockedReport(n))
	}
}

// reported sends datagrams, each of which makes the node report something.
func reported(e *Env) {
	s, n := e.Work, e.N[0]
	hogs := 0
	e.Disk(0, nil)
	if !e.Boot(0) {
		return
	}
	e.W.Net.Cfg.DelayMax = int64(s.Intn(30)) * Milli
	num := 2 + s.Intn(15)
	if e.Deep {
		num = 2 + s.Intn(100)
	}
	type item struct {
		win, text, what string
	}
	var want []item
	for k := 0; k < num && !e.ended; k++ {
		from := host(1+k, s.Chance(1, 3), 30000+k)
		addr := from.String()
		var b []byte
		switch s.Pick(3, 2, 1, 5) {
		case 0:
			eid := fmt.Sprintf("eid[%05d]", k)
			b = frameBeacon(eid)
			want = append(want, item{"packet", "EID:" + eid + "\n", "beacon"}, item{"msg", addr + "\n", "new peer"})
		case 1:
			f := fmt.Sprintf("file[%05d]", k)
			b = frameReq(uint32(1000+k), uint32(s.Intn(7)), f)
			want = append(want, item{"packet", "filename:" + f + "\n", "request"})
		case 2:
			b = s.Bytes(s.Intn(8))
			want = append(want, item{"err", addr, "short datagram"})
		case 3:
			b = mangle(s, refEncode(frame(s, kinds[s.Intn(5)], n.MTU-60)))
			v := refDecode(b, n.MTU)
			if v.v == vAccept || v.v == vEither {
				continue
			}
			want = append(want, item{"err", addr, "bad datagram (" + v.why + ")"})
		}
		e.send(from, b)
		if s.Chance(1, 3) {
			simrt.Sleep(int64(s.Intn(40)) * Milli)
		}
		if e.Fault.Chance(1, 6) {
			n.Stall(int64(e.Fault.Intn(900)) * Milli)
		}
		if e.Fault.Chance(1, 6) {
			d := int64(e.Fault.Intn(2000)) * Milli
			e.hog(0, d, &hogs)
		}
		if s.Chance(1, 6) {
			n.Key(termbox.Event{Type: termbox.EventKey, Key: []termbox.Key{termbox.KeyCtrlP, termbox.KeyCtrlSpace}[s.Intn(2)]})
		}
	}
	if e.ended || !e.drain(0) || !e.shown(0, &hogs) {
		return
	}
	var heard []simrt.Dgram
	for _, k := range n.Socks() {
		heard = append(heard, k.Delivered...)
	}
	text := map[string]string{}
	for _, w := range windows {
		text[w] = e.text(0, w)
	}
	if !e.onScreen(0) {
		return
	}
	for _, x := range want {
		if c := strings.Count(text[x.win], x.text); c != 1 {
			e.Fail("report on a datagram: "+strings.SplitN(x.what, " (", 2)[0], "%s: %q shows %d times in window %s (%d datagrams arrived)", x.what, x.text, c, x.win, len(heard))
			return
		}
		e.Count("reports checked", 1)
	}
}
