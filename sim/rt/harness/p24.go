package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"simmod/simrt"
	"simmod/third/termbox"
)

func init() {
	reg("P24", Scenario{Name: "reports and typing on the screen", Weight: 4, Limit: 3000 * Second, Fn: func(e *Env) { onTerminal(e, false) }})
	reg("P24", Scenario{Name: "the terminal changes its size", Weight: 4, Limit: 3000 * Second, Fn: func(e *Env) { onTerminal(e, true) }})
}

// operatorAt is what somebody at the terminal knows.
type operatorAt struct {
	e       *Env
	packet  bool   // the packet trace was asked for
	typed   string // at the prompt, since the last command
	typedAt bool   // the cursor is where typing left it
	fresh   bool   // a command was just given
	id      int
	hogs    int
}

type rect struct{ x0, y0, x1, y1 int }

func (r rect) width() int  { return r.x1 - r.x0 - 1 }
func (r rect) height() int { return r.y1 - r.y0 - 1 }
func (r rect) has(x, y int) bool {
	return x >= r.x0 && x <= r.x1 && y >= r.y0 && y <= r.y1
}
func (r rect) meets(o rect) bool {
	return r.x0 <= o.x1 && o.x0 <= r.x1 && r.y0 <= o.y1 && o.y0 <= r.y1
}

// wrapped is a text as a window of a width shows it.
func wrapped(lines []string, w int) [][]rune {
	var o [][]rune
	for _, l := range lines {
		r := []rune(l)
		if len(r) < w {
			o = append(o, r)
			continue
		}
		for n := 0; n <= len(r); n += w {
			m := n + w
			if m > len(r) {
				m = len(r)
			}
			o = append(o, r[n:m])
		}
	}
	return o
}

// interior is what the terminal shows inside a window; what lies under
// another window is zero.
func interior(p *simrt.Picture, r rect, over ...rect) [][]rune {
	var o [][]rune
	for y := r.y0 + 1; y < r.y1; y++ {
		var l []rune
		for x := r.x0 + 1; x < r.x1; x++ {
			c := p.At(x, y)
			if c == 0 {
				c = ' '
			}
			for _, v := range over {
				if v.has(x, y) {
					c = 0
				}
			}
			l = append(l, c)
		}
		o = append(o, l)
	}
	return o
}

func rowIs(row, want []rune) bool {
	for i, c := range row {
		w := ' '
		if i < len(want) {
			w = want[i]
		}
		if w < ' ' { // as termbox does
			w = ' '
		}
		if c != 0 && c != w {
			return false
		}
	}
	return true
}

func noRows(rows [][]rune) bool {
	for _, r := range rows {
		if !rowIs(r, nil) {
			return false
		}
	}
	return true
}

func picture(rows [][]rune) string {
	var l []string
	for _, r := range rows {
		l = append(l, strings.TrimRight(strings.Map(func(c rune) rune {
			if c == 0 {
				return '#'
			}
			return c
		}, string(r)), " "))
	}
	return fmt.Sprintf("%q", l)
}

// showsFrom tells whether the rows of a window are those of its text from
// some row on, nothing being left out at the end unless the window is full.
func showsFrom(rows, all [][]rune, from int) bool {
	for y, r := range rows {
		var want []rune
		if from+y < len(all) {
			want = all[from+y]
		}
		if !rowIs(r, want) {
			return false
		}
	}
	return true
}

// drop takes blank rows out of a text: how much room they get is of no
// importance.
func drop(rows [][]rune) [][]rune {
	var o [][]rune
	for _, r := range rows {
		if !rowIs(r, nil) {
			o = append(o, r)
		}
	}
	return o
}

// look checks what the terminal shows.
func (o *operatorAt) look() bool {
	e := o.e
	n, g := e.N[0], e.Gui(0)
	if e.ended || g == nil {
		return false
	}
	if !e.shown(0, &o.hogs) {
		if !e.ended {
			e.Fail("no rest", "the node does not come to rest: %s", e.W.BlockedReport(n))
		}
		return false
	}
	p := &n.Screen.Shown
	if p.W != n.TermW || p.H != n.TermH {
		e.Fail("size not noticed", "the terminal is %d x %d, shown is a picture of %d x %d", n.TermW, n.TermH, p.W, p.H)
		return false
	}
	if p.W < 16 || p.H < 12 {
		e.Count("terminals too small", 1)
		return true
	}
	for i, c := range p.Cells {
		if unicode.IsControl(c) {
			e.Fail("control character on the screen", "the terminal is sent the control character %q at %d,%d, after %q", c, i%p.W, i/p.W, string(p.Cells[i-i%p.W:i]))
			return false
		}
	}
	at := map[string]rect{}
	for _, w := range windows {
		x0, y0, x1, y1, err := g.ViewPosition(w)
		if err != nil {
			e.Fail("no window", "window %s: %v", w, err)
			return false
		}
		r := rect{x0, y0, x1, y1}
		if x0 < 0 || y0 < 0 || x1 >= p.W || y1 >= p.H || r.width() < 1 || r.height() < 1 {
			e.Fail("window off the screen", "window %s is at %v on a terminal of %d x %d", w, r, p.W, p.H)
			return false
		}
		at[w] = r
	}
	for i, a := range windows {
		for _, b := range windows[:i] {
			if a != "packet" && b != "packet" && at[a].meets(at[b]) {
				e.Fail("windows overlap", "windows %s at %v and %s at %v overlap", a, at[a], b, at[b])
				return false
			}
		}
	}
	for _, w := range []string{"cmd", "err"} {
		if at["packet"].meets(at[w]) {
			e.Fail("windows overlap", "windows packet at %v and %s at %v overlap", at["packet"], w, at[w])
			return false
		}
	}
	// The newest messages and errors.
	for _, w := range []string{"msg", "err"} {
		var over []rect
		if o.packet && w == "msg" {
			over = append(over, at["packet"])
		}
		rows := interior(p, at[w], over...)
		all := wrapped(e.View(0, w), at[w].width())
		last := len(all)
		for last > 0 && rowIs(all[last-1], nil) {
			last--
		}
		// Blank rows at the end may show or not.
		ok := false
		for end := last; end <= len(all) && !ok; end++ {
			from := end - len(rows)
			if from < 0 {
				from = 0
			}
			ok = showsFrom(rows, all[:end], from)
		}
		if !ok {
			what := "newest not shown"
			if noRows(rows) {
				what = "nothing shown"
			}
			k := last - len(rows)
			if k < 0 {
				k = 0
			}
			e.Fail(what+": "+w, "window %s (%d x %d) shows %s, its newest lines are %s (of %d)", w, at[w].width(), at[w].height(), picture(rows), picture(all[k:last]), last)
			return false
		}
		e.Count("windows compared", 1)
	}
	// The packet trace is there if asked for, and hides nothing else.
	if o.packet {
		rows := drop(interior(p, at["packet"]))
		raw := wrapped(e.View(0, "packet"), at["packet"].width())
		all := drop(raw)
		ok := false
		if len(rows) == 0 && len(all) > 0 {
			// It may have been scrolled to blank lines.
			blanks, most := 0, 0
			for _, r := range raw {
				blanks++
				if !rowIs(r, nil) {
					blanks = 0
				}
				if most < blanks {
					most = blanks
				}
			}
			if most < at["packet"].height() {
				e.Fail("packet trace not shown", "the packet window shows nothing, it holds %s", picture(all))
				return false
			}
		}
		for from := 0; from <= len(all) && !ok; from++ {
			ok = len(rows) <= len(all)-from && showsFrom(rows, all[from:from+len(rows)], 0)
		}
		if !ok {
			e.Fail("packet trace not shown", "the packet window was asked for, shown in its place is %s, it holds %s", picture(rows), picture(all))
			return false
		}
		e.Count("packet traces compared", 1)
	}
	return o.atCursor(p, at)
}

var rePrompt = regexp.MustCompile(`\]:$`)

// atCursor checks the prompt and what was typed there.
func (o *operatorAt) atCursor(p *simrt.Picture, at map[string]rect) bool {
	e := o.e
	v := e.Gui(0).CurrentView()
	if v == nil {
		e.Fail("no current window", "the cursor is in no window")
		return false
	}
	r := at[v.Name()]
	if p.CX <= r.x0 || p.CX >= r.x1 || p.CY <= r.y0 || p.CY >= r.y1 {
		e.Fail("cursor outside", "the cursor is at %d,%d, the current window %s at %v", p.CX, p.CY, v.Name(), r)
		return false
	}
	if v.Name() != "cmd" {
		return true
	}
	row := string(interior(p, r)[p.CY-r.y0-1])
	rr := []rune(row)
	left, right := string(rr[:p.CX-r.x0-1]), strings.TrimSpace(string(rr[p.CX-r.x0-1:]))
	ok := right == ""
	t := strings.Replace(o.typed, "\x00", " ", -1)
	if len(left) <= len(t) {
		ok = ok && strings.HasSuffix(t, left)
	} else {
		ok = ok && strings.HasSuffix(left, t) && strings.HasSuffix(left[:len(left)-len(t)], ":")
		// The prompt or its end.
		if q := strings.TrimSuffix(left, t); len(q) > 2 && !rePrompt.MatchString(q) {
			ok = false
		}
	}
	if o.fresh && o.typed == "" && r.width() > 20 && !rePrompt.MatchString(left) {
		ok = false
	}
	if !ok {
		what := "typed text not at the cursor"
		if o.typed == "" {
			what = "no prompt at the cursor"
		}
		e.Fail(what, "typed at the prompt is %q, the cursor is in a row that shows %q | %q; the window is %d x %d, the command line shows %q",
			o.typed, left, right, r.width(), r.height(), tail(e.View(0, "cmd"), 4))
		return false
	}
	e.Count("prompts compared", 1)
	return true
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// print reports a text as a line.
func (o *operatorAt) print(win, t string) {
	e, s := o.e, o.e.Work
	col := []string{"red_black", "", "cyan_black", "none", "white_bred"}[s.Intn(5)]
	ln := s.Chance(2, 3)
	g := e.Gui(0)
	e.N[0].Do("report", Second, func() {
		if ln {
			e.B[0].Print(g, win, true, col, "", t)
		} else {
			e.B[0].Print(g, win, false, col, "%s\n", t)
		}
	})
}

// report gives the windows something to show.
func (o *operatorAt) report(wins []string) {
	e, s := o.e, o.e.Work
	win := wins[s.Intn(len(wins))]
	for k := 1 + s.Pick(4, 2, 1, 1)*s.Intn(12); k > 0; k-- {
		o.id++
		t := fmt.Sprintf("<%d>%s", o.id, plain(s, s.Pick(6, 2, 1)*s.Intn(50)))
		if s.Chance(1, 6) {
			t += "\n" + plain(s, 1+s.Intn(20))
		}
		if s.Chance(1, 12) {
			t = ""
		}
		o.print(win, t)
	}
	e.Count("reports", 1)
}

// clear empties windows.
func (o *operatorAt) clear() bool {
	e, s := o.e, o.e.Work
	wins := [][]string{{"msg", "err", "packet"}, {"msg"}, {"err"}, {"packet"}, {"msg", "err"}, {"packet", "msg"}}[s.Intn(6)]
	l := "clear " + strings.Join(wins, " ")
	if len(wins) == 3 {
		l = "clear"
	}
	if s.Chance(1, 2) { // whatever else is being shown
		e.Cmd(0, l)
		return true
	}
	if !e.shown(0, &o.hogs) {
		return !e.ended
	}
	last := o.id
	c := e.Cmd(0, l)
	if !c.Wait(60*Second) || !e.shown(0, &o.hogs) {
		return !e.ended
	}
	for _, w := range wins {
		for _, l := range e.View(0, w) {
			if k := reMark.FindStringSubmatch(l); k != nil {
				if id, _ := strconv.Atoi(k[1]); id <= last {
					e.Fail("not cleared: "+w, "after %q window %s still shows %q", c.Line, w, clip(l, 100))
					return false
				}
			}
		}
	}
	e.Count("windows cleared", int64(len(wins)))
	return o.look()
}

var reMark = regexp.MustCompile(`^<([0-9]+)>`)

// odd reports a text with characters that control a terminal.
func (o *operatorAt) odd() bool {
	e, s := o.e, o.e.Work
	if !e.shown(0, &o.hogs) {
		return !e.ended
	}
	o.id++
	win := []string{"msg", "err", "packet"}[s.Intn(3)]
	ctl := []string{"\r", "\x1b[2J", "\x1b[30;40m", "\x7f", "\u009b2J", "\u0085", "\x08", "\x1b", "\x00", "\a", "\x0e", "\x9b", "\t"}
	a, z := fmt.Sprintf("<%d>", o.id), fmt.Sprintf("<end %d>", o.id)
	t := a + plain(s, s.Intn(10)) + ctl[s.Intn(len(ctl))] + plain(s, s.Intn(10)) + ctl[s.Intn(len(ctl))] + z
	o.print(win, t)
	simrt.Sleep(100 * Milli)
	if !o.look() {
		return false
	}
	for _, l := range e.View(0, win) {
		if i := strings.Index(l, a); i >= 0 && strings.Contains(l[i:], z) {
			e.Count("control characters reported", 1)
			return true
		}
	}
	e.Fail("text erased by its characters", "%q was reported to window %s, which shows %q", t, win, tail(e.View(0, win), 4))
	return false
}

// trace scrolls through the packet window from end to end.
func (o *operatorAt) trace() bool {
	e := o.e
	g, n := e.Gui(0), e.N[0]
	if !o.packet || n.TermW < 16 || n.TermH < 12 || !e.shown(0, &o.hogs) {
		return !e.ended
	}
	for k := 0; k < 6; k++ {
		if v := g.CurrentView(); v != nil && v.Name() == "packet" {
			break
		}
		o.key(termbox.KeyCtrlSpace)
	}
	if v := g.CurrentView(); v == nil || v.Name() != "packet" {
		if !e.ended {
			e.Fail("packet trace out of reach", "switching the window six times does not get to the packet window, which is shown")
		}
		return false
	}
	x0, y0, x1, y1, err := g.ViewPosition("packet")
	if err != nil {
		return false
	}
	r := rect{x0, y0, x1, y1}
	text := wrapped(e.View(0, "packet"), r.width())
	all, raw := drop(text), len(text)
	if raw > 400 || len(all) == 0 {
		return true
	}
	end := e.Work.Chance(1, 2)
	for round := 0; round < 2; round++ {
		end = !end
		k := termbox.KeyArrowUp
		if end {
			k = termbox.KeyArrowDown
		}
		// Row by row, nothing is left out.
		seen := map[string]bool{}
		for j := 0; j < 2*raw+2*r.height()+5; j++ {
			e.press(0, k)
			if round == 1 && raw < 100 {
				simrt.Sleep(20 * Milli)
				for _, x := range interior(&n.Screen.Shown, r) {
					seen[strings.TrimRight(string(x), " ")] = true
				}
			} else if j%10 == 9 {
				simrt.Sleep(20 * Milli)
			}
		}
		simrt.Sleep(200 * Milli)
		if e.ended || !o.look() {
			return false
		}
		if len(wrapped(e.View(0, "packet"), r.width())) != raw {
			return true // something has come in
		}
		rows := drop(interior(&n.Screen.Shown, r))
		want := all[0]
		if end {
			want = all[len(all)-1]
		}
		found := len(drop(text[max(0, raw-r.height()+1):])) == 0
		if !end {
			found = len(drop(text[:min(raw, r.height())])) == 0
		}
		for _, x := range rows {
			found = found || rowIs(x, want)
		}
		if !found {
			e.Fail("packet trace out of reach", "after scrolling %s as far as it goes the packet window (%d x %d) shows %s, not %q", map[bool]string{true: "down", false: "up"}[end], r.width(), r.height(), picture(rows), string(want))
			return false
		}
		if round == 1 && raw < 100 {
			for _, x := range all {
				if l := strings.TrimRight(string(x), " "); !seen[l] {
					e.Fail("packet trace out of reach", "scrolling %s from end to end in the packet window (%d x %d) does not show %q", map[bool]string{true: "down", false: "up"}[end], r.width(), r.height(), l)
					return false
				}
			}
		}
		e.Count("traces scrolled", 1)
	}
	return true
}

func (o *operatorAt) key(k termbox.Key) {
	simrt.Sleep(20 * Milli)
	o.e.press(0, k)
	simrt.Sleep(100 * Milli)
	o.e.shown(0, &o.hogs)
}

// toPrompt switches windows until the cursor is at the command line again.
func (o *operatorAt) toPrompt() bool {
	e := o.e
	for k := 0; k < 6 && !e.ended; k++ {
		if v := e.Gui(0).CurrentView(); v != nil && v.Name() == "cmd" {
			return true
		}
		o.key(termbox.KeyCtrlSpace)
	}
	if !e.ended {
		e.Fail("no way back to the prompt", "switching the window six times does not get back to the command line")
	}
	return false
}

func (o *operatorAt) resize() {
	e, n, f := o.e, o.e.N[0], o.e.Fault
	simrt.Sleep(20 * Milli)
	switch f.Pick(4, 1) {
	case 0:
		n.TermW, n.TermH = 16+f.Intn(120), 12+f.Intn(60)
	case 1:
		n.TermW, n.TermH = 1+f.Intn(20), 1+f.Intn(16)
	}
	e.W.Injected("terminal resized")
	n.Key(termbox.Event{Type: termbox.EventResize, Width: n.TermW, Height: n.TermH})
}

func onTerminal(e *Env, sizes bool) {
	s, n := e.Work, e.N[0]
	e.Disk(0, nil)
	n.KeepScreen = true
	n.TermW, n.TermH = 16+s.Intn(120), 12+s.Intn(40)
	if !e.Boot(0) || !e.Settle(0, 10*Second) {
		return
	}
	o := &operatorAt{e: e}
	e.slow = 10 * Milli
	if !o.look() {
		return
	}
	k := 4 + s.Intn(20)
	if e.Deep {
		k = 4 + s.Intn(200)
	}
	if s.Chance(1, 16) { // the operator was busy
		for j := []int{8, 9, 10, 97, 99}[s.Pick(6, 6, 6, 1, 1)]; j > 0 && !e.ended; j-- {
			e.typed(0, "tran")
			o.key(termbox.KeyEnter)
			simrt.Sleep(100 * Milli)
			e.Settle(0, 60*Second)
		}
	}
	for ; k > 0 && !e.ended; k-- {
		switch s.Pick(6, 2, 2, 3, 1, 1, 1, 1, 1, 1, 1) {
		case 0:
			o.report([]string{"msg", "err", "packet"})
		case 1:
			e.Cmd(0, queries[s.Intn(len(queries))])
		case 2:
			if !o.clear() {
				return
			}
		case 3: // type something
			if !e.shown(0, &o.hogs) || !o.toPrompt() {
				return
			}
			for j := s.Pick(2, 1); j > 0 && len(o.typed) > 0; j-- {
				simrt.Sleep(20 * Milli)
				e.press(0, termbox.KeyBackspace)
				o.typed = o.typed[:len(o.typed)-1]
				o.fresh = false
			}
			simrt.Sleep(20 * Milli)
			t := []string{"peers", "tran", "?", "files", "beacon ?", "checksum", strings.Repeat("x", s.Intn(60)), "no such thing"}[s.Intn(8)]
			for _, c := range t {
				if e.ended {
					return
				}
				e.typed(0, string(c))
				o.fresh = false
				o.typed += string(c)
				if sizes && s.Chance(1, 30) {
					e.Settle(0, 60*Second)
					o.resize()
					simrt.Sleep(100 * Milli)
					if !o.look() {
						return
					}
				}
			}
			simrt.Sleep(20 * Milli)
			e.Settle(0, 60*Second)
			if s.Chance(1, 4) && !o.look() {
				return
			}
			if s.Chance(1, 5) {
				a := s.Intn(len(o.typed) + 1)
				for j := a; j > 0; j-- {
					o.key(termbox.KeyArrowLeft)
				}
				for j := a + s.Intn(3); j > 0; j-- {
					o.key(termbox.KeyArrowRight)
				}
			}
			if s.Chance(2, 3) {
				e.Settle(0, 60*Second)
				o.key(termbox.KeyEnter)
				o.fresh, o.typed = o.typed != "" && !sizes, ""
				simrt.Sleep(Second)
				e.Settle(0, 60*Second)
			}
		case 4:
			o.key(termbox.KeyCtrlSpace)
		case 5:
			o.key(termbox.KeyCtrlP)
			o.packet = !o.packet
			e.Count("packet window toggled", 1)
		case 6:
			if !o.trace() {
				return
			}
		case 7:
			e.send(host(1+s.Intn(3), s.Chance(1, 3), Port), datagram(s, n.MTU-60))
		case 8:
			e.hog(0, int64(e.Fault.Intn(1000))*Milli, &o.hogs)
			o.report([]string{"msg", "err", "packet"})
		case 9:
			if !sizes {
				n.Stall(int64(e.Fault.Intn(500)) * Milli)
				o.report([]string{"msg", "err", "packet"})
				simrt.Sleep(600 * Milli)
				break
			}
			e.shown(0, &o.hogs)
			o.resize()
		case 10:
			if !o.odd() {
				return
			}
		}
		if e.ended {
			return
		}
		if s.Chance(1, 2) {
			simrt.Sleep(Second)
			if !o.look() {
				return
			}
		}
	}
	simrt.Sleep(Second)
	if !o.look() || !o.trace() {
		return
	}
	e.Count("screens checked to the end", 1)
}
