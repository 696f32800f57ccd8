package harness

import (
	"fmt"
	"regexp"
	"strings"

	"simmod/simrt"
)

func init() {
	reg("P20", Scenario{Name: "asking for settings", Weight: 3, Limit: 3000 * Second, Fn: func(e *Env) { asking(e, false) }})
	reg("P20", Scenario{Name: "asking while settings change", Weight: 3, Limit: 3000 * Second, Fn: func(e *Env) { asking(e, true) }})
}

// An enquiry is a command that shows settings.
type enquiry struct {
	line string
	sets []string // the settings it shows
	read func(line string) map[string]string
	draw func(s *simrt.Stream) string // a command that sets one of them
}

var (
	reSum   = regexp.MustCompile(`\b(none|crc32|md5|sha1)\b`)
	reDesc  = regexp.MustCompile(`\b(d16|d32|d64|d128)\b`)
	reWill  = regexp.MustCompile(`\b(yes|no|capable|invalid)\b`)
	reNeg   = regexp.MustCompile(`(?i)\b(not|cannot|no|never|off)\b`)
	reInt   = regexp.MustCompile(`-?\d+`)
	reStamp = regexp.MustCompile(`\b(posix32_32|posix64_32|epoch2000_32|posix32|posix64|localinterp)\b`)
	reYes   = regexp.MustCompile(`\b(yes|no)\b`)
	reZone  = regexp.MustCompile(`\b(utc|local)\b`)
)

func oneOf(name string, re *regexp.Regexp) func(string) map[string]string {
	return func(l string) map[string]string {
		if m := re.FindString(l); m != "" {
			return map[string]string{name: m}
		}
		return nil
	}
}

func negated(name string) func(string) map[string]string {
	return func(l string) map[string]string {
		if strings.TrimSpace(l) == "" {
			return nil
		}
		if reNeg.MatchString(l) {
			return map[string]string{name: "no"}
		}
		return map[string]string{name: "yes"}
	}
}

func pickOf(l ...string) func(*simrt.Stream) string {
	return func(s *simrt.Stream) string { return l[s.Intn(len(l))] }
}

var timeouts = []string{"metadata", "request", "status", "datacounter", "transfer"}

func timeoutLine(l string) map[string]string {
	w := strings.ToLower(strings.ReplaceAll(l, " ", ""))
	for _, k := range timeouts {
		if !strings.HasPrefix(w, k) && !(k == "datacounter" && strings.HasPrefix(w, "data")) {
			continue
		}
		if m := reInt.FindString(l); m != "" {
			return map[string]string{k: m}
		}
		if reNeg.MatchString(l) {
			return map[string]string{k: "0"}
		}
		return map[string]string{k: "?"}
	}
	return nil
}

func enquiries() []enquiry {
	counts := func(cmd string, more ...string) func(*simrt.Stream) string {
		return func(s *simrt.Stream) string {
			if len(more) > 0 && s.Chance(1, 4) {
				return cmd + " " + more[s.Intn(len(more))]
			}
			return fmt.Sprintf("%s %d", cmd, s.Intn([]int{3, 1000, 1 << 31}[s.Intn(3)]))
		}
	}
	l := []enquiry{
		{"checksum", []string{"csumtype"}, oneOf("csumtype", reSum), pickOf("checksum off", "checksum none", "checksum crc32", "checksum md5", "checksum sha1")},
		{"descriptor", []string{"descriptor"}, oneOf("descriptor", reDesc), pickOf("descriptor d16", "descriptor d32", "descriptor d64", "descriptor auto")},
		{"rxwilling", []string{"rxwilling"}, oneOf("rxwilling", reWill), pickOf("rxwilling on", "rxwilling off", "rxwilling capable")},
		{"txwilling", []string{"txwilling"}, oneOf("txwilling", reWill), pickOf("txwilling on", "txwilling off", "txwilling capable")},
		{"freespace", []string{"freespace"}, negated("freespace"), pickOf("freespace yes", "freespace no")},
		{"stream", []string{"stream"}, negated("stream"), pickOf("stream yes", "stream no")},
		{"reqtstamp", []string{"reqtstamp"}, negated("reqtstamp"), pickOf("reqtstamp yes", "reqtstamp no", "timestamp off", "timestamp 64")},
		{"timezone", []string{"timezone"}, oneOf("timezone", reZone), pickOf("timezone utc", "timezone local")},
		{"bcount", []string{"bcount"}, oneOf("bcount", reInt), counts("bcount")},
		{"interval", []string{"binterval"}, func(l string) map[string]string {
			if m := reInt.FindString(l); m != "" {
				return map[string]string{"binterval": m}
			}
			if strings.Contains(strings.ToLower(l), "single") {
				return map[string]string{"binterval": "0"}
			}
			return nil
		}, counts("interval", "off", "0")},
		{"timestamp", []string{"reqtstamp", "timestamp"}, func(l string) map[string]string {
			if f := reStamp.FindString(l); f != "" {
				return map[string]string{"timestamp": f, "reqtstamp": reYes.FindString(l)}
			}
			return nil
		}, pickOf("timestamp off", "timestamp 32", "timestamp 32_32", "timestamp 64", "timestamp 64_32", "timestamp 32_y2k", "timestamp local", "reqtstamp yes", "reqtstamp no")},
		{"timeout", timeouts, timeoutLine, func(s *simrt.Stream) string { return counts("timeout "+timeouts[s.Intn(5)], "off", "0")(s) }},
	}
	for _, k := range timeouts {
		l = append(l, enquiry{"timeout " + k, []string{k}, timeoutLine, counts("timeout "+k, "off", "0")})
	}
	return l
}

// states lists what the settings can be while some commands are carried out.
func states(from settings, cmds []string) []settings {
	l := []settings{from}
	for i, c := range cmds {
		n := from.copy()
		n.apply(c)
		rest := append(append([]string(nil), cmds[:i]...), cmds[i+1:]...)
		l = append(l, states(n, rest)...)
	}
	return l
}

// fresh is what a window shows beyond what it showed before.
func (e *Env) fresh(i int, win, before string) ([]string, bool) {
	t := e.text(i, win)
	b := strings.TrimRight(before, "\n \x00")
	if !strings.HasPrefix(t, b) {
		return nil, false
	}
	return strings.Split(strings.ReplaceAll(t[len(b):], "\x00", " "), "\n"), true
}

func asking(e *Env, racing bool) {
	s := e.Work
	n := e.N[0]
	model := factory()
	chg := map[string]any{}
	if s.Chance(1, 3) {
		t := map[string]any{"metadata": 55, "request": 56, "transfer": 58, "status": 57, "datacounter": 100, "binterval": 3}
		for _, k := range keys(t) {
			if s.Chance(1, 2) {
				t[k] = s.Intn([]int{1, 3, 5000}[s.Intn(3)])
				model[k] = fmt.Sprint(t[k])
			}
		}
		chg["timeout"] = t
	}
	e.Disk(0, chg)
	e.someFiles(0)
	n.TermW, n.TermH = 30+s.Intn(200), 14+s.Intn(60)
	if !e.Boot(0) || !e.Settle(0, 10*Second) {
		return
	}
	if d := settingsOf(e.B[0].CliRaw()).differ(model); d != "" {
		// Not as configured: that is for P16 to say.
		model = settingsOf(e.B[0].CliRaw())
	}
	// Things the enquiries have to leave alone.
	for x := s.Intn(4); x > 0 && !e.ended; x-- {
		e.send(host(1+x, s.Chance(1, 3), Port), frameBeacon(fmt.Sprintf("peer-%d", x)))
	}
	for x := s.Intn(4); x > 0 && !e.ended; x-- {
		e.Cmd(0, fmt.Sprintf("%s 10.0.3.%d wanted-%d", []string{"get", "getdir", "put", "take"}[s.Intn(4)], x, x)).Wait(60 * Second)
	}
	simrt.Sleep(2 * Second)
	if !e.Settle(0, 60*Second) {
		return
	}
	had, ok := e.holdings(0)
	if !ok {
		return
	}
	mark := len(e.W.Net.Sent)
	all := enquiries()
	k := 2 + s.Intn(15)
	if e.Deep {
		k = 2 + s.Intn(150)
	}
	left := 0
	for ; k > 0 && !e.ended; k-- {
		q := all[s.Intn(len(all))]
		asks := 1
		var sets []string
		if racing && s.Chance(2, 3) {
			asks = 1 + s.Intn(4)
			for x := 1 + s.Intn(4); x > 0; x-- {
				sets = append(sets, q.draw(s))
			}
		} else if s.Chance(2, 3) {
			// Settings made before it.
			for x := 1 + s.Intn(4); x > 0; x-- {
				o := all[s.Intn(len(all))]
				if s.Chance(1, 2) {
					o = q
				}
				l := o.draw(s)
				e.Cmd(0, l).Wait(60 * Second)
				model.apply(l)
			}
		}
		if !e.Settle(0, 60*Second) {
			break
		}
		if s.Chance(1, 3) {
			e.hog(0, int64(s.Intn(500))*Milli, &left)
		}
		before := e.text(0, "msg")
		errs := e.text(0, "err")
		poss := states(model, sets)
		var lines []string
		lines = append(lines, sets...)
		for x := 0; x < asks; x++ {
			lines = append(lines, q.line)
		}
		for x := len(lines) - 1; x > 0; x-- {
			y := s.Intn(x + 1)
			lines[x], lines[y] = lines[y], lines[x]
		}
		var cs []*Command
		for _, l := range lines {
			cs = append(cs, e.Cmd(0, l))
			if s.Chance(1, 4) {
				simrt.Sleep(int64(s.Intn(5)) * Milli)
			}
		}
		for _, c := range cs {
			if !c.Wait(60*Second) && !e.ended {
				e.Fail("enquiry does not end", "%q does not end: %s", c.Line, e.W.BlockedReport(n))
			}
		}
		if e.ended || !e.shown(0, &left) {
			break
		}
		said, ok := e.fresh(0, "msg", before)
		if !ok {
			e.Fail("messages gone", "the messages shown before %q are gone", q.line)
			return
		}
		found := map[string]int{}
		for _, l := range said {
			v := q.read(l)
			if v == nil {
				continue
			}
			ok := false
			for _, st := range poss {
				same := true
				for _, x := range keys(v) {
					same = same && st[x] == v[x]
				}
				if same {
					ok = true
					break
				}
			}
			if !ok {
				x := keys(v)[0]
				e.Fail("shows another setting: "+q.line, "%q shows %q, the settings are %s=%q, set meanwhile: %q", q.line, strings.TrimSpace(l), x, model[x], sets)
				return
			}
			for _, x := range keys(v) {
				found[x]++
			}
			e.Count("settings shown", 1)
		}
		for _, x := range q.sets {
			if found[x] < asks {
				e.Fail("does not show the setting: "+q.line, "%q was asked %d times and %s was shown %d times: %q", q.line, asks, x, found[x], said)
				return
			}
		}
		if more, ok := e.fresh(0, "err", errs); !ok || strings.TrimSpace(strings.Join(more, "")) != "" {
			e.Fail("enquiry called wrong: "+q.line, "%q (and %q) led to the error %q", q.line, sets, more)
			return
		}
		now := settingsOf(e.B[0].CliRaw())
		ok = false
		for _, st := range poss {
			ok = ok || now.differ(st) == ""
		}
		if !ok || len(sets) == 0 && now.differ(model) != "" {
			d := now.differ(model)
			e.Fail("asking changes a setting", "after %q %s is %q, it was %q, set meanwhile: %q", q.line, d, now[d], model[d], sets)
			return
		}
		model = now
		e.Count("enquiries", 1)
		if len(sets) > 0 {
			e.Count("enquiries while settings change", 1)
		}
	}
	if e.ended {
		return
	}
	// Asking how a command is used, and for lists, changes nothing either.
	for x := s.Intn(6); x > 0 && !e.ended; x-- {
		l := commandNames[s.Intn(len(commandNames))] + " ?"
		if s.Chance(1, 2) {
			l = []string{"peers", "files", "tran", "tran get", "tran put", "tran putblind", "usage", "help", "help ?", "?", "beacon", "history", "home", "ls", "cancel"}[s.Intn(15)]
		}
		if c := e.Cmd(0, l); !c.Wait(60*Second) && !e.ended {
			e.Fail("enquiry does not end", "%q does not end: %s", l, e.W.BlockedReport(n))
			return
		}
		e.Settle(0, 60*Second)
		if now := settingsOf(e.B[0].CliRaw()); !e.ended && now.differ(model) != "" {
			d := now.differ(model)
			e.Fail("asking changes a setting", "after %q %s is %q, it was %q", l, d, now[d], model[d])
			return
		}
	}
	if e.ended {
		return
	}
	now, ok := e.holdings(0)
	if !ok {
		return
	}
	for _, x := range keys(had) {
		if now[x] != had[x] {
			e.Fail("asking changes "+x, "after enquiries the %s are %s, they were %s", x, now[x], had[x])
			return
		}
	}
	if len(e.W.Net.Sent) != mark {
		e.Fail("asking sends", "enquiries and settings made the node send %s", e.W.Net.Sent[mark])
		return
	}
	e.Count("holdings compared", 1)
}

// holdings describes what a node has besides its settings.
func (e *Env) holdings(i int) (map[string]string, bool) {
	m := map[string]string{}
	ok := e.N[i].Do("holdings", 60*Second, func() {
		var l []string
		for _, t := range e.B[i].Trans() {
			l = append(l, fmt.Sprintf("%s %s %q %d", t.Ttype(), t.Peer(), t.Filename(), t.Session()))
		}
		m["transfers"] = fmt.Sprint(l)
		m["answered transfers"] = fmt.Sprintf("%v", e.B[i].RxTrans())
		m["peers"] = fmt.Sprintf("%v", e.B[i].Peers())
	})
	snap := e.N[i].FS.Snapshot("/", func(p string) bool { return false })
	l := []string{}
	for _, p := range keys(snap) {
		l = append(l, fmt.Sprintf("%s=%q", p, clip(snap[p], 60)))
	}
	m["files"] = strings.Join(l, " ")
	return m, ok && !e.ended
}
