package harness

import (
	"fmt"
	"net"
	"regexp"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P22", Scenario{Name: "commands answered one by one", Weight: 3, Limit: 3000 * Second, Fn: func(e *Env) { answered(e, false) }})
	reg("P22", Scenario{Name: "commands answered at once", Weight: 2, Limit: 3000 * Second, Fn: func(e *Env) { answered(e, true) }})
}

var transferCmds = []string{"get", "take", "getdir", "put", "putblind", "give", "delete"}

// cmdLine is a command line and what its answer has to be like.
type cmdLine struct {
	line   string
	cmd    string
	starts string   // the kind of transfer it may start
	names  []string // what a transfer is reported with
	silent bool     // may be carried out without a word
	fine   bool     // must not be called wrong
	wrong  bool     // must be called wrong
	ask    bool     // asks for the use of a command
	lacks  string   // peer of a transfer that is not there
}

// plainIP tells whether a text is an IP address and nothing else.
func plainIP(t string) bool { return net.ParseIP(t) != nil }

// misused draws a command line that is wrong in its arguments, and the words
// its answer has to name.
func misused(s *simrt.Stream, k int) (string, []string) {
	bad := func(j int) string {
		return fmt.Sprintf([]string{"10.0.3.%d.", "10.0.3.%d.1.1", "fd00::3:%dx", "host%d", "10.0.%d", "fd00:::%d", "v%d"}[s.Intn(7)], 100+10*k+j)
	}
	switch s.Intn(8) {
	case 0:
		a := bad(0)
		return "beacon " + a, []string{a}
	case 1:
		l, w := "beacon", []string(nil)
		for j := 2 + s.Intn(3); j > 0; j-- {
			w = append(w, bad(j))
		}
		return l + " " + strings.Join(w, " "), w
	case 2:
		return "rmtran get 10.0.3.1:7542 " + []string{"none", "-1", "4294967296", "1.5", "0x12", "99999999999999999999", "1007x"}[s.Intn(7)], nil
	case 3:
		return []string{"rmtran get", "rmtran get 10.0.3.1", "rmtran get 10.0.3.1:7542 4 5"}[s.Intn(3)], nil
	case 4:
		return []string{"exit", "quit"}[s.Intn(2)] + " " + []string{"2", "-1", "now", "0 0", "1 ?", "00"}[s.Intn(6)], nil
	case 5:
		return "clear " + []string{"all", "cmd", "Msg", "windows now", "a b c", "0"}[s.Intn(6)], nil
	case 6:
		return "tran " + []string{"everything", "Get", "get put", "10.0.3.1", "-"}[s.Intn(5)], nil
	}
	c := transferCmds[s.Intn(len(transferCmds))]
	return c + []string{" 10.0.3.1", " 10.0.3.1 a b", " 10.0.3.1 f1 f2 ?"}[s.Intn(3)], nil
}

// askLine draws a command line. Lines of one batch differ in k.
func askLine(s *simrt.Stream, k int, tb api.Tables) cmdLine {
	var l string
	x := cmdLine{}
	switch s.Pick(4, 3, 2, 2, 6, 2, 2, 2, 3, 4) {
	case 0:
		l = malformed(s)
	case 1:
		l = badLine(s)
	case 2:
		l = setLine(s)
	case 3:
		q := enquiries()
		l = q[s.Intn(len(q))].line
		x.fine = true
	case 4:
		x.starts = transferCmds[s.Intn(len(transferCmds))]
		peer := fmt.Sprintf("10.0.3.%d", 1+s.Intn(9))
		if s.Chance(1, 3) {
			peer = fmt.Sprintf("fd00::3:%d", 1+s.Intn(9))
		}
		if s.Chance(1, 4) {
			peer = fmt.Sprintf([]string{"10.0.3.%d.", "10.0.3.%d.1.1", "fd00::3:%dx", "host%d", "10.0.%d", "fd00:::%d"}[s.Intn(6)], 100+k)
		}
		name := []string{fmt.Sprintf("missing-%d", k), "f1", "f2", "dir", fmt.Sprintf("new-%d", k), "dir/none", "."}[s.Intn(7)]
		l = x.starts + " " + peer + " " + name
		x.names = []string{peer, name}
		if !plainIP(peer) {
			x.names = []string{peer}
			x.wrong, x.starts = true, ""
		}
	case 5:
		l = commandNames[s.Intn(len(commandNames))] + " ?"
	case 6:
		l = fmt.Sprintf("rmtran %s 10.0.3.%d %d", []string{"get", "put", "take", "nothing"}[s.Intn(4)], 1+s.Intn(9), s.Intn(3000))
		if s.Chance(1, 2) { // sessions start after the process id
			a := fmt.Sprintf("10.0.3.%d:7542", 100+k)
			l = fmt.Sprintf("rmtran get %s %d", a, 100+s.Intn(400))
			x.wrong, x.lacks = true, a
		}
	case 7:
		l = string(s.Bytes(1 + s.Intn(20)))
		if s.Chance(1, 2) {
			l = []string{"gett", "Get", "PEERS", "exi", "exitt", "beacons", "timeouts", "-", "get\u00a0x", "/peers", "?x", "peers?"}[s.Intn(12)]
		}
	case 9:
		l, x.names = misused(s, k)
		x.wrong = true
	case 8: // what the usages offer
		l = offered(s, tb)
		x.fine = true
	}
	x.line = l
	a := strings.Fields(l)
	if len(a) == 0 {
		x.silent = true
		return x
	}
	x.cmd = a[0]
	switch {
	case effect(l) != nil:
		x.silent, x.fine = true, true
	case a[0] == "clear" || a[0] == "beacon" || a[0] == "rmtran":
		x.silent = true
	}
	_, known := tb.Commands[a[0]]
	if !known {
		x.wrong, x.silent = true, false
	} else if len(a) == 2 && a[1] == "?" && a[0] != "?" && a[0] != "cancel" {
		// Cancel is not there yet.
		x.ask, x.fine = true, true
	}
	for _, c := range []string{"descriptor", "checksum", "freespace", "stream", "reqtstamp", "rxwilling", "txwilling", "timestamp", "timezone", "interval", "bcount", "timeout"} {
		if known && a[0] == c && len(a) > 1 && effect(l) == nil && !x.ask && !x.fine && !(len(a) == 2 && a[1] == "d128") {
			x.wrong = true
		}
	}
	if a[0] == "timeout" && len(a) == 2 {
		for _, t := range timeouts {
			if a[1] == t {
				x.wrong, x.fine = false, true
			}
		}
	}
	if a[0] == "peers" && len(a) > 1 && !x.ask || a[0] == "files" && len(a) > 1 && !x.ask {
		x.wrong = true
	}
	if x.wrong {
		x.silent = false
	}
	return x
}

var (
	reOffer  = regexp.MustCompile(`^([a-z]+) \[([a-z0-9_|]+)\]$`)
	reOffers = regexp.MustCompile(`^([a-z]+) \[([a-z0-9_|]+)\] <secs\|off>$`)
)

// offered draws a command line that the usages of the commands offer.
func offered(s *simrt.Stream, tb api.Tables) string {
	var l []string
	for _, c := range keys(tb.Commands) {
		u := tb.Commands[c][0]
		switch {
		case c == "exit" || c == "quit" || c == "clear" || !strings.HasPrefix(u, c):
		case reOffer.MatchString(u):
			m := reOffer.FindStringSubmatch(u)
			for _, w := range strings.Split(m[2], "|") {
				if w == "numb" || w == "seconds" {
					w = fmt.Sprint(s.Intn(50))
				}
				if w != "d128" {
					l = append(l, m[1]+" "+w)
				}
			}
		case reOffers.MatchString(u):
			m := reOffers.FindStringSubmatch(u)
			for _, w := range strings.Split(m[2], "|") {
				l = append(l, fmt.Sprintf("%s %s %s", m[1], w, []string{"off", fmt.Sprint(s.Intn(100))}[s.Intn(2)]), m[1]+" "+w)
			}
		}
	}
	return l[s.Intn(len(l))]
}

var reUnknown = regexp.MustCompile(`(?i)invalid command`)

func answered(e *Env, atOnce bool) {
	s, n := e.Work, e.N[0]
	e.Disk(0, nil)
	e.someFiles(0)
	n.TermW, n.TermH = 30+s.Intn(200), 14+s.Intn(60)
	if !e.Boot(0) || !e.Settle(0, 10*Second) {
		return
	}
	hogs := 0
	tb := e.B[0].Tables()
	if s.Chance(1, 3) {
		n.FS.Faults[""] = e.Fault.Intn(400)
	}
	if s.Chance(1, 3) {
		e.W.Net.Cfg.DialErr, e.W.Net.Cfg.WriteErr = e.Fault.Intn(600), e.Fault.Intn(300)
	}
	num := 3 + s.Intn(12)
	if e.Deep {
		num = 3 + s.Intn(100)
	}
	for k := 0; k < num && !e.ended; k++ {
		batch := 1
		if atOnce {
			batch = 2 + s.Intn(8)
		}
		var qs []cmdLine
		for len(qs) < batch {
			q := askLine(s, k*10+len(qs), tb)
			if !tame(q.line) && !(q.wrong && (q.cmd == "exit" || q.cmd == "quit")) || q.cmd == "clear" && !q.wrong || atOnce && (strings.HasPrefix(q.line, "interval") || q.cmd == "beacon" && !q.wrong) {
				continue
			}
			qs = append(qs, q)
		}
		before := map[string]string{}
		for _, w := range windows {
			before[w] = e.text(0, w)
		}
		if s.Chance(1, 3) {
			e.hog(0, int64(s.Intn(500))*Milli, &hogs)
		}
		old := settingsOf(e.B[0].CliRaw())
		had := map[uint32]bool{}
		for _, t := range e.B[0].Trans() {
			had[t.Session()] = true
		}
		for _, q := range qs {
			e.Cmd(0, q.line)
			if s.Chance(1, 3) {
				simrt.Sleep(int64(s.Intn(5)) * Milli)
			}
		}
		if !e.Settle(0, 300*Second) || e.ended || !e.shown(0, &hogs) {
			return
		}
		if settingsOf(e.B[0].CliRaw()).differ(old) != "" {
			e.Count("settings made", 1)
		}
		msg, ok1 := e.fresh(0, "msg", before["msg"])
		errs, ok2 := e.fresh(0, "err", before["err"])
		if !ok1 || !ok2 {
			e.Fail("messages gone", "the messages shown before %q are gone", qs[0].line)
			return
		}
		m, r := strings.TrimSpace(strings.Join(msg, "\n")), strings.TrimSpace(strings.Join(errs, "\n"))
		if !e.answers(qs, m, r, tb) {
			return
		}
		for _, t := range e.B[0].Trans() {
			if had[t.Session()] {
				continue
			}
			// A window shows other characters in its own ways.
			ok := strings.ContainsFunc(t.Filename(), func(r rune) bool { return r < 33 || r > 126 })
			for _, l := range strings.Split(m, "\n") {
				ok = ok || strings.Contains(l, t.Ttype()) && strings.Contains(l, t.Peer()) && strings.Contains(l, t.Filename())
			}
			if !ok {
				e.Fail("transfer not announced: "+t.Ttype(), "a %s of %q with %s has started, the message window shows %q", t.Ttype(), t.Filename(), t.Peer(), m)
				return
			}
			e.Count("transfers announced", 1)
		}
	}
}

// answers judges what the windows show for a batch of commands.
func (e *Env) answers(qs []cmdLine, m, r string, tb api.Tables) bool {
	all := m + "\n" + r
	fine := true
	cmds := map[string]bool{}
	var lines []string
	unknown := 0
	wrong := map[string]int{}
	for _, q := range qs {
		lines = append(lines, q.line)
		fine = fine && q.fine
		cmds[q.cmd] = true
		if _, ok := tb.Commands[q.cmd]; !ok && q.cmd != "" {
			unknown++
		}
		if len(qs) == 1 && !q.silent && strings.TrimSpace(all) == "" {
			e.Fail("command without an answer: "+known(q.cmd, tb), "%q was answered by nothing", q.line)
			return false
		}
		if len(qs) == 1 && q.wrong && r == "" {
			e.Fail("refused without an error: "+known(q.cmd, tb), "%q is wrong, the error window shows nothing, the message window %q", q.line, m)
			return false
		}
		if q.starts != "" {
			// Either it is said to have started, or there is an error.
			began := false
			for _, l := range strings.Split(m, "\n") {
				began = began || strings.Contains(l, q.names[0]) && strings.Contains(l, q.names[1])
			}
			e.Count("transfers answered", 1)
			if !began && !strings.Contains(r, q.names[0]) && !strings.Contains(r, q.names[1]) && !(q.names[1] == "." && strings.Contains(r, Sardir)) {
				e.Fail("transfer without an answer: "+q.starts, "%q neither started nor led to an error about it, the message window shows %q, the error window %q", q.line, m, r)
				return false
			}
		} else if q.wrong && len(q.names) > 0 {
			for _, a := range q.names {
				if !strings.Contains(r, a) {
					e.Fail("wrong peer not named: "+q.cmd, "the errors for %q do not name the address %q: %q", q.line, a, r)
					return false
				}
			}
			e.Count("wrong addresses", 1)
		}
		if q.lacks != "" {
			if !strings.Contains(all, q.lacks) {
				e.Fail("missing transfer not named", "the answers to %q do not name the transfer: %q", q.line, all)
				return false
			}
			e.Count("missing transfers", 1)
		}
		if q.ask {
			c := tb.Commands[q.cmd]
			if !strings.Contains(squeeze(all), squeeze(c[0])) {
				e.Fail("use not shown: "+q.cmd, "%q does not show the use %q: %q", q.line, c[0], all)
				return false
			}
		}
		if q.wrong && !q.ask && len(q.names) == 0 {
			wrong[q.cmd]++
		}
		e.Count("commands answered", 1)
	}
	for _, c := range keys(wrong) {
		if u, ok := tb.Commands[c]; ok && strings.Count(squeeze(r), squeeze(u[0])) < wrong[c] {
			e.Fail("fewer errors than wrong commands: "+c, "of %q %d are wrong uses of %s, the error window shows %q", lines, wrong[c], c, r)
			return false
		}
	}
	if fine && r != "" {
		e.Fail("called wrong: "+known(qs[0].cmd, tb), "%q led to the error %q", lines, r)
		return false
	}
	if unknown == 0 && reUnknown.MatchString(all) {
		e.Fail("called unknown: "+known(qs[0].cmd, tb), "%q led to %q", lines, reUnknown.FindString(all))
		return false
	}
	if c := len(reUnknown.FindAllString(all, -1)); c < unknown {
		e.Fail("unknown command without an answer", "of %q %d are no commands, that is shown %d times: %q", lines, unknown, c, all)
		return false
	}
	// A usage shown is that of a command given.
	for _, l := range strings.Split(all, "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "usage:") || cmds["help"] || cmds["?"] || cmds["usage"] {
			continue
		}
		ok := false
		for c := range cmds {
			ok = ok || squeeze(strings.ReplaceAll(l, "usage:", "")) == squeeze(tb.Commands[c][0])
		}
		if !ok {
			e.Fail("use of another command", "%q led to %q", lines, l)
			return false
		}
		e.Count("uses shown", 1)
	}
	return true
}

func squeeze(t string) string { return strings.Join(strings.Fields(t), "") }

// known is a name for a command in signatures.
func known(c string, tb api.Tables) string {
	if _, ok := tb.Commands[c]; ok {
		return c
	}
	return "unknown"
}
