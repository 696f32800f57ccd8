package harness

import (
	"fmt"
	"net"
	"regexp"
	"strings"
	"time"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P21", Scenario{Name: "frames traced", Weight: 4, Limit: 3000 * Second, Fn: func(e *Env) { traced(e, false) }})
	reg("P21", Scenario{Name: "frames and beacons traced, network faulty", Weight: 3, Limit: 3000 * Second, Fn: func(e *Env) { traced(e, true) }})
}

// plain draws a text a window shows as it is.
func plain(s *simrt.Stream, n int) string {
	const set = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-/%d%s{}[]()<>|,;=+~@#&*'é"
	r := []rune(set)
	b := make([]rune, n)
	for i := range b {
		b[i] = r[s.Intn(len(r))]
	}
	return string(b)
}

// entry is one frame as the trace has it.
type traceEntry struct {
	key   string // everything but the time
	stamp string
	text  string
}

var (
	reStart = regexp.MustCompile(`^(Listen Rx|Rx|Tx)(.*)$`)
	reKind  = regexp.MustCompile(`(Beacon|Data|Metadata|Request|Status): 0x([0-9a-f]+)`)
)

// label finds what follows a label.
func label(t, l, pat string) string {
	m := regexp.MustCompile(`(?m)(?:^|[ ,\n])` + l + `[ ]*:[ ]*(` + pat + `)`).FindStringSubmatch(t)
	if m == nil {
		return "-"
	}
	return strings.TrimRight(m[1], " ")
}

// readEntry reads the values shown for a frame.
func readEntry(t string) traceEntry {
	x := traceEntry{text: t}
	k := reKind.FindStringSubmatch(t)
	if k == nil {
		return x
	}
	f := []string{strings.ToLower(k[1]), k[2]}
	num := func(l string) { f = append(f, l+"="+label(t, l, `[0-9]+`)) }
	str := func(l string) { f = append(f, l+"="+label(t, l, `[^\n]*`)) }
	switch f[0] {
	case "beacon":
		num("free")
		str("EID")
	case "data":
		x.stamp = label(t, "tstamp", `[^\n]*`)
		num("session")
		num("offset")
		num("paylen")
	case "request":
		num("session")
		str("filename")
		str("auth")
	case "status":
		x.stamp = label(t, "timestamp", `[^\n]*`)
		num("session")
		str("errcode")
		num("progress")
		num("inrespto")
		num("numb holes")
	case "metadata":
		num("session")
		f = append(f, "checksum="+label(t, `checksum \[[a-z0-9]*\]`, `[0-9a-f]*`), "kind="+first(regexp.MustCompile(`checksum \[([a-z0-9]*)\]`).FindStringSubmatch(t)))
		f = append(f, "entry="+label(t, "Dir Entry", `0x[0-9a-f]+`))
		str("Path")
		num("Size")
		x.stamp = label(t, "Mtime", `[^\n]*`) + "|" + label(t, "Ctime", `[^\n]*`)
	}
	x.key = strings.Join(f, " ")
	return x
}

func first(m []string) string {
	if len(m) < 2 {
		return "-"
	}
	return m[1]
}

// wantEntry is what has to be shown for a frame.
func wantEntry(f api.Frame) string {
	l := []string{f.Kind, fmt.Sprintf("%x", f.Header)}
	add := func(n string, v any) { l = append(l, fmt.Sprintf("%s=%v", n, v)) }
	switch f.Kind {
	case "beacon":
		if fFree.get(f.Header) == 1 {
			add("free", f.Freespace)
		} else {
			add("free", "-")
		}
		add("EID", f.Eid)
	case "data":
		add("session", f.Session)
		add("offset", f.Offset)
		add("paylen", len(f.Payload))
	case "request":
		add("session", f.Session)
		add("filename", f.Fname)
		add("auth", string(f.Auth))
	case "status":
		add("session", f.Session)
		add("errcode", errNames[fErr.get(f.Header)])
		add("progress", f.Progress)
		add("inrespto", f.Inrespto)
		add("numb holes", len(f.Holes))
	case "metadata":
		add("session", f.Session)
		if ct := fCsType.get(f.Header); ct != 0 {
			add("checksum", fmt.Sprintf("%x", f.Checksum))
			add("kind", csNames[ct])
		} else {
			add("checksum", "-")
			add("kind", "-")
		}
		add("entry", fmt.Sprintf("0x%x", f.Dir.Header))
		add("Path", f.Dir.Path)
		add("Size", f.Dir.Size)
	}
	return strings.Join(l, " ")
}

// timeShown tells whether a text shows a time.
func timeShown(text string, t time.Time) bool {
	t = t.UTC()
	if t.Year() < 1 || t.Year() > 9999 {
		return true
	}
	for _, l := range []string{"Mon Jan _2 15:04:05 2006 UTC", "Mon Jan _2 15:04:05.000 2006 UTC"} {
		if got, err := time.Parse(l, text); err == nil {
			return got.Equal(t.Truncate(time.Second)) || got.Equal(t.Truncate(time.Millisecond))
		}
	}
	return false
}

// stampOK tells whether the times of a frame are shown as they are.
func stampOK(x traceEntry, f api.Frame) bool {
	switch f.Kind {
	case "data", "status":
		if fTstamp.get(f.Header) == 0 {
			return x.stamp == "-"
		}
		if p := f.Tstamp.Put; len(p) == 16 && p[0] == 0 { // the sender's own format
			text := strings.TrimRight(string(p[1:15]), "\x00")
			for _, c := range text {
				if c < ' ' || c > '~' {
					return true
				}
			}
			text = strings.Trim(text, " ")
			return x.stamp == text || x.stamp == "-" && text == ""
		}
		t, _, ok := denotes(f.Tstamp.Put)
		return !ok || timeShown(x.stamp, t)
	case "metadata":
		p := strings.SplitN(x.stamp, "|", 2)
		y2k := int64(946684800)
		return len(p) == 2 && timeShown(p[0], time.Unix(int64(f.Dir.Mtime.Secs)+y2k, 0)) && timeShown(p[1], time.Unix(int64(f.Dir.Ctime.Secs)+y2k, 0))
	}
	return true
}

// entries splits a window in the entries of frames.
func entries(lines []string) (l []string) {
	for _, x := range lines {
		x = strings.TrimRight(strings.ReplaceAll(x, "\x00", " "), " ")
		if x == "" {
			continue
		}
		if reStart.MatchString(x) || len(l) == 0 {
			l = append(l, x)
			continue
		}
		l[len(l)-1] += "\n" + x
	}
	return l
}

func traced(e *Env, faulty bool) {
	s, n := e.Work, e.N[0]
	hogs := 0
	e.Disk(0, nil)
	e.someFiles(0)
	n.TermW, n.TermH = 30+s.Intn(200), 14+s.Intn(60)
	if !e.Boot(0) || !e.Settle(0, 10*Second) {
		return
	}
	if faulty {
		e.W.Net.Cfg.Loss, e.W.Net.Cfg.Dup, e.W.Net.Cfg.WriteErr = e.Fault.Intn(300), e.Fault.Intn(400), e.Fault.Intn(300)
	}
	e.W.Net.Cfg.DelayMax = int64(s.Intn(30)) * Milli
	num := 2 + s.Intn(15)
	if e.Deep {
		num = 2 + s.Intn(150)
	}
	var cs []*Command
	for k := 0; k < num && !e.ended; k++ {
		from := host(1+s.Intn(5), s.Chance(1, 3), 30000+k)
		switch {
		case s.Chance(1, 8):
			// Frames that are not handed on have no entry.
			b := mangle(s, refEncode(frame(s, kinds[s.Intn(5)], n.MTU-60)))
			if v := refDecode(b, n.MTU); v.v != vAccept && v.v != vEither {
				e.send(from, b)
			}
		case faulty && s.Chance(1, 6):
			cs = append(cs, e.Cmd(0, fmt.Sprintf("beacon %s", []string{"v4", "v6", fmt.Sprintf("10.0.4.%d", 1+s.Intn(200))}[s.Intn(3)])))
		default:
			f := frame(s, kinds[s.Intn(5)], n.MTU-200)
			// Texts that can be read back, numbers that tell frames apart.
			f.Session = f.Session&0xfff00000 | uint32(k)
			switch f.Kind {
			case "beacon":
				f.Session = 0
				f.Eid = fmt.Sprintf("eid-%d-%s", k, plain(s, 1+s.Intn(60)))
				if s.Chance(1, 12) {
					f.Eid = plain(s, s.Intn(3))
				}
			case "request":
				f.Fname = plain(s, s.Intn(100))
				if len(f.Auth) > 0 {
					f.Auth = []byte(plain(s, 1+s.Intn(20)))
				}
			case "metadata":
				f.Dir.Path = plain(s, s.Intn(100))
			}
			b := refEncode(f)
			if v := refDecode(b, n.MTU); v.v != vAccept {
				continue
			}
			e.send(from, b)
		}
		if s.Chance(1, 3) {
			simrt.Sleep(int64(s.Intn(40)) * Milli)
		}
		if e.Fault.Chance(1, 6) {
			n.Stall(int64(e.Fault.Intn(900)) * Milli)
		}
		if e.Fault.Chance(1, 6) {
			e.hog(0, int64(e.Fault.Intn(2000))*Milli, &hogs)
		}
	}
	for _, c := range cs {
		c.Wait(300 * Second)
	}
	if e.ended || !e.drain(0) || !e.shown(0, &hogs) {
		return
	}
	// What has to be there: every accepted datagram read from a socket, and
	// every beacon sent.
	type need struct {
		f                api.Frame
		want, got, early int
	}
	wants := map[string]*need{}
	put := func(pre string, f api.Frame) {
		k := pre + wantEntry(f)
		if wants[k] == nil {
			wants[k] = &need{f: f}
		}
		wants[k].want++
	}
	own := map[string]int{}
	kindsBy := map[string]int{}  // frames by family and kind
	refused := map[string]int{}  // refused datagrams by sender
	sessions := map[string]int{} // those that have a session
	decoded := map[string]int{}  // statuses with their holes
	for _, k := range n.Socks() {
		if k.Group == nil {
			continue
		}
		for _, d := range k.Delivered {
			v := refDecode(d.Data, n.MTU)
			if v.v == vEither {
				return
			}
			fam := "v6"
			if k.Group.To4() != nil {
				fam = "v4"
			}
			if v.v == vBad || v.frame.Kind == "request" && v.v == vAccept {
				kindsBy["need to send "+fam+" status"]++
			}
			if v.v != vAccept {
				refused[d.Src.String()]++
				if v.hasSess {
					sessions[fmt.Sprint(d.Src.String(), " ", v.session)]++
				}
				continue
			}
			put("", v.frame)
			if v.frame.Kind != "beacon" {
				kindsBy["received "+fam+" "+v.frame.Kind]++
			}
			if v.frame.Kind == "status" {
				own[wantEntry(v.frame)]++
				decoded[holesKey(v.frame)]++
			}
		}
	}
	for _, d := range e.W.Net.Sent {
		if d.Node != 0 {
			continue
		}
		if v := refDecode(d.Data, n.MTU); v.v == vAccept && v.frame.Kind == "beacon" {
			put("Tx "+addrKey(d.Dst)+" ", v.frame)
		}
	}
	for _, t := range entries(e.View(0, "packet")) {
		x := readEntry(t)
		m := reStart.FindStringSubmatch(strings.SplitN(t, "\n", 2)[0])
		pre := ""
		if m != nil && m[1] == "Tx" {
			a, err := net.ResolveUDPAddr("udp", strings.TrimSpace(m[2]))
			if err == nil {
				pre = "Tx " + addrKey(*a) + " "
			}
		}
		w := wants[pre+x.key]
		if x.key == "" || w == nil {
			e.Fail("trace of a frame that was not there", "the packet window shows %q, read as %q; on the network were %s", t, pre+x.key, clip(fmt.Sprint(keys(wants)), 1500))
			return
		}
		// The listener may show what it reads before it is handed on.
		cnt := &w.got
		if m != nil && strings.HasPrefix(m[1], "Listen") {
			cnt = &w.early
		}
		if *cnt++; *cnt > w.want {
			e.Fail("frame traced twice", "the packet window shows %q more often than the %d times it was there", t, w.want)
			return
		}
		if !stampOK(x, w.f) {
			e.Fail("trace with another time", "the packet window shows %q for a frame with the times %x %d %d", t, w.f.Tstamp.Put, w.f.Dir.Mtime.Secs, w.f.Dir.Ctime.Secs)
			return
		}
		e.Count("entries checked", 1)
		if pre != "" {
			e.Count("beacons traced", 1)
		}
	}
	for _, k := range keys(wants) {
		if w := wants[k]; w.got < w.want {
			e.Fail("frame not traced", "%q was there %d times and shows %d times in the packet window", k, w.want, w.got)
			return
		}
	}
	if !e.announced(kindsBy, refused, sessions, decoded) {
		return
	}
	// Answers.
	answers := map[string]int{}
	for _, t := range e.Taps {
		if t.Node == 0 && t.F.Kind == "status" {
			answers[wantEntry(t.F)]++
		}
	}
	for _, k := range keys(own) {
		answers[k] -= own[k]
	}
	var cur []string
	flush := func() bool {
		if len(cur) == 0 {
			return true
		}
		x := readEntry(strings.Join(cur, "\n"))
		cur = nil
		if answers[x.key]--; answers[x.key] < 0 {
			e.Fail("answer shown that was not made", "the message window shows %q", x.text)
			return false
		}
		e.Count("answers checked", 1)
		return true
	}
	for _, l := range e.View(0, "msg") {
		l = strings.TrimRight(strings.ReplaceAll(l, "\x00", " "), " ")
		if strings.HasPrefix(l, "Status: 0x") {
			if !flush() {
				return
			}
			cur = []string{l}
		} else if len(cur) > 0 && strings.HasPrefix(l, "  ") {
			cur = append(cur, l)
		} else if !flush() {
			return
		}
	}
	if !flush() {
		return
	}
	for _, k := range keys(answers) {
		if answers[k] > 0 {
			e.Fail("answer not shown", "the answer %q is not in the message window", k)
			return
		}
	}
}

func addrKey(a net.UDPAddr) string { return fmt.Sprintf("%s %d", a.IP.To16(), a.Port) }

// holesKey is a status as the message window has it.
func holesKey(f api.Frame) string {
	t := fmt.Sprintf("0x%x session %d progress %d", f.Header, f.Session, f.Progress)
	for _, h := range f.Holes {
		t += fmt.Sprintf(" %d-%d", h.Start, h.End)
	}
	return t
}

var (
	reRcvd  = regexp.MustCompile(`(?i)(received|need to send) (v4|v6) saratoga ([a-z]+) frame`)
	reDecod = regexp.MustCompile(`(?i)decoded status +Status: (0x[0-9a-f]+)`)
	reProg  = regexp.MustCompile(`progress *: *([0-9]+)`)
	reSess  = regexp.MustCompile(`session *: *([0-9]+)`)
	reHole  = regexp.MustCompile(`Start *: *(-?[0-9]+) +End *: *(-?[0-9]+)`)
	// The ports of the hosts that send.
	reAddr = regexp.MustCompile(`(?:\[[0-9a-f:]+(?:%sim0)?\]|[0-9]+\.[0-9]+\.[0-9]+\.[0-9]+):30[0-9]{3}\b`)
	reNum  = regexp.MustCompile(`[0-9]+`)
)

// announced checks what the message and error windows say of the datagrams.
func (e *Env) announced(kindsBy, refused, sessions, decoded map[string]int) bool {
	cur := ""
	flush := func() bool {
		if cur == "" {
			return true
		}
		t := cur
		cur = ""
		k := fmt.Sprintf("%s session %s progress %s", reDecod.FindStringSubmatch(t)[1], first(reSess.FindStringSubmatch(t)), first(reProg.FindStringSubmatch(t)))
		for _, m := range reHole.FindAllStringSubmatch(t, -1) {
			k += " " + m[1] + "-" + m[2]
		}
		if decoded[k]--; decoded[k] < 0 {
			e.Fail("status shown that was not received", "the message window shows %q, read as %q; received were %s", t, k, clip(fmt.Sprint(keys(decoded)), 1500))
			return false
		}
		e.Count("statuses in full", 1)
		return true
	}
	for _, l := range e.View(0, "msg") {
		l = strings.TrimRight(strings.ReplaceAll(l, "\x00", " "), " ")
		if m := reRcvd.FindStringSubmatch(l); m != nil {
			kindsBy[strings.ToLower(m[1]+" "+m[2]+" "+m[3])]--
			e.Count("announcements checked", 1)
		}
		if reDecod.MatchString(l) {
			if !flush() {
				return false
			}
			cur = l
		} else if cur != "" && strings.HasPrefix(l, "  ") {
			cur += "\n" + l
		} else if !flush() {
			return false
		}
	}
	if !flush() {
		return false
	}
	for _, k := range keys(decoded) {
		if decoded[k] > 0 {
			e.Fail("status not shown in full", "the received status %q is not in the message window", k)
			return false
		}
	}
	for _, k := range keys(kindsBy) {
		if c := kindsBy[k]; c > 0 {
			e.Fail("announcement missing", "%d frames are not announced in the message window as %q", c, k)
			return false
		} else if c < 0 {
			e.Fail("announcement of a frame that was not there", "%d times too often the message window has %q", -c, k)
			return false
		}
	}
	for _, l := range e.View(0, "err") {
		a := reAddr.FindString(l)
		if a == "" {
			continue
		}
		if refused[a]--; refused[a] < 0 {
			e.Fail("refusal reported that was not", "the error window shows %q more often than datagrams from there were refused", l)
			return false
		}
		for _, x := range reNum.FindAllString(l[strings.LastIndex(l, a)+len(a):], -1) {
			if k := a + " " + x; sessions[k] > 0 {
				sessions[k]--
				break
			}
		}
		e.Count("refusals checked", 1)
	}
	for _, k := range keys(refused) {
		if refused[k] > 0 {
			e.Fail("refusal not reported", "%d datagrams refused from %s are not reported in the error window", refused[k], k)
			return false
		}
	}
	for _, k := range keys(sessions) {
		if sessions[k] > 0 {
			e.Fail("refusal without its session", "no report in the error window names the sender and session %s of a refused frame", k)
			return false
		}
	}
	return true
}
