package harness

import (
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P16", Scenario{Name: "configurations", Weight: 3, Fn: configs})
	reg("P16", Scenario{Name: "bad starts and restarts", Weight: 4, Fn: badStarts})
}

// setup is a configuration and what a node has to make of it.
type setup struct {
	m    map[string]any
	text []byte
	want settings
	tab  api.Tables
	port int
	v4   net.IP
	v6   net.IP
	dir  string
	env  string
	bad  string // why a node must not serve with it
}

func text16(s *simrt.Stream, max int) string {
	n := s.Intn(max + 1)
	var b strings.Builder
	for k := 0; k < n; k++ {
		switch s.Pick(8, 1, 1) {
		case 0:
			b.WriteByte(byte(33 + s.Intn(94)))
		case 1:
			b.WriteByte(' ')
		case 2:
			b.WriteRune([]rune{'é', '世', '"', '\\', '<', '&', '/'}[s.Intn(7)])
		}
	}
	return b.String()
}

// obj is an object within a configuration.
func obj(m map[string]any, k ...string) map[string]any {
	for _, x := range k {
		m, _ = m[x].(map[string]any)
	}
	return m
}

// shuffled are the keys of an object in any order.
func shuffled(s *simrt.Stream, m map[string]any) []string {
	k := keys(m)
	for i := len(k) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		k[i], k[j] = k[j], k[i]
	}
	return k
}

// render writes a configuration in one of the many ways it can be written.
func render(s *simrt.Stream, v any, style int, in string) string {
	nl, deep := "", ""
	switch style {
	case 1:
		nl, deep = "\n"+in, "  "
	case 2:
		nl, deep = "\r\n"+in, "\t"
	}
	switch x := v.(type) {
	case map[string]any:
		var l []string
		k := keys(x)
		if style > 0 {
			k = shuffled(s, x)
		}
		for _, f := range k {
			kb, _ := json.Marshal(f)
			l = append(l, nl+deep+string(kb)+":"+render(s, x[f], style, in+deep))
		}
		return "{" + strings.Join(l, ",") + nl + "}"
	case []any:
		var l []string
		for _, f := range x {
			l = append(l, render(s, f, style, in))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case float64:
		if style == 2 && x == float64(int64(x)) && x < 1e6 && s.Chance(1, 8) {
			return fmt.Sprintf("%de0", int64(x))
		}
	case int:
		if style == 2 && s.Chance(1, 8) {
			return fmt.Sprintf("%d.0", x)
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// drawSetup draws a good configuration.
func drawSetup(e *Env) *setup {
	s := e.Work
	c := &setup{}
	if err := json.Unmarshal(Config, &c.m); err != nil {
		panic("shipped configuration: " + err.Error())
	}
	m := c.m
	c.want = factory()
	yn := []string{"yes", "no"}
	opt := map[string][]string{"descriptor": {"d16", "d32", "d64"}, "csumtype": csNames, "freespace": yn, "stream": yn, "reqtstamp": yn, "reqstatus": yn,
		"udplite": yn, "txwilling": willNames, "rxwilling": willNames, "timestamp": tsNames, "timezone": {"utc", "local"}}
	for _, k := range keys(opt) {
		if s.Chance(2, 3) {
			m[k] = opt[k][s.Intn(len(opt[k]))]
			c.want[k] = m[k].(string)
		}
	}
	c.dir = []string{Sardir, "/srv/transfers", "/tmp", "/home/sar/in", "/with space/x"}[s.Intn(5)]
	m["sardir"] = c.dir
	if s.Chance(1, 3) {
		c.env = []string{"/env/dir", "/env/Ünicode", Sardir, "/env/a b ", "/env/dir"}[s.Intn(5)]
		if s.Chance(1, 2) {
			m["sardir"] = "/nowhere"
		}
		c.dir = c.env
	}
	c.want["sardir"] = c.dir
	num := func(o map[string]any, k, name string, v int) {
		if s.Chance(1, 2) {
			o[k] = v
			c.want[name] = fmt.Sprint(v)
		}
	}
	num(m, "ppad", "ppad", []int{s.Intn(10), s.Intn(10), s.Intn(10), 120 + s.Intn(200)}[s.Intn(4)])
	large := func(v int) int { // more than a short integer holds
		if s.Chance(1, 12) {
			return []int{1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 40}[s.Intn(6)] + s.Intn(200)
		}
		return v
	}
	num(m, "buffersize", "buffersize", large(s.Intn(1<<20)))
	num(m, "bcount", "bcount", large(s.Intn(100)))
	t := obj(m, "timeout")
	for _, k := range []string{"metadata", "request", "status", "transfer", "binterval", "datacounter"} {
		v := large(s.Intn(5000))
		if k == "binterval" && v > 1<<32 { // more seconds than a time holds
			v = 1 << 31
		}
		num(t, k, k, v)
	}
	if s.Chance(1, 2) {
		m["prompt"] = text16(s, 10)
		c.want["prompt"] = m["prompt"].(string)
	}
	c.port = Port
	if s.Chance(1, 2) {
		c.port = 1024 + s.Intn(64000)
	}
	m["udpport"] = c.port
	c.want["port"] = fmt.Sprint(c.port)
	v4, v6 := "224.0.0.108", "ff02::6c"
	if s.Chance(1, 2) {
		v4 = fmt.Sprintf("%d.%d.%d.%d", 224+s.Intn(16), s.Intn(256), s.Intn(256), 1+s.Intn(254))
	}
	if s.Chance(1, 2) {
		v6 = fmt.Sprintf("ff0%d::%x", 1+s.Intn(5), 1+s.Intn(65000))
	}
	m["v4multicast"], m["v6multicast"] = v4, v6
	c.want["v4multicast"], c.want["v6multicast"] = v4, v6
	c.v4, c.v6 = net.ParseIP(v4), net.ParseIP(v6)
	// Texts of commands.
	if s.Chance(1, 2) {
		cm := obj(m, "commands")
		for k := 0; k < 1+s.Intn(5); k++ {
			l := keys(cm)
			x := obj(cm, l[s.Intn(len(l))])
			part := []string{"usage", "help"}[s.Intn(2)]
			if s.Chance(1, 3) {
				delete(x, part)
			} else {
				x[part] = text16(s, 40)
			}
		}
		if s.Chance(1, 3) {
			y := map[string]any{}
			if s.Chance(2, 3) {
				y["usage"] = "frob <x>"
			}
			if s.Chance(2, 3) {
				y["help"] = text16(s, 20)
			}
			cm["frob"] = y
		}
	}
	// Header layouts.
	if s.Chance(1, 2) {
		f := obj(m, "flags")
		if s.Chance(1, 2) { // other error codes
			o := obj(f, "errcode", "options")
			p := s.Intn(200)
			for i, k := range shuffled(s, o) {
				o[k] = (p + i) % 256
			}
		}
		if s.Chance(1, 2) { // other request types
			o := obj(f, "reqtype", "options")
			p := s.Intn(200)
			for i, k := range shuffled(s, o) {
				o[k] = (p + i) % 256
			}
		}
		if s.Chance(1, 2) { // fields of status trade places
			swap(f, "metadatarecvd", "reqholes")
		}
		if s.Chance(1, 2) {
			swap(f, "stream", "udplite")
		}
		if s.Chance(1, 2) {
			swap(f, "txwilling", "rxwilling")
		}
		if s.Chance(1, 3) { // a field of no frame
			x := map[string]any{"len": 1 + s.Intn(4), "msb": 4 + s.Intn(28)}
			if s.Chance(1, 2) {
				x["options"] = map[string]any{"on": 1, "off": 0}
			}
			if s.Chance(1, 2) {
				x["frametypes"] = []any{"request", "data"}
			}
			f["spare"] = x
		}
	}
	if s.Chance(1, 5) { // settings nobody knows
		m["unknown"] = []any{nil, "text", 17, []any{1, 2}, map[string]any{"a": true}}[s.Intn(5)]
	}
	c.tab = tablesOf(m)
	c.text = []byte(render(s, m, s.Intn(3), ""))
	if s.Chance(1, 3) {
		c.text = append(c.text, []byte(" \n\n")...)
	}
	return c
}

func swap(f map[string]any, a, b string) {
	x, y := obj(f, a), obj(f, b)
	x["msb"], y["msb"] = y["msb"], x["msb"]
}

func u32(v any) uint32 {
	switch x := v.(type) {
	case float64:
		return uint32(x)
	case int:
		return uint32(x)
	}
	return 0
}

// tablesOf are the layouts and commands of a configuration.
func tablesOf(m map[string]any) api.Tables {
	t := api.Tables{Flags: map[string]api.Flag{}, Dirent: map[string]api.Flag{}, Frameflags: map[string][]string{}, Commands: map[string][2]string{}}
	flag := func(o map[string]any) api.Flag {
		f := api.Flag{Len: u32(o["len"]), Msb: u32(o["msb"]), Options: map[string]uint32{}}
		if l, ok := o["frametypes"].([]any); ok {
			for _, x := range l {
				f.Frametypes = append(f.Frametypes, x.(string))
			}
		}
		for k, v := range obj(o, "options") {
			f.Options[k] = u32(v)
		}
		return f
	}
	for k := range obj(m, "flags") {
		t.Flags[k] = flag(obj(m, "flags", k))
	}
	for k := range obj(m, "direntflags") {
		t.Dirent[k] = flag(obj(m, "direntflags", k))
	}
	t.Timestamps = flag(obj(m, "timestamps"))
	for k, v := range obj(m, "frameflags") {
		for _, x := range v.([]any) {
			t.Frameflags[k] = append(t.Frameflags[k], x.(string))
		}
	}
	for k := range obj(m, "commands") {
		x := obj(m, "commands", k)
		u, _ := x["usage"].(string)
		h, _ := x["help"].(string)
		t.Commands[k] = [2]string{u, h}
	}
	return t
}

func flagText(m map[string]api.Flag) map[string]string {
	o := map[string]string{}
	for k, f := range m {
		var l []string
		for n, v := range f.Options {
			l = append(l, fmt.Sprintf("%s=%d", n, v))
		}
		sort.Strings(l)
		o[k] = fmt.Sprintf("length %d at %d of %v: %v", f.Len, f.Msb, f.Frametypes, l)
	}
	return o
}

func mapDiff[V any](what string, want, got map[string]V, str func(V) string) string {
	for _, k := range keys(want) {
		if g, ok := got[k]; !ok {
			return fmt.Sprintf("%s %q of the configuration is missing", what, k)
		} else if str(g) != str(want[k]) {
			return fmt.Sprintf("%s %q is %s, the configuration says %s", what, k, str(g), str(want[k]))
		}
	}
	for _, k := range keys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s %q is not in the configuration", what, k)
		}
	}
	return ""
}

func tablesDiff(want, got api.Tables) (string, string) {
	id := func(s string) string { return s }
	if d := mapDiff("header field", flagText(want.Flags), flagText(got.Flags), id); d != "" {
		return "header layouts", d
	}
	if d := mapDiff("entry field", flagText(want.Dirent), flagText(got.Dirent), id); d != "" {
		return "directory entry layouts", d
	}
	a, b := map[string]api.Flag{"timestamps": want.Timestamps}, map[string]api.Flag{"timestamps": got.Timestamps}
	if d := mapDiff("field", flagText(a), flagText(b), id); d != "" {
		return "timestamp types", d
	}
	if d := mapDiff("list of flags", want.Frameflags, got.Frameflags, func(l []string) string { return fmt.Sprintf("%q", l) }); d != "" {
		return "flags of frame types", d
	}
	if d := mapDiff("command", want.Commands, got.Commands, func(c [2]string) string { return fmt.Sprintf("%q", c) }); d != "" {
		return "commands", d
	}
	return "", ""
}

// install puts a configuration on the disk of a node.
func (e *Env) install(i int, c *setup) {
	n := e.N[i]
	f := n.FS
	f.MkdirAll("/tmp")
	f.MkdirAll("/etc")
	f.Put("/etc/plain", []byte("not a directory"))
	if c.bad != "no directory" && c.bad != "directory is a file" {
		f.MkdirAll(c.dir)
	}
	f.Mount = "/"
	f.Put("/etc/saratoga.json", c.text)
	n.Env = map[string]string{}
	if c.env != "" {
		n.Env["SARDIR"] = c.env
	}
}

// listens checks the sockets of a serving node.
func (e *Env) listens(i int, c *setup) bool {
	for _, s := range e.N[i].Socks() {
		if s.Group == nil {
			continue
		}
		want := c.v6
		if s.Group.To4() != nil {
			want = c.v4
		}
		if !s.Group.Equal(want) || s.Local.Port != c.port {
			e.Fail("listens elsewhere", "node %d listens on %s port %d, the configuration says %s port %d", i, s.Group, s.Local.Port, want, c.port)
			return false
		}
	}
	return true
}

// running checks that a serving node runs with a configuration.
func (e *Env) running(i int, c *setup) {
	s, n, b := e.Work, e.N[i], e.B[i]
	if !e.listens(i, c) {
		return
	}
	var now settings
	var tab api.Tables
	mtu := 0
	if !n.Do("settings", 10*Second, func() { now, mtu = settingsOf(b.Cli()), b.Mtu() }) {
		e.Fail("settings cannot be read", "reading the settings of node %d blocks", i)
		return
	}
	simrt.Quiet(func() { tab = b.Tables() })
	if d := now.differ(c.want); d != "" {
		e.Fail("not the configured setting: "+d, "node %d runs with %s %q, the configuration says %q (environment %v)", i, d, now[d], c.want[d], n.Env)
		return
	}
	if what, d := tablesDiff(c.tab, tab); d != "" {
		e.Fail("not as configured: "+what, "node %d: %s", i, d)
		return
	}
	if mtu != n.MTU {
		e.Fail("not the MTU of the interface", "node %d works with MTU %d, the interface has %d", i, mtu, n.MTU)
		return
	}
	if n.FS.Cwd != c.dir {
		e.Fail("not in the working directory", "node %d works in %q, it has to be %q", i, n.FS.Cwd, c.dir)
		return
	}
	e.Count("configurations checked", 1)
	// It hears what is sent to the groups.
	for _, v6 := range []bool{false, true} {
		to := net.UDPAddr{IP: c.v4, Port: c.port}
		if v6 {
			to.IP = c.v6
		}
		at := len(e.Taps)
		from := host(200, v6, c.port)
		f := api.Frame{Kind: "beacon", Header: header(tBeacon), Eid: "hello there"}
		h, ok := layout(c.tab, "beacon", map[string]string{"descriptor": "d32", "stream": "yes", "txwilling": "yes", "rxwilling": "capable", "udplite": "no", "freespace": "no"})
		if !ok {
			panic("layout")
		}
		f.Header = h
		e.W.Net.Send(from, to, refEncode(f))
		simrt.Sleep(20 * Milli)
		if e.ended || !e.Settle(i, 30*Second) {
			return
		}
		heard := 0
		for _, t := range e.Taps[at:] {
			if t.Node == i && sameAddr(t.F.Addr, from) && t.F.Kind == "beacon" && t.F.Eid == f.Eid && t.F.Header == h {
				heard++
			}
		}
		if heard != 1 {
			e.Fail("does not hear its group", "a beacon sent to %s was handed on %d times", to.String(), heard)
			return
		}
		for _, p := range e.peersOf(i) {
			if p.Addr == from.IP.String() && (p.Canrx != "capable" || p.Cantx != "yes" || p.Maxdesc != "d32") {
				e.Fail("header layout not used", "a beacon with descriptor d32, willing to send (yes) and receive (capable) made peer %s with %q, %q and %q", p.Addr, p.Maxdesc, p.Cantx, p.Canrx)
				return
			}
		}
	}
	// It sends to the groups and the port, with the configured header layouts.
	if c.want["bcount"] != "0" && len(c.want["bcount"]) < 4 && s.Chance(1, 2) && !e.ended {
		v6 := s.Chance(1, 2)
		line, dst := "beacon v4", net.UDPAddr{IP: c.v4, Port: c.port}
		if v6 {
			line, dst.IP = "beacon v6", c.v6
		}
		at := len(e.W.Net.Sent)
		e.Cmd(i, line)
		simrt.Sleep(50 * Milli)
		e.Settle(i, 5*Second)
		sent := 0
		for _, d := range e.W.Net.Sent[at:] {
			if d.Node != i {
				continue
			}
			if !sameAddr(d.Dst, dst) {
				e.Fail("beacons elsewhere", "%q sent to %s, the configuration says %s", line, d.Dst.String(), dst.String())
				return
			}
			sent++
		}
		if sent == 0 && !e.ended {
			e.Fail("no beacon", "%q sent nothing to %s", line, dst.String())
			return
		}
		e.Count("beacons to the configured group", 1)
	}
	for k := 0; k < 4 && !e.ended; k++ {
		e.madeAs(i, c)
	}
	// A command which has a text but no meaning does nothing, and is refused.
	if _, ok := c.tab.Commands["frob"]; ok && !e.ended {
		line := []string{"frob", "frob 1", "frob ?", "frob off"}[s.Intn(4)]
		said := func() int { return strings.Count(strings.Join(e.View(i, "err"), "\n"), "frob") }
		before := said()
		if !e.Cmd(i, line).Wait(20*Second) || e.ended {
			return
		}
		e.Settle(i, 20*Second)
		var then settings
		if !n.Do("settings", 10*Second, func() { then = settingsOf(b.Cli()) }) || e.ended {
			return
		}
		if d := then.differ(now); d != "" {
			e.Fail("a command without a meaning", "%q changed %s from %q to %q", line, d, now[d], then[d])
			return
		}
		if said() == before {
			e.Fail("a command without a meaning", "%q is not refused", line)
			return
		}
		e.Count("commands without a meaning", 1)
	}
	// What the commands say about themselves.
	if s.Chance(1, 2) && !e.ended {
		cmd := []string{"descriptor", "stream", "checksum", "timezone", "bcount", "interval", "rxwilling", "freespace"}[s.Intn(8)]
		x := c.tab.Commands[cmd]
		before := strings.Join(e.View(i, "msg"), "")
		k := e.Cmd(i, cmd+" ?")
		if !k.Wait(20 * Second) {
			return
		}
		e.Settle(i, 20*Second)
		after := strings.Join(e.View(i, "msg"), "")
		for _, t := range x {
			// Windows hold what was written line by line.
			t = strings.TrimSpace(strings.ReplaceAll(t, "\n", ""))
			if !strings.Contains(strings.TrimPrefix(after, before), t) && !e.ended {
				e.Fail("usage is not as configured", "%q shows %q, the configuration has %q for it", cmd+" ?", clip(strings.TrimPrefix(after, before), 300), t)
				return
			}
		}
		e.Count("usages checked", 1)
	}
}

func (e *Env) peersOf(i int) (l []api.Peer) {
	b := e.B[i]
	if !e.N[i].Do("peers", 10*Second, func() { l = b.Peers() }) && !e.ended {
		e.Fail("peer table not readable", "reading the peer table of node %d blocks: %s", i, e.W.BlockedReport(e.N[i]))
	}
	return
}

// layout is the header a configuration has for values of fields.
func layout(t api.Tables, kind string, v map[string]string) (uint32, bool) {
	h := uint32(0)
	set := func(f, o string) bool {
		x, ok := t.Flags[f]
		n, ok2 := x.Options[o]
		if !ok || !ok2 {
			return false
		}
		h = field{int(x.Msb), int(x.Len)}.set(h, n)
		return true
	}
	if !set("version", "v1") || !set("frametype", kind) {
		return 0, false
	}
	for _, k := range keys(v) {
		if !set(k, v[k]) {
			return 0, false
		}
	}
	return h, true
}

// madeAs has the node make a frame and compares its header with the
// configured layout.
func (e *Env) madeAs(i int, c *setup) {
	s, b := e.Work, e.B[i]
	kind := []string{"request", "data", "status"}[s.Intn(3)]
	fl := map[string]string{"descriptor": descNames[s.Intn(3)]}
	pick := func(f string) {
		if s.Chance(3, 4) {
			l := keys(c.tab.Flags[f].Options)
			fl[f] = l[s.Intn(len(l))]
		}
	}
	sp := api.Spec{Kind: kind, Session: sessNo(s)}
	switch kind {
	case "request":
		for _, f := range []string{"stream", "txwilling", "rxwilling", "udplite", "reqtype"} {
			pick(f)
		}
		sp.Fname = "file"
	case "data":
		for _, f := range []string{"reqstatus", "eod"} {
			pick(f)
		}
		sp.Payload = []byte("x")
	case "status":
		for _, f := range []string{"metadatarecvd", "allholes", "reqholes", "errcode"} {
			pick(f)
		}
	}
	var l []string
	for _, k := range keys(fl) {
		l = append(l, k+"="+fl[k])
	}
	sp.Flags = flagList(s, l)
	want, ok := layout(c.tab, kind, fl)
	if !ok {
		return
	}
	var got api.Frame
	var err error
	if !e.N[i].Do("make", 10*Second, func() {
		var f api.Built
		if f, err = b.Make(sp); err == nil {
			got = f.Frame()
		}
	}) {
		return
	}
	if err != nil {
		e.Fail("frame not made: "+kind, "%s with flags %q: %v", kind, sp.Flags, err)
		return
	}
	if got.Header != want {
		e.Fail("header not as configured: "+kind, "%s with flags %q has header %08x, by the configured layout it is %08x", kind, sp.Flags, got.Header, want)
		return
	}
	e.Count("headers checked", 1)
}

func configs(e *Env) {
	s, n := e.Work, e.N[0]
	c := drawSetup(e)
	n.MTU = []int{1500, 1280, 9000, 576, 65535}[s.Intn(5)]
	e.install(0, c)
	if s.Chance(1, 3) {
		n.FS.ShortRd = 500
		e.W.Injected("short reads")
	}
	if !e.Boot(0) {
		return
	}
	n.FS.ShortRd = 0
	e.running(0, c)
	if e.ended || s.Chance(1, 2) {
		return
	}
	// The file changes while the node runs: it goes on as it is.
	d := drawSetup(e)
	e.install(0, d)
	n.Env = map[string]string{}
	if c.env != "" {
		n.Env["SARDIR"] = c.env
	}
	e.running(0, c)
	if e.ended {
		return
	}
	// The next start takes the new one.
	n.Crash()
	simrt.Sleep(int64(s.Intn(100)) * Milli)
	e.install(0, d)
	if e.Boot(0) {
		e.running(0, d)
	}
}

// spoil makes a configuration one with which a node must not serve.
func (e *Env) spoil(i int, c *setup) {
	s, n := e.Fault, e.N[i]
	f := n.FS
	redo := func() { c.text = []byte(render(e.Work, c.m, 1, "")) }
	globals := []string{"descriptor", "csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite"}
	switch s.Intn(13) {
	case 0:
		c.text = c.text[:s.Intn(len(strings.TrimRight(string(c.text), " \n")))]
		c.bad = "file cut short"
	case 1:
		c.bad = "no file"
	case 2:
		k := globals[s.Intn(len(globals))]
		v := []string{"maybe", "", "YES", "d8", "yes ", "no,yes", "on", "off", "0", "1", "none,crc32", "null", "true"}[s.Intn(13)]
		c.m[k] = v
		c.bad = fmt.Sprintf("%s is %q", k, v)
		redo()
	case 3:
		k := globals[s.Intn(len(globals))]
		delete(c.m, k)
		c.bad = "no " + k
		redo()
	case 4:
		k := []string{"v4multicast", "v6multicast"}[s.Intn(2)]
		v := []string{"", "nonsense", "10.0.0.9", "fd00::9", "224.0.0", "224.0.0.300", "ff02:::1", "224.0.0.1:7542"}[s.Intn(8)]
		c.m[k] = v
		c.bad = fmt.Sprintf("%s is %q", k, v)
		redo()
	case 5:
		c.bad = "no directory"
		c.dir = fmt.Sprintf("/missing/%d", s.Intn(100))
		if c.env != "" {
			c.env = c.dir
		} else {
			c.m["sardir"] = c.dir
		}
		redo()
	case 6:
		c.bad = "directory is a file"
		c.dir = "/etc/plain"
		if c.env != "" {
			c.env = c.dir
		} else {
			c.m["sardir"] = c.dir
		}
		redo()
	case 7:
		c.bad = "no interface"
		n.IfName = []string{"sim1", "sim", "SIM0", "", "sim00"}[s.Intn(5)]
	case 8:
		op := []string{"open", "read", "chdir", "statfs"}[s.Intn(4)]
		f.Faults = map[string]int{op: 1000}
		c.bad = op + " fails"
	case 9: // something of the wrong kind
		k := keys(c.m)[s.Intn(len(c.m))]
		if k == "unknown" || k == "_comment" {
			k = "stream"
		}
		v := []any{true, []any{}, 17, "text", map[string]any{"a": 1}}[s.Intn(5)]
		switch c.m[k].(type) {
		case string:
			if _, ok := v.(string); ok {
				v = 5
			}
		case float64, int:
			if _, ok := v.(int); ok {
				v = "5"
			}
		case map[string]any:
			if _, ok := v.(map[string]any); ok {
				v = "x"
			}
		}
		c.m[k] = v
		c.bad = fmt.Sprintf("%s is %v", k, v)
		redo()
	case 10:
		bad := []string{"", " ", "{}", "[]", "null", "\"saratoga\"", "17", "{\"port\":", "\x00", "<xml/>"}[s.Intn(10)]
		c.text = []byte(bad)
		c.bad = fmt.Sprintf("file holds %q", bad)
	case 11:
		junk := []string{",", "}", "]", "\"", "x", ":", "{"}[s.Intn(7)]
		k := 1 + s.Intn(len(c.text)-1)
		if s.Chance(1, 3) {
			k = len(c.text)
		}
		t := string(c.text[:k]) + junk + string(c.text[k:])
		var v map[string]any
		if json.Unmarshal([]byte(t), &v) != nil {
			c.text = []byte(t)
			c.bad = fmt.Sprintf("stray %q", junk)
			break
		}
		fallthrough
	case 12:
		delete(obj(c.m, "flags"), "descriptor")
		c.bad = "no descriptor field"
		redo()
	}
}

// refuses starts a node that must not serve and sees to it that it does not.
func (e *Env) refuses(i int, c *setup) {
	n := e.N[i]
	n.Expect = true
	at, out := len(e.Taps), len(e.W.Net.Sent)
	from := n.Starts
	n.Start()
	for k := 0; k < 12 && !e.ended; k++ {
		simrt.Sleep(int64(1+e.Work.Intn(400)) * Milli)
		to := net.UDPAddr{IP: c.v4, Port: c.port}
		if k%2 == 1 {
			to.IP = c.v6
		}
		if to.IP != nil {
			h, ok := layout(c.tab, "beacon", map[string]string{"descriptor": "d32"})
			if ok {
				e.W.Net.Send(host(9, k%2 == 1, c.port), to, refEncode(api.Frame{Kind: "beacon", Header: h, Eid: "anybody?"}))
			}
		}
		if e.ready(i) {
			e.Fail("serves with a bad configuration", "node %d serves although: %s", i, c.bad)
			return
		}
		if !n.Up {
			break
		}
	}
	for _, t := range e.Taps[at:] {
		if t.Node == i && t.Start > from {
			e.Fail("serves with a bad configuration", "node %d handed on a %s although: %s", i, t.F.Kind, c.bad)
			return
		}
	}
	for _, d := range e.W.Net.Sent[out:] {
		if d.Node == i {
			e.Fail("sends with a bad configuration", "node %d sent %x although: %s", i, clipBytes(d.Data, 40), c.bad)
			return
		}
	}
	if n.Up {
		n.Crash()
	}
	e.Count("bad starts", 1)
	e.W.Injected("start with a bad configuration")
}

func badStarts(e *Env) {
	s, n := e.Work, e.N[0]
	rounds := 1 + s.Intn(3)
	if e.Deep {
		rounds = 1 + s.Intn(10)
	}
	for ; rounds > 0 && !e.ended; rounds-- {
		c := drawSetup(e)
		switch e.Fault.Pick(5, 2, 2, 2) {
		case 0:
			e.spoil(0, c)
			e.install(0, c)
			if c.bad == "no file" {
				n.FS.Del("/etc/saratoga.json")
			}
			e.refuses(0, c)
		case 1: // trouble on the disk now and then
			e.install(0, c)
			op := []string{"open", "read", "stat", "chdir", "statfs", ""}[e.Fault.Intn(6)]
			n.FS.Faults = map[string]int{op: 50 + e.Fault.Intn(500)}
			n.FS.ShortRd = 400 * e.Fault.Intn(2)
			at := len(n.FS.Log)
			n.Expect = true
			n.Start()
			up := e.Serving(0, 5*Second)
			failed, any := "", false
			for _, o := range n.FS.Log[at:] {
				any = any || o.Err != ""
				if o.Err != "" && (o.Op == "open" || o.Op == "read" || o.Op == "chdir" || o.Op == "statfs") {
					failed = o.Op
				}
			}
			n.FS.Faults, n.FS.ShortRd = nil, 0
			if e.ended {
				return
			}
			switch {
			case up && failed != "":
				e.Fail("serves although the disk failed", "node 0 serves although %s failed", failed)
			case !up && !any:
				e.Fail("does not serve although nothing failed", "node 0 does not start: %q %v", n.Reason, n.Stderr)
			case up:
				e.running(0, c)
			default:
				e.Count("starts refused", 1)
			}
		case 2: // no sockets
			e.install(0, c)
			e.W.Net.Cfg.DialErr = 100 + e.Fault.Intn(900)
			at := len(e.W.Net.Fails)
			n.Expect = true
			n.Start()
			up := e.Serving(0, 5*Second)
			failed := len(e.W.Net.Fails) > at
			e.W.Net.Cfg.DialErr = 0
			if e.ended {
				return
			}
			switch {
			case n.Up && !up:
				e.Fail("runs without its listeners", "node 0 runs, but does not listen on both groups")
			case !up && !failed:
				e.Fail("does not serve although nothing failed", "node 0 does not start: %q %v", n.Reason, n.Stderr)
			case up:
				e.running(0, c)
			default:
				e.Count("starts refused", 1)
			}
		case 3: // killed while it starts
			e.install(0, c)
			n.Expect = true
			n.Start()
			for k := e.Fault.Intn(400); k > 0 && n.Up; k-- {
				simrt.Yield()
			}
			if e.Fault.Chance(1, 2) {
				simrt.Sleep(int64(e.Fault.Intn(10)) * Milli)
			}
			e.W.Injected("crash while starting")
		}
		if e.ended {
			return
		}
		if n.Up {
			n.Crash()
		}
		simrt.Sleep(int64(s.Intn(200)) * Milli)
		n.FS.Faults, n.FS.ShortRd, n.IfName = nil, 0, "sim0"
		n.Expect = false
	}
	// With a good configuration it serves, whatever happened before.
	c := drawSetup(e)
	e.install(0, c)
	if e.Boot(0) {
		e.running(0, c)
	}
}
