package harness

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P06", Scenario{Name: "requests", Weight: 4, Fn: func(e *Env) { requests(e, false, false) }})
	reg("P06", Scenario{Name: "requests at the same moment", Weight: 4, Fn: func(e *Env) { requests(e, false, true) }})
	reg("P06", Scenario{Name: "requests, restarts and disk errors", Weight: 3, Fn: func(e *Env) { requests(e, true, false) }})
}

// there records when a path existed.
type there struct {
	first  bool
	at     []int64
	exists []bool
}

// could tells whether the path may have been seen existing and missing in a
// span of time.
func (t *there) could(from, to int64) (yes, no bool) {
	if t == nil {
		return false, true
	}
	v := t.first
	for i := range t.at {
		if t.at[i] > to {
			break
		}
		if t.at[i] >= from {
			if v {
				yes = true
			} else {
				no = true
			}
		}
		v = t.exists[i]
	}
	if v {
		yes = true
	} else {
		no = true
	}
	return
}

// witness follows which paths exist on a node's disk.
type witness struct {
	m map[string]*there
}

func (e *Env) watch(i int) *witness {
	w := &witness{m: map[string]*there{}}
	n := e.N[i]
	n.FS.OnOp = func(o simrt.FSOp) {
		if o.Err != "" {
			return
		}
		switch o.Op {
		case "create", "mkdir":
			w.note(o.Path, o.At, true)
		case "remove":
			w.note(o.Path, o.At, false)
		}
	}
	return w
}

func (w *witness) note(p string, at int64, exists bool) {
	t := w.m[p]
	if t == nil {
		t = &there{}
		w.m[p] = t
	}
	t.at = append(t.at, at)
	t.exists = append(t.exists, exists)
}

// where is the path a name in a request stands for.
func where(name string) string { return path.Join(Sardir, "/"+name) }

// asked is a request that was delivered.
type asked struct {
	at    int64
	start int
	d     simrt.Dgram
	f     api.Frame
}

func (a *asked) String() string {
	return fmt.Sprintf("%s of %q from %s", reqName(a.f.Header), a.f.Fname, a.d.Src.String())
}

func reqName(h uint32) string {
	t := int(fReqType.get(h))
	if t < len(reqNames) {
		return reqNames[t]
	}
	return fmt.Sprintf("request type %d", t)
}

func requests(e *Env, hard, race bool) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	w := e.watch(0)
	put := func(name string) {
		p := where(name)
		if n.FS.Get(p) == nil {
			n.FS.Put(p, s.Blob(s.Intn(60)))
			w.note(p, e.W.Now, true)
		}
	}
	del := func(name string) {
		p := where(name)
		if in := n.FS.Get(p); in != nil && !in.IsDir() {
			n.FS.Del(p)
			w.note(p, e.W.Now, false)
		}
	}
	nf := 1 + s.Intn(5)
	called := []string{"f0", "f1", "f2", "f3", "f4"}
	alike := s.Chance(1, 3)
	if alike {
		nf = 2 + s.Intn(4)
		called = []string{"f0", "F0", "f0 ", " f0", "f"}
		for i := range called {
			j := i + s.Intn(len(called)-i)
			called[i], called[j] = called[j], called[i]
		}
	}
	for k := 0; k < nf; k++ {
		if s.Chance(2, 3) {
			put(called[k])
		}
	}
	dirs := []string{"dir", "full"}
	for _, d := range dirs {
		n.FS.MkdirAll(where(d))
		w.note(where(d), e.W.Now, true)
	}
	put("full/x")
	w.note(Sardir, 0, true)
	if !e.Boot(0) {
		return
	}
	var asks []*asked
	boots := []int64{0}
	e.W.Net.OnDeliver = func(k *simrt.Sock, d simrt.Dgram) {
		if k.Node != n || k.Group == nil {
			return
		}
		if v := refDecode(d.Data, n.MTU); v.v == vAccept && v.frame.Kind == "request" {
			asks = append(asks, &asked{at: e.W.Now, start: n.Starts, d: d, f: v.frame})
		}
	}
	e.netFaults(false)
	fname := func() string {
		switch s.Pick(10, 1, 1, 2, 1) {
		case 1:
			return []string{"", ".", "/", "./"}[s.Intn(4)]
		case 2:
			return "missing" + fmt.Sprint(s.Intn(3))
		case 3: // other spellings of the same file
			f := called[s.Intn(nf)]
			return []string{"/", "./", "//", "dir/../", ".//"}[s.Intn(5)] + f
		case 4:
			return []string{"dir", "full", "full/x", "dir/y"}[s.Intn(4)]
		}
		return called[s.Intn(nf)]
	}
	var sentReq []api.Frame
	if !hard && !race && s.Chance(1, 100) { // very many sessions
		for _, f := range []string{called[0], "full/x"} {
			put(f)
		}
		many := 30 + s.Intn(120)
		if e.Deep {
			many = 30 + s.Intn(400)
		}
		for k := 0; k < many && !e.ended; k++ {
			typ := []uint32{1, 1, 1, 3, 6}[s.Intn(5)]
			e.send(host(1+s.Intn(3), s.Chance(1, 4), Port), frameReq(uint32(100+k), typ, []string{called[0], "full/x", "full"}[s.Intn(3)]))
			if s.Chance(1, 3) {
				simrt.Sleep(int64(s.Intn(30)) * Milli)
			}
		}
		simrt.Sleep(e.W.Net.Cfg.DelayMax + Second)
		for k := 2 + s.Intn(20); k > 0 && len(asks) > 0 && !e.ended; k-- {
			a := asks[s.Intn(len(asks))]
			if s.Chance(1, 3) {
				a = asks[[]int{0, len(asks) - 1}[s.Intn(2)]]
			}
			e.send(a.d.Src, a.d.Data)
			simrt.Sleep(int64(s.Intn(30)) * Milli)
		}
		e.Count("crowds of sessions", 1)
	}
	if race {
		e.cleanNet()
		e.W.Net.Cfg.DelayMax = 0
		for k := 3 + s.Intn(8); k > 0 && !e.ended; k-- {
			f := called[s.Intn(nf)]
			if s.Chance(1, 2) {
				put(f)
			}
			typ, sess := uint32(1+s.Intn(6)), uint32(s.Intn(4))
			if s.Chance(1, 3) {
				typ = 5
			}
			for c := 2 + s.Intn(4); c > 0; c-- {
				if s.Chance(1, 4) {
					typ = uint32(1 + s.Intn(6))
				}
				if s.Chance(1, 4) {
					sess = uint32(s.Intn(4))
				}
				if s.Chance(1, 8) {
					f = called[s.Intn(nf)]
				}
				e.send(host(1+s.Pick(5, 1), s.Chance(1, 4), Port), frameReq(sess, typ, f))
			}
			simrt.Sleep(int64(s.Pick(3, 1)) * int64(s.Intn(8)) * Milli)
		}
		if e.ended || !e.drain(0) {
			return
		}
		e.checkRequests(asks, w, boots)
		return
	}
	rounds := 1
	if hard {
		rounds = 1 + s.Intn(3)
	}
	for r := 0; r < rounds && !e.ended; r++ {
		if hard && s.Chance(1, 2) {
			n.FS.Faults["remove"] = []int{1000, 300}[s.Intn(2)]
		}
		k := 2 + s.Intn(16)
		if e.Deep {
			k = 2 + s.Intn(80)
		}
		for ; k > 0 && !e.ended; k-- {
			from := host(1+s.Intn(2), s.Chance(1, 4), 7542+s.Pick(4, 1))
			switch s.Pick(10, 4, 3, 1, 1) {
			case 0:
				h := header(tRequest, fDesc, uint32(s.Intn(3)), fTx, uint32(3), fRx, uint32(3), fReqType, uint32(1+s.Intn(6)))
				switch s.Pick(12, 1, 1, 2, 2, 2) {
				case 1:
					h = fStream.set(h, 1)
				case 2:
					h = fUlite.set(h, 1)
				case 3:
					h = fTx.set(h, uint32(s.Intn(4)))
				case 4:
					h = fRx.set(h, uint32(s.Intn(4)))
				case 5:
					h = fReqType.set(h, []uint32{0, 7, 8, 128, 255, uint32(s.Intn(256))}[s.Intn(6)])
				}
				f := api.Frame{Kind: "request", Header: h, Session: uint32(s.Intn(6)), Fname: fname()}
				if alike {
					f.Session %= 3
					if s.Chance(1, 2) {
						f.Fname = called[s.Intn(nf)]
					}
				}
				if s.Chance(1, 6) {
					f.Session = s.U32()
				}
				if s.Chance(1, 6) {
					f.Auth = s.Bytes(1 + s.Intn(8))
				}
				sentReq = append(sentReq, f)
				e.send(from, refEncode(f))
			case 1: // once more
				if len(sentReq) > 0 {
					f := sentReq[s.Intn(len(sentReq))]
					if s.Chance(1, 4) || alike && s.Chance(1, 2) { // same session, something else
						f.Fname = fname()
						if !alike || s.Chance(1, 2) {
							f.Header = fReqType.set(f.Header, uint32(1+s.Intn(6)))
						}
					}
					for c := s.Intn(3); c >= 0; c-- {
						e.send(from, refEncode(f))
					}
				}
			case 2: // the files change
				f := called[s.Intn(nf)]
				if s.Chance(1, 2) {
					put(f)
				} else {
					del(f)
				}
			case 3: // other traffic
				x := kinds[[]int{0, 2, 3, 4}[s.Intn(4)]]
				e.send(host(9, false, Port), refEncode(frame(s, x, n.MTU-60)))
			case 4:
				c := someCmd2(s, nf)
				e.wiped = e.wiped || c == "clear"
				e.Cmd(0, c)
			}
			if s.Chance(1, 2) {
				simrt.Sleep(int64(s.Intn(30)) * Milli)
			}
		}
		if hard && r < rounds-1 {
			if s.Chance(1, 2) {
				simrt.Sleep(int64(s.Intn(60)) * Milli)
			} else if !e.drain(0) {
				return
			}
			n.Crash()
			boots = append(boots, e.W.Now)
			simrt.Sleep(1)
			n.FS.Faults = map[string]int{}
			if !e.Boot(0) {
				return
			}
		}
	}
	if e.ended || !e.drain(0) {
		return
	}
	e.checkRequests(asks, w, boots)
}

// someCmd2 draws a command that does not get in the way.
func someCmd2(s *simrt.Stream, nf int) string {
	switch s.Intn(4) {
	case 0:
		return fmt.Sprintf("get 10.0.1.%d f%d", 20+s.Intn(2), s.Intn(nf))
	case 1:
		return changes[s.Intn(len(changes))]
	}
	return queries[s.Intn(23)]
}

func key(f api.Frame, d simrt.Dgram) string { return fmt.Sprintf("%s/%d", d.Src.String(), f.Session) }

func (e *Env) checkRequests(asks []*asked, w *witness, boots []int64) {
	n := e.N[0]
	for start := 1; start <= n.Starts; start++ {
		last := start == n.Starts
		groups := map[string][]*asked{}
		for _, a := range asks {
			if a.start == start {
				k := key(a.f, a.d)
				groups[k] = append(groups[k], a)
			}
		}
		answers := map[string][]Tapped{}
		for _, t := range e.Taps {
			if t.Start != start || t.F.Kind != "status" {
				continue
			}
			k := fmt.Sprintf("%s/%d", t.F.Addr.String(), t.F.Session)
			if groups[k] == nil {
				if t.F.Addr.IP.String() == "10.0.1.9" {
					continue // not about a request
				}
				e.Fail("answer to nothing", "status for %s code %s, no request came from there with this session", k, codeName(t.F))
				return
			}
			if len(t.F.Holes) > 0 {
				e.Fail("answer with holes", "the answer to %s has holes %v", groups[k][0], t.F.Holes)
				return
			}
			answers[k] = append(answers[k], t)
		}
		removes, failed := map[string]int{}, map[string]int{}
		for _, o := range n.FS.Log {
			if o.Op == "remove" && o.At >= boots[start-1] && (last || o.At <= boots[start]) {
				if o.Err == "" {
					removes[o.Path]++
				} else {
					failed[o.Path]++
				}
			}
		}
		var got []api.RxTran
		if last {
			if !n.Do("transfers", 60*Second, func() { got = e.B[0].RxTrans() }) {
				if !e.ended {
					e.Fail("transfers not readable", "the list of received transfers cannot be read: %s", e.W.BlockedReport(n))
				}
				return
			}
		}
		recorded := map[string]api.RxTran{}
		for _, t := range got {
			k := fmt.Sprintf("%s/%d", t.Peer, t.Session)
			if o, dup := recorded[k]; dup {
				e.Fail("two transfers in a session", "two transfers are recorded for %s: %s %q and %s %q", k, o.Ttype, o.Filename, t.Ttype, t.Filename)
				return
			}
			recorded[k] = t
			if groups[k] == nil {
				e.Fail("transfer of nobody", "a transfer %s %q is recorded for %s, which sent no request", t.Ttype, t.Filename, k)
				return
			}
		}
		for _, k := range keys(groups) {
			g, an := groups[k], answers[k]
			if len(an) > len(g) || last && len(an) != len(g) {
				var l []string
				for _, t := range an {
					l = append(l, codeName(t.F))
				}
				e.Fail(fmt.Sprintf("not one answer per request: %s", moreOrLess(len(an), len(g))), "%d requests (%s) in session %s got %d answers (%s)", len(g), g[0], k, len(an), strings.Join(l, ","))
				return
			}
			e.Count("requests judged", int64(len(an)))
			if why := e.truthful(g, an, w, failed, recorded, last); why != "" {
				e.Fail("answer not truthful: "+sigOf(why), "session %s: %s", k, why)
				return
			}
			// A transfer is recorded exactly when one was started.
			if last {
				ok := false
				for _, t := range an {
					if fErr.get(t.F.Header) == 0 {
						for _, a := range g {
							if rt := reqName(a.f.Header); rt != "delete" {
								ok = true
							}
						}
					}
				}
				t, have := recorded[k]
				if have {
					match := false
					for _, a := range g {
						if reqName(a.f.Header) == t.Ttype && a.f.Fname == t.Filename {
							match = true
						}
					}
					if !match || !ok {
						e.Fail("wrong transfer recorded", "session %s: transfer %s %q is recorded for %s answered %s", k, t.Ttype, t.Filename, g[0], codeName(an[0].F))
						return
					}
					e.Count("transfers recorded", 1)
				}
				if !have && e.mustRecord(g, an) {
					e.Fail("no transfer recorded", "session %s: %s was answered with success, no transfer is recorded", k, g[0])
					return
				}
				if have && t.Ttype == "delete" {
					e.Fail("transfer recorded for a deletion", "session %s", k)
					return
				}
			}
		}
		if last { // the operator is told of the requests that were granted
			granted := map[string]int{}
			for _, k := range keys(answers) {
				for _, t := range answers[k] {
					if fErr.get(t.F.Header) == 0 {
						granted[t.F.Addr.String()]++
					}
				}
			}
			told := map[string]int{}
			for _, l := range e.View(0, "msg") {
				if i := strings.Index(l, "transfer request from "); i >= 0 {
					a := strings.Fields(l[i+len("transfer request from "):] + " -")[0]
					told[a]++
					if granted[a] == 0 {
						granted[a] = 0
					}
				}
			}
			for _, a := range keys(granted) {
				if told[a] > granted[a] || told[a] < granted[a] && !e.wiped {
					e.Fail("operator not told truly", "%d requests of %s were answered with success, the operator was told of %d", granted[a], a, told[a])
					return
				}
			}
			e.Count("announcements", int64(len(granted)))
		}
		{ // deletions answered with success against removals
			okDel, maybe := map[string]int{}, map[string]int{}
			for _, k := range keys(groups) {
				g := groups[k]
				mixed := false
				for _, a := range g {
					if reqName(a.f.Header) != "delete" || where(a.f.Fname) != where(g[0].f.Fname) {
						mixed = true
					}
				}
				for _, t := range answers[k] {
					if fErr.get(t.F.Header) != 0 {
						continue
					}
					if mixed {
						for _, a := range g {
							maybe[where(a.f.Fname)]++
						}
						break
					}
					okDel[where(g[0].f.Fname)]++
				}
				if mixed {
					for _, a := range g {
						maybe[where(a.f.Fname)] += len(answers[k])
					}
				}
			}
			paths := map[string]bool{}
			for p := range okDel {
				paths[p] = true
			}
			for p := range removes {
				paths[p] = true
			}
			for _, p := range keys(paths) {
				if okDel[p] > removes[p] || last && okDel[p]+maybe[p] < removes[p] {
					e.Fail("deletion reported wrongly", "%s: %d deletions reported as success, it was removed %d times", p, okDel[p], removes[p])
					return
				}
			}
			e.Count("paths with deletions", int64(len(okDel)))
		}
	}
}

func moreOrLess(a, b int) string {
	if a < b {
		return "missing"
	}
	return "too many"
}

func codeName(f api.Frame) string {
	c := int(fErr.get(f.Header))
	if c < len(errNames) {
		return errNames[c]
	}
	return fmt.Sprintf("code %d", c)
}

func sigOf(why string) string {
	if i := strings.Index(why, ";"); i >= 0 {
		return why[:i]
	}
	return why
}

// mustRecord tells whether the answers show that a transfer was started.
func (e *Env) mustRecord(g []*asked, an []Tapped) bool {
	ok := 0
	for _, t := range an {
		if fErr.get(t.F.Header) == 0 {
			ok++
		}
	}
	dels := 0
	for _, a := range g {
		if reqName(a.f.Header) == "delete" {
			dels++
		}
	}
	return ok > dels
}

// truthful matches the answers of a session with its requests; an answer must
// be one that is true for its request. It returns why that is not possible.
func (e *Env) truthful(g []*asked, an []Tapped, w *witness, failed map[string]int, recorded map[string]api.RxTran, last bool) string {
	// allowed[i][j]: answer j can be that of request i.
	bad := ""
	allowed := make([][]bool, len(g))
	for i, a := range g {
		allowed[i] = make([]bool, len(an))
		for j, t := range an {
			why := ""
			if t.At < a.at {
				why = "answer before the request"
			} else {
				why = e.answerOK(a, t, g, an, w, failed)
			}
			allowed[i][j] = why == ""
			if why != "" && bad == "" {
				bad = why
			}
		}
	}
	// Answers to requests: a matching that covers all answers.
	match := make([]int, len(g))
	for i := range match {
		match[i] = -1
	}
	var try func(j int, seen []bool) bool
	try = func(j int, seen []bool) bool {
		for i := range g {
			if allowed[i][j] && !seen[i] {
				seen[i] = true
				if match[i] < 0 || try(match[i], seen) {
					match[i] = j
					return true
				}
			}
		}
		return false
	}
	order := make([]int, len(an))
	for j := range order {
		order[j] = j
	}
	sort.Ints(order)
	for _, j := range order {
		if !try(j, make([]bool, len(g))) {
			for i, a := range g {
				if why := e.answerOK(a, an[j], g, an, w, failed); why != "" && an[j].At >= a.at && !allowed[i][j] {
					return why
				}
			}
			return bad
		}
	}
	return ""
}

// answerOK tells why an answer cannot be true for a request.
func (e *Env) answerOK(a *asked, t Tapped, g []*asked, an []Tapped, w *witness, failed map[string]int) string {
	h := a.f.Header
	code := codeName(t.F)
	typ := reqName(h)
	p := where(a.f.Fname)
	yes, no := w.m[p].could(a.at, t.At)
	rx, tx := willNames[fRx.get(h)], willNames[fTx.get(h)]
	must := map[string]bool{} // errors that apply for certain
	may := map[string]bool{}  // errors that may apply
	if fUlite.get(h) != 0 || fStream.get(h) != 0 {
		must["badrequest"] = true
	}
	if rx == "invalid" {
		must["cantreceive"] = true
	}
	if tx == "invalid" {
		must["cantsend"] = true
	}
	tri := func(name string, possible, certain bool) {
		if certain {
			must[name] = true
		}
		if possible {
			may[name] = true
		}
	}
	switch typ {
	case "get", "take", "getdir":
		if rx != "yes" {
			must["cantreceive"] = true
		}
		tri("filenotfound", no, no && !yes)
	case "put", "give":
		if tx != "yes" {
			must["cantsend"] = true
		}
		tri("fileinuse", yes, yes && !no)
	case "delete":
		tri("filenotfound", no, no && !yes)
		if failed[p] > 0 || p == Sardir {
			may["didnotdelete"], may["accessdenied"] = true, true
		}
		if p == Sardir {
			must["didnotdelete"], must["accessdenied"], must["badrequest"], must["filenotfound"] = true, true, true, true
		}
		if w.m[p] != nil && yes && no { // someone else was faster
			may["didnotdelete"] = true
		}
	default:
		must["badrequest"] = true
	}
	if typ == "getdir" || typ == "get" || typ == "take" { // of the other kind
		if in := e.N[0].FS.Get(p); in != nil && in.IsDir() != (typ == "getdir") {
			may["badrequest"], may["filenotfound"] = true, true
		}
	}
	// The session may be another transfer's.
	if typ != "delete" {
		other, sure := false, false
		for _, b := range g {
			if b != a && (reqName(b.f.Header) != typ || b.f.Fname != a.f.Fname) && reqName(b.f.Header) != "delete" {
				other = true
			}
		}
		// Certainly another's when the first answer, a success, was given
		// before this request came and nothing like this one was there then.
		for _, x := range an {
			if fErr.get(x.F.Header) != 0 || x.At >= a.at {
				continue
			}
			all := true
			for _, b := range g {
				if b.at <= x.At && (reqName(b.f.Header) == typ && b.f.Fname == a.f.Fname || reqName(b.f.Header) == "delete") {
					all = false
				}
			}
			if all {
				sure = true
			}
		}
		tri("badrequest", other, sure)
	}
	if code == "success" {
		if len(must) > 0 {
			return fmt.Sprintf("%s answered success though %s applies; %s", typ, strings.Join(keys(must), "/"), a)
		}
		return ""
	}
	if must[code] || may[code] {
		return ""
	}
	if len(must) > 0 {
		return fmt.Sprintf("%s answered %s where %s applies; %s", typ, code, strings.Join(keys(must), "/"), a)
	}
	return fmt.Sprintf("%s answered %s though nothing speaks against it; %s", typ, code, a)
}
