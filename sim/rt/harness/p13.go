package harness

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P13", Scenario{Name: "transfer commands at once", Weight: 4, Fn: func(e *Env) { transfers(e, false) }})
	reg("P13", Scenario{Name: "transfer commands with failing peers, files and crashes", Weight: 4, Fn: func(e *Env) { transfers(e, true) }})
}

// begun is a command that starts a transfer.
type begun struct {
	tag           int
	ttype, file   string
	peer          string // as listed
	from, to      int64
	direct        bool
	cmd           *Command
	task          *simrt.Task
	t             api.Tran
	err           error
	phase         int
	certain, none bool // an entry has to be there, must not be there
	why           string
	entry         *entry
}

func (b *begun) key() string    { return b.file + " " + b.peer }
func (b *begun) String() string { return fmt.Sprintf("%s of %s with %s", b.ttype, b.file, b.peer) }

// entry is a transfer that was seen in the list.
type entry struct {
	t       api.Tran
	session uint32
	peer    string
	ttype   string
	file    string
	by      *begun
	// It was in the list at some moment not after first, was asked to be
	// removed not before wanted and was removed not after gone.
	first, wanted, gone int64
	tries               int  // removals begun
	loose               bool // lost its connection, may go at any time
	size                uint64
	inFlight            int
}

const never = int64(1) << 62

type registry struct {
	e     *Env
	ent   []*entry
	begun []*begun
	sess  map[uint32]*entry
	ev    []fileEvent
	phase int
	start int64
}

type fileEvent struct {
	at     int64
	tag    int
	path   string
	exists bool
}

// others tells whether a path existed, and whether it was missing, at some
// moment of a span, apart from what the tag did.
func (r *registry) others(p string, from, to int64, tag int, now bool) (yes, no bool) {
	v := now // state at the end, walked backwards
	for i := len(r.ev) - 1; i >= 0; i-- {
		x := r.ev[i]
		if x.path != p {
			continue
		}
		if x.at <= to && x.tag != tag {
			if v {
				yes = true
			} else {
				no = true
			}
		}
		if x.at < from {
			return
		}
		v = !x.exists
		if x.at <= to {
			if v {
				yes = true
			} else {
				no = true
			}
		}
	}
	if v {
		yes = true
	} else {
		no = true
	}
	return
}

func (r *registry) see(t api.Tran) *entry {
	for _, x := range r.ent {
		if x.t.Same(t) {
			return x
		}
	}
	x := &entry{t: t, session: t.Session(), peer: t.Peer(), ttype: t.Ttype(), file: t.Filename(), first: r.e.W.Now, wanted: never, gone: never}
	r.ent = append(r.ent, x)
	if o := r.sess[x.session]; o != nil {
		r.e.Fail("session used twice", "session %d is given to a %s of %s with %s and to a %s of %s with %s", x.session, o.ttype, o.file, o.peer, x.ttype, x.file, x.peer)
		return x
	}
	r.sess[x.session] = x
	if !t.Direction() {
		r.e.Fail("not an initiator", "the transfer a command started (%s of %s) is not listed as initiated here", x.ttype, x.file)
	}
	return x
}

// snapshot looks at the list.
func (r *registry) snapshot(l []api.Tran, from int64) {
	e := r.e
	seen := map[string]api.Tran{}
	for i, t := range l {
		x := r.see(t)
		if x.session != t.Session() || x.peer != t.Peer() || x.ttype != t.Ttype() || x.file != t.Filename() {
			e.Fail("transfer changed", "the %s of %s with %s session %d has become a %s of %s with %s session %d", x.ttype, x.file, x.peer, x.session, t.Ttype(), t.Filename(), t.Peer(), t.Session())
			return
		}
		if x.gone < from {
			e.Fail("removed transfer listed", "the %s of %s with %s session %d is listed although it was removed", x.ttype, x.file, x.peer, x.session)
			return
		}
		k := x.file + " " + x.peer
		if o := seen[k]; o != nil {
			e.Fail("two transfers of a file with a peer", "the list holds two transfers of %s with %s: %s session %d and %s session %d", x.file, x.peer, o.Ttype(), o.Session(), x.ttype, x.session)
			return
		}
		seen[k] = t
		for _, o := range l[:i] {
			if o.Same(t) {
				e.Fail("transfer listed twice", "%s of %s with %s session %d is twice in the list", x.ttype, x.file, x.peer, x.session)
				return
			}
		}
	}
}

// look takes a snapshot on a task of the node.
func (r *registry) look() {
	var l []api.Tran
	from := r.e.W.Now
	l = r.e.B[0].Trans()
	if r.e.ended {
		return
	}
	r.snapshot(l, from)
	for _, x := range r.ent {
		if x.first < from && x.wanted > r.e.W.Now && !hasTran(l, x.t) && !r.e.ended {
			r.e.Fail("transfer vanished", "the %s of %s with %s session %d is no longer listed, nothing removed it", x.ttype, x.file, x.peer, x.session)
		}
	}
}

func hasTran(l []api.Tran, t api.Tran) bool {
	for _, o := range l {
		if o.Same(t) {
			return true
		}
	}
	return false
}

var tranTypes = []string{"get", "take", "getdir", "put", "give", "putblind", "delete"}

func transfers(e *Env, hard bool) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	fs := n.FS
	r := &registry{e: e, sess: map[uint32]*entry{}}
	fs.OnOp = func(o simrt.FSOp) {
		if o.Err == "" && (o.Op == "create" || o.Op == "mkdir" || o.Op == "remove") {
			r.ev = append(r.ev, fileEvent{o.At, o.Tag, o.Path, o.Op != "remove"})
		}
	}
	nf := 2 + s.Intn(5)
	names := []string{"f0", "f1", "f2", "f3", "f4", "f5", "f6"}
	if s.Chance(1, 2) { // alike
		names = []string{"f0", "F0", "f", "f00", "0f", "f0.", "é"}
		for i := range names {
			j := i + s.Intn(len(names)-i)
			names[i], names[j] = names[j], names[i]
		}
	}
	crowd := s.Chance(1, 100) // very many transfers
	if crowd {
		for k := 0; k < 100; k++ {
			names = append(names, fmt.Sprintf("g%d", k))
		}
		nf = len(names)
	}
	for k := 0; k < nf; k++ {
		if s.Chance(1, 2) {
			fs.Put(Sardir+"/"+names[k], []byte("local"))
		}
	}
	if !e.Boot(0) {
		return
	}
	peers := []string{"10.0.1.1", []string{"10.0.1.2", "10.0.1.11"}[s.Intn(2)], "fd00::101", "fd00:0:0::101", []string{"fd00::102", "fd00::1011", "fe80::101%sim0"}[s.Intn(3)]}
	listed := map[string]string{"10.0.1.1": "10.0.1.1:7542", "10.0.1.2": "10.0.1.2:7542", "fd00::101": "[fd00::101]:7542", "fd00:0:0::101": "[fd00::101]:7542", "fd00::102": "[fd00::102]:7542",
		"10.0.1.11": "10.0.1.11:7542", "fd00::1011": "[fd00::1011]:7542", "fe80::101%sim0": "[fe80::101%sim0]:7542"}
	phases := 2 + s.Intn(4)
	if e.Deep {
		phases = 2 + s.Intn(25)
	}
	hot := s.Chance(1, 3) // everybody wants the same
	for r.phase = 1; r.phase <= phases && !e.ended; r.phase++ {
		if hard {
			e.W.Net.Cfg.DialErr = []int{0, 0, 200, 600, 1000}[s.Intn(5)]
			fs.Faults = map[string]int{}
			if s.Chance(1, 2) {
				op := []string{"open", "create", "mkdir", "stat", "lstat", "openw", "chdir", ""}[s.Intn(8)]
				fs.Faults[op] = []int{150, 500, 1000}[s.Intn(3)]
			}
		}
		r.start = e.W.Now
		simrt.Sleep(Milli)
		var wait []*simrt.Task
		var cmds []*Command
		lists := 0
		k := 1 + s.Intn(6)
		if e.Deep {
			k = 1 + s.Intn(20)
		}
		if crowd && r.phase == 1 {
			k = 100 + s.Intn(300)
			e.Count("crowds of transfers", 1)
		}
		hf, hp := s.Intn(nf), s.Intn(len(peers))
		for ; k > 0 && !e.ended; k-- {
			f := names[s.Intn(nf)]
			p := peers[s.Intn(len(peers))]
			if hot && s.Chance(2, 3) {
				f, p = names[hf], peers[hp]
			}
			what := s.Pick(21, 9, 9, 6, 6, 6, 3, 6, 3, 1)
			if crowd && r.phase == 1 && s.Chance(5, 6) {
				what = s.Intn(2)
			}
			switch what {
			case 0: // a command
				b := &begun{ttype: tranTypes[s.Intn(len(tranTypes))], file: f, peer: listed[p], from: e.W.Now, to: never, phase: r.phase}
				b.cmd = e.Cmd(0, fmt.Sprintf("%s %s %s", b.ttype, p, f))
				b.tag = b.cmd.Tag
				r.begun = append(r.begun, b)
				cmds = append(cmds, b.cmd)
			case 1: // the same without the operator
				b := &begun{ttype: tranTypes[s.Intn(len(tranTypes))], file: f, peer: listed[p], from: e.W.Now, to: never, phase: r.phase, direct: true}
				e.tag++
				b.tag = e.tag
				wait = append(wait, r.initiate(b, p))
			case 2: // removal of a transfer by what was obtained
				if x := r.pick(s); x != nil {
					wait = append(wait, r.remove(x))
				}
			case 3: // removal by the operator
				if x := r.pick(s); x != nil {
					typ, peer, sess := x.ttype, x.peer, fmt.Sprint(x.session)
					hit := true
					switch s.Pick(6, 1, 1, 1, 1) {
					case 1:
						peer, hit = "10.0.1.77:7542", false
					case 2:
						sess, hit = fmt.Sprint(x.session+1000000), false
					case 3:
						sess, hit = []string{"-1", "x", "4294967296", "", fmt.Sprint(uint64(x.session) + 1<<32)}[s.Intn(5)], false
					case 4:
						peer, hit = peer+"0", false
					}
					c := e.Cmd(0, fmt.Sprintf("rmtran %s %s %s", typ, peer, sess))
					cmds = append(cmds, c)
					if hit {
						if x.wanted == never {
							x.wanted = e.W.Now
						}
						x.tries++
						e.Count("removals", 1)
						e.W.Spawn(nil, "removal", func() {
							if simrt.Wait(2*Milli, 60*Second, func() bool { return e.ended || c.Done() || !n.Up }) && !e.ended && n.Up && x.gone == never {
								x.gone = e.W.Now
							}
						})
					}
				}
			case 4: // lookups
				if x := r.pick(s); x != nil {
					wait = append(wait, r.lookup(x))
				}
			case 5: // information about the remote file arrives
				if x := r.pick(s); x != nil && x.inFlight == 0 {
					wait = append(wait, r.change(x))
				}
			case 6: // the list is looked at
				wait = append(wait, n.Go("look", r.look))
			case 7: // a listing
				if lists == 0 {
					lists++
					wait = append(wait, r.listing(s))
				}
			case 8: // local files come and go
				q := where(f)
				if in := fs.Get(q); in == nil {
					fs.Put(q, []byte("local"))
					r.ev = append(r.ev, fileEvent{e.W.Now, 0, q, true})
				} else if !in.IsDir() {
					fs.Del(q)
					r.ev = append(r.ev, fileEvent{e.W.Now, 0, q, false})
				}
			case 9: // a connection is lost
				if x := r.pick(s); x != nil && x.gone == never && x.inFlight == 0 {
					x.loose = true
					if x.wanted == never {
						x.wanted = e.W.Now
					}
					x.t.DropConn()
					e.Count("connections lost", 1)
				}
			}
			if s.Chance(1, 3) {
				simrt.Sleep(int64(s.Intn(4)) * Milli)
			}
		}
		if hard && s.Chance(1, 8) {
			simrt.Sleep(int64(s.Intn(3)) * Milli)
			n.Crash()
			fs.Faults, e.W.Net.Cfg.DialErr = map[string]int{}, 0
			simrt.Sleep(Milli)
			if !e.Boot(0) {
				return
			}
			r.ent, r.begun, r.sess = nil, nil, map[uint32]*entry{}
			if !n.Do("look", 60*Second, func() {
				if l := e.B[0].Trans(); len(l) > 0 {
					e.Fail("transfers after a restart", "%d transfers are listed after a restart", len(l))
				}
			}) && !e.ended {
				e.Fail("list not readable", "the list of transfers cannot be read: %s", e.W.BlockedReport(n))
			}
			e.Count("crashes", 1)
			continue
		}
		if !simrt.Wait(2*Milli, 60*Second, func() bool {
			for _, t := range wait {
				if !t.Done() {
					return e.ended
				}
			}
			for _, c := range cmds {
				if !c.Taken {
					return e.ended
				}
			}
			return e.ended || e.idle(0)
		}) {
			e.Fail("transfer command blocks", "transfer commands do not finish: %s", e.W.BlockedReport(n))
		}
		simrt.Sleep(10 * Milli)
		if e.ended {
			return
		}
		fs.Faults, e.W.Net.Cfg.DialErr = map[string]int{}, 0
		if !r.settle() {
			return
		}
	}
}

// pick draws a transfer that was seen.
func (r *registry) pick(s *simrt.Stream) *entry {
	if len(r.ent) == 0 {
		return nil
	}
	if s.Chance(2, 3) { // rather one that is listed
		var l []*entry
		for _, x := range r.ent {
			if x.gone == never {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			return l[s.Intn(len(l))]
		}
	}
	return r.ent[s.Intn(len(r.ent))]
}

func (r *registry) initiate(b *begun, p string) *simrt.Task {
	e := r.e
	r.begun = append(r.begun, b)
	return e.N[0].Go("initiate", func() {
		simrt.Cur().Tag = b.tag
		a, err := e.B[0].UDPAddress(p)
		if err != nil {
			e.Fail("address refused", "the address %s is refused: %v", p, err)
			return
		}
		b.t, b.err = e.B[0].NewInitiator(e.Gui(0), b.ttype, a, b.file)
		b.to = e.W.Now
		if e.ended {
			return
		}
		if (b.err == nil) != (b.t != nil) {
			e.Fail("neither transfer nor error", "%s gives transfer %v and error %v", b, b.t != nil, b.err)
			return
		}
		if b.t != nil {
			x := r.see(b.t)
			if x.by != nil {
				e.Fail("transfer given twice", "%s gives the transfer of another command", b)
				return
			}
			x.by, b.entry = b, x
			if x.ttype != b.ttype || x.peer != b.peer || x.file != b.file {
				e.Fail("other transfer", "%s gives a %s of %s with %s", b, x.ttype, x.file, x.peer)
				return
			}
			if x.session == 0 {
				e.Fail("no session", "%s has no session", b)
				return
			}
			if !b.t.HasConn() {
				e.Fail("transfer without connection", "%s is listed without a connection to its peer", b)
			}
		}
	})
}

func (r *registry) remove(x *entry) *simrt.Task {
	e := r.e
	return e.N[0].Go("remove", func() {
		from := e.W.Now
		earlier := x.wanted != never
		x.tries++
		if x.wanted == never {
			x.wanted = from
		}
		err := x.t.Remove()
		e.Count("removals", 1)
		if e.ended {
			return
		}
		if err == nil && x.gone < from {
			e.Fail("removed twice", "removing the %s of %s with %s session %d succeeds, it was removed before", x.ttype, x.file, x.peer, x.session)
			return
		}
		if err != nil && !earlier && !x.loose && x.tries == 1 && x.first < from {
			e.Fail("not removed", "removing the %s of %s with %s session %d fails: %v", x.ttype, x.file, x.peer, x.session, err)
			return
		}
		if x.gone == never {
			x.gone = e.W.Now
		}
	})
}

func (r *registry) lookup(x *entry) *simrt.Task {
	e := r.e
	s := e.Work
	kind := s.Pick(4, 4, 1, 1, 1, 1)
	return e.N[0].Go("lookup", func() {
		from := e.W.Now
		b := e.B[0]
		var t api.Tran
		var ok bool
		want := true
		switch kind {
		case 0:
			t, ok = b.Lookup(true, x.session, x.peer)
		case 1:
			t, ok = b.Match(x.peer, x.session)
		case 2:
			t, ok = b.Lookup(false, x.session, x.peer)
			want = false
		case 3:
			t, ok = b.Lookup(true, x.session+1000000, x.peer)
			want = false
		case 4:
			t, ok = b.Match("10.0.1.77:7542", x.session)
			want = false
		case 5:
			t, ok = b.Lookup(true, x.session, x.peer+"0")
			want = false
		}
		e.Count("lookups", 1)
		if e.ended {
			return
		}
		switch {
		case ok && !want:
			e.Fail("wrong transfer found", "looking up something that is not there finds the %s of %s with %s session %d", t.Ttype(), t.Filename(), t.Peer(), t.Session())
		case ok && !t.Same(x.t):
			e.Fail("other transfer found", "looking up session %d with %s finds the %s of %s with %s session %d, which is not the one listed", x.session, x.peer, t.Ttype(), t.Filename(), t.Peer(), t.Session())
		case ok && x.gone < from:
			e.Fail("removed transfer found", "session %d with %s is found although it was removed", x.session, x.peer)
		case !ok && want && x.first < from && x.wanted > e.W.Now:
			e.Fail("listed transfer not found", "session %d with %s is not found although it is listed", x.session, x.peer)
		}
	})
}

// change is a task that looks a transfer up and changes it.
func (r *registry) change(x *entry) *simrt.Task {
	e := r.e
	s := e.Work
	x.inFlight++
	if x.size == 0 {
		x.size = uint64(1 + s.Intn(2000))
	}
	two := s.Chance(1, 3)
	var fr []api.Frame
	for k := 0; k < 2; k++ {
		f := frame(s, "metadata", 400)
		f.Session = x.session
		f.Dir.Size = x.size
		f.Header = fDesc.set(f.Header, 2)
		fr = append(fr, f)
	}
	odd := s.Chance(1, 3)
	bad := frame(s, "metadata", 400)
	bad.Session = x.session
	bad.Dir.Size = x.size + uint64(1+s.Intn(1000))
	bad.Header = fDesc.set(bad.Header, 2)
	return e.N[0].Go("change", func() {
		defer func() { x.inFlight-- }()
		t, ok := e.B[0].Match(x.peer, x.session)
		if e.ended || !ok {
			return
		}
		pr := uint64(simrt.Cur().ID) * 1000
		t.SetState(pr, pr/2, nil)
		var done []*simrt.Task
		var good []int
		n := 1
		if two {
			n = 2
		}
		for k := 0; k < n; k++ {
			k := k
			done = append(done, e.N[0].Go("change", func() {
				d, c, err := t.Change(e.Gui(0), refEncode(fr[k]))
				if err == nil && !e.ended {
					good = append(good, k)
					fr[k].Dir, fr[k].Checksum = d, c
				} else if err != nil && strings.Contains(err.Error(), "iffer") {
					e.Fail("change refused", "metadata with the same size as before is refused: %v", err)
				}
			}))
		}
		if !simrt.Wait(Milli, 60*Second, func() bool {
			for _, d := range done {
				if !d.Done() {
					return e.ended
				}
			}
			return true
		}) || e.ended {
			return
		}
		from := e.W.Now
		o, ok := e.B[0].Lookup(true, x.session, x.peer)
		if e.ended {
			return
		}
		if !ok {
			if x.wanted > e.W.Now && x.first < from {
				e.Fail("listed transfer not found", "session %d with %s is not found although it is listed", x.session, x.peer)
			}
			return
		}
		if o.Progress() != pr {
			e.Fail("change lost", "the progress of session %d was set to %d and is %d", x.session, pr, o.Progress())
			return
		}
		if len(good) == 0 {
			return
		}
		e.Count("changes checked", 1)
		d, have := o.Dir()
		kept := false
		for _, k := range good {
			kept = kept || have && fmt.Sprintf("%+v", d) == fmt.Sprintf("%+v", fr[k].Dir) && bytes.Equal(o.Checksum(), fr[k].Checksum)
		}
		if kept {
			if !odd {
				return
			}
			// Metadata that cannot belong to the file.
			was := fmt.Sprintf("%+v %x", d, o.Checksum())
			d, c, err := t.Change(e.Gui(0), refEncode(bad))
			if e.ended {
				return
			}
			if err == nil {
				was = fmt.Sprintf("%+v %x", d, c)
			} else {
				e.Count("changes refused", 1)
			}
			d2, _ := o.Dir()
			if now := fmt.Sprintf("%+v %x", d2, o.Checksum()); now != was {
				e.Fail("refused change made", "metadata of another size for session %d (error: %v) leaves %s, it has to be %s", x.session, err, now, was)
			}
			return
		}
		e.Fail("change lost", "the metadata of session %d was set to %+v checksum %x and is (%v) %+v checksum %x", x.session, fr[good[0]].Dir, fr[good[0]].Checksum, have, d, o.Checksum())
	})
}

// table reads the rows of a listing: which transfer is on how many lines.
func table(lines []string) []string {
	var l []string
	for _, x := range lines {
		c := strings.Split(x, "|")
		var f []string
		for _, y := range c {
			if y = strings.TrimSpace(y); y != "" {
				f = append(f, y)
			}
		}
		if len(f) < 3 {
			continue
		}
		ty, pe, fi := "", "", ""
		for i, y := range f {
			if pe == "" && strings.HasSuffix(y, ":7542") {
				pe = y
				continue
			}
			if i == len(f)-1 {
				fi = y
				continue
			}
			for _, t := range tranTypes {
				if y == t {
					ty = y
				}
			}
		}
		if ty != "" && pe != "" {
			l = append(l, ty+" "+fi+" "+pe)
		}
	}
	sort.Strings(l)
	return l
}

func (x *entry) row() string { return x.ttype + " " + x.file + " " + x.peer }

var listLines = []string{"tran", "files", "tran get", "tran take", "tran getdir", "tran put", "tran give", "tran putblind", "get", "take", "getdir", "put", "give", "putblind", "delete"}

// listing is a task that has the transfers listed and checks what is shown.
func (r *registry) listing(s *simrt.Stream) *simrt.Task {
	e := r.e
	n := e.N[0]
	line := listLines[s.Intn(len(listLines))]
	if s.Chance(1, 2) {
		line = "tran"
	}
	start := n.Starts
	return e.W.Spawn(nil, "listing", func() {
		from := e.W.Now
		all := table(e.View(0, "msg"))
		c := e.Cmd(0, line)
		if !simrt.Wait(2*Milli, 60*Second, func() bool { return e.ended || n.Starts != start || !n.Up || c.Done() && e.idle(0) }) {
			e.Fail("listing blocks", "%q does not finish: %s", line, e.W.BlockedReport(n))
		}
		// What was printed while it ran is on the screen now.
		if e.ended || n.Starts != start || !n.Up {
			return
		}
		to := e.W.Now
		shown := minus(table(e.View(0, "msg")), all)
		typ := ""
		if line != "tran" && line != "files" {
			typ = strings.TrimPrefix(line, "tran ")
		}
		cnt := map[string]int{}
		for _, x := range shown {
			cnt[x]++
			if cnt[x] > 1 && r.rows(x, typ, from, to) < cnt[x] {
				e.Fail("transfer shown twice", "%q shows %s %d times", line, x, cnt[x])
				return
			}
		}
		for _, x := range r.ent {
			must := x.first < from && x.wanted > to && (typ == "" || typ == x.ttype)
			if must && cnt[x.row()] == 0 {
				e.Fail("transfer not shown", "%q does not show %s, which is listed; it shows %v", line, x.row(), shown)
				return
			}
		}
		for _, k := range keys(cnt) {
			if r.rows(k, typ, from, to) == 0 {
				e.Fail("something else shown", "%q shows %s, no such transfer is listed", line, k)
				return
			}
		}
		e.Count("listings checked", 1)
		e.Count("rows checked", int64(len(shown)))
	})
}

// rows counts the transfers that may be shown as a row.
func (r *registry) rows(row, typ string, from, to int64) int {
	k := 0
	for _, x := range r.ent {
		if x.row() == row && x.gone >= from && (typ == "" || typ == x.ttype) {
			k++
		}
	}
	for _, b := range r.begun {
		if b.phase == r.phase && b.ttype+" "+b.key() == row && (typ == "" || typ == b.ttype) && b.entry == nil {
			k++
		}
	}
	return k
}

func minus(a, b []string) []string {
	m := map[string]int{}
	for _, x := range b {
		m[x]++
	}
	var l []string
	for _, x := range a {
		if m[x] > 0 {
			m[x]--
			continue
		}
		l = append(l, x)
	}
	return l
}

// settle compares the list with what was done, once everything is at rest.
func (r *registry) settle() bool {
	e := r.e
	n := e.N[0]
	var l []api.Tran
	from := e.W.Now
	if !n.Do("list", 60*Second, func() { l = e.B[0].Trans() }) {
		if !e.ended {
			e.Fail("list not readable", "the list of transfers cannot be read: %s", e.W.BlockedReport(n))
		}
		return false
	}
	r.snapshot(l, from)
	if e.ended {
		return false
	}
	end := e.W.Now
	for _, b := range r.begun {
		if b.to == never {
			b.to = end
		}
	}
	// Every entry comes from one command.
	for _, x := range r.ent {
		if x.by != nil {
			continue
		}
		for _, b := range r.begun {
			if !b.direct && b.entry == nil && b.phase == r.phase && b.ttype == x.ttype && b.key() == x.file+" "+x.peer {
				r.decide(b)
				if b.none {
					continue
				}
				x.by, b.entry = b, x
				break
			}
		}
		if x.by == nil {
			why := "no command asked for it"
			for _, b := range r.begun {
				if b.phase == r.phase && b.ttype == x.ttype && b.key() == x.file+" "+x.peer && b.none {
					why = "its command " + b.why
				}
			}
			e.Fail("entry left behind", "the list holds a %s of %s with %s session %d: %s", x.ttype, x.file, x.peer, x.session, why)
			return false
		}
	}
	for _, b := range r.begun {
		if b.phase != r.phase {
			continue
		}
		r.decide(b)
		if b.none && b.entry != nil {
			e.Fail("transfer started all the same", "%s is listed, but %s", b, b.why)
			return false
		}
		if b.certain && b.entry == nil {
			e.Fail("transfer not started", "%s is not listed (error %v), nothing stands against it", b, b.err)
			return false
		}
		if b.none {
			e.Count("refusals", 1)
		}
		if b.entry != nil {
			e.Count("transfers started", 1)
		}
	}
	for _, x := range r.ent {
		in := hasTran(l, x.t)
		if !in && x.wanted == never {
			e.Fail("transfer vanished", "the %s of %s with %s session %d is no longer listed, nothing removed it", x.ttype, x.file, x.peer, x.session)
			return false
		}
		if in && x.tries > 0 {
			e.Fail("transfer not removed", "the %s of %s with %s session %d is still listed after its removal", x.ttype, x.file, x.peer, x.session)
			return false
		}
		if !in && x.gone == never {
			x.gone = end
		}
	}
	e.Count("lists compared", 1)
	return true
}

// decide tells whether a command must have started a transfer, or must not.
func (r *registry) decide(b *begun) {
	if b.certain || b.none {
		return
	}
	e := r.e
	fs := e.N[0].FS
	p := where(b.file)
	no := func(why string) { b.none, b.why = true, why }
	for _, d := range e.W.Net.Fails {
		if d.Tag == b.tag && d.Data == nil {
			no("its peer cannot be reached")
			return
		}
	}
	fault := false
	for _, o := range fs.Log {
		if o.Tag != b.tag || o.Err == "" {
			continue
		}
		if strings.Contains(o.Err, "no such") || strings.Contains(o.Err, "exists") {
			continue
		}
		fault = true
		if o.Path == p && (o.Op == "open" || o.Op == "create" || o.Op == "mkdir" || o.Op == "openw") {
			no("its file cannot be opened")
			return
		}
	}
	yes, missing := r.others(p, b.from, b.to, b.tag, fs.Get(p) != nil)
	recv := b.ttype == "get" || b.ttype == "take" || b.ttype == "getdir"
	send := b.ttype == "put" || b.ttype == "give" || b.ttype == "putblind"
	if recv && !missing {
		no("its file exists")
		return
	}
	if send && !yes {
		no("there is no such file")
		return
	}
	rival := false
	for _, x := range r.ent {
		if x.loose && x.gone >= b.from {
			rival = true
		}
	}
	for _, x := range r.ent {
		if x.file+" "+x.peer != b.key() || x.by == b {
			continue
		}
		if x.first < b.from && x.wanted > b.to {
			no(fmt.Sprintf("session %d is a transfer of that file with that peer", x.session))
			return
		}
		if x.gone >= b.from {
			rival = true
		}
	}
	for _, o := range r.begun {
		if o != b && o.phase == b.phase && o.key() == b.key() {
			rival = true
		}
	}
	if !fault && !rival && !(recv && yes) && !(send && missing) {
		b.certain = true
	}
}
