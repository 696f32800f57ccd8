package harness

import (
	"bytes"
	"fmt"
	"strings"

	"simmod/simrt"
)

func init() {
	reg("P08", Scenario{Name: "receptions racing for names", Weight: 4, Fn: func(e *Env) { clobber(e, false) }})
	reg("P08", Scenario{Name: "receptions with disk errors and restarts", Weight: 3, Fn: func(e *Env) { clobber(e, true) }})
}

// held is a file obtained for reception, or a local file.
type held struct {
	in    *simrt.Inode
	path  string
	want  []byte // contents it has to have
	local bool
	torn  bool // a write failed
}

func clobber(e *Env, hard bool) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	fs := n.FS
	fs.MkdirAll(Sardir + "/dir")
	if !e.Boot(0) {
		return
	}
	w := &witness{m: map[string]*there{}}
	files := map[*simrt.Inode]*held{}
	mayDel := map[string]bool{}
	serial := 0
	local := func(p string) {
		if fs.Get(p) != nil {
			return
		}
		serial++
		b := []byte(fmt.Sprintf("local file %d %s", serial, s.Blob(s.Intn(20))))
		in := fs.Put(p, b)
		files[in] = &held{in: in, path: p, want: b, local: true}
		w.note(p, e.W.Now, true)
		e.Count("local files", 1)
	}
	names := []string{"f1", "f2", "f3", "/f1", "./f2", "dir/f4", "dir/../f1"}
	paths := []string{where("f1"), where("f2"), where("f3"), where("dir/f4")}
	for _, p := range paths {
		if s.Chance(1, 3) {
			local(p)
		}
	}
	adversary := s.Chance(1, 2)
	arm := func() {
		fs.OnOp = func(o simrt.FSOp) {
			if e.ended || !below(o.Path) {
				return
			}
			if o.Err == "" {
				in := fs.Get(o.Path)
				switch o.Op {
				case "create", "mkdir":
					w.note(o.Path, o.At, true)
				case "remove":
					w.note(o.Path, o.At, false)
					if h := files[in]; h != nil && h.local && !mayDel[o.Path] {
						e.Fail("file removed", "the node removes %s, a local file nobody asked it to remove", o.Path)
					}
				case "truncate", "rename", "write", "openw":
					if o.In != nil {
						in = o.In
					}
					if h := files[in]; h != nil && h.local {
						e.Fail("existing file "+o.Op, "the node calls %s on the existing file %s", o.Op, o.Path)
					}
				}
			} else if adversary && (o.Op == "stat" || o.Op == "lstat") && strings.Contains(o.Err, "no such") && e.Fault.Chance(1, 3) {
				for _, p := range paths {
					if p == o.Path {
						e.W.Injected("file appears after it was looked for")
						local(p)
					}
				}
			}
		}
	}
	arm()
	rounds := 1 + s.Intn(2)
	if e.Deep {
		rounds = 1 + s.Intn(8)
	}
	for r := 0; r < rounds && !e.ended; r++ {
		if hard {
			op := []string{"stat", "open", "create", "write", "remove", "seek", "mkdir", "chdir", "lstat"}[s.Intn(9)]
			fs.Faults = map[string]int{op: 100 + s.Intn(700)}
			if s.Chance(1, 4) {
				fs.Room = int64(s.Intn(60))
			}
		}
		var tasks []*simrt.Task
		var cmds []*Command
		for k := 2 + s.Intn(6); k > 0 && !e.ended; k-- {
			nm := names[s.Intn(len(names))]
			if s.Chance(1, 2) {
				nm = names[0]
			}
			p := where(nm)
			switch s.Pick(8, 3, 2, 2, 2, 1) {
			case 0:
				tasks = append(tasks, e.receive(nm, p, files, w, mayDel, hard))
			case 1:
				tasks = append(tasks, e.sendLocal(nm, p, files, w))
			case 2:
				local(p)
			case 3:
				c := []string{"get", "take", "getdir", "put", "give", "putblind"}[s.Intn(6)]
				cmds = append(cmds, e.Cmd(0, fmt.Sprintf("%s 10.0.1.%d %s", c, 1+s.Intn(2), nm)))
			case 4: // asked for by a peer; nothing but a deletion changes files
				typ := uint32(1 + s.Intn(6))
				if typ == 5 {
					mayDel[p] = true
				}
				e.send(host(1, false, Port), frameReq(uint32(s.Intn(1000)), typ, nm))
			case 5:
				mayDel[p] = true
				tasks = append(tasks, n.Go("remove", func() {
					at := e.W.Now
					was := fs.Get(p)
					err := e.B[0].FileRm(nm)
					yes, _ := w.m[p].could(at, e.W.Now)
					if err == nil && !yes {
						e.Fail("removal of nothing", "removing %q reports success, there was no such file", nm)
					}
					if err == nil && was != nil && fs.Get(p) == was {
						e.Fail("removal without effect", "removing %q reports success, the file is still there", nm)
					}
				}))
			}
			if s.Chance(1, 4) {
				simrt.Sleep(int64(s.Intn(3)) * Milli)
			}
		}
		crash := hard && s.Chance(1, 4)
		if crash {
			if s.Chance(1, 2) {
				simrt.Sleep(int64(s.Intn(2)) * Milli)
			}
			n.Crash()
			fs.Faults, fs.Room, fs.OnOp = map[string]int{}, -1, nil
			// What was about to happen has not happened.
			for p := range w.m {
				w.note(p, e.W.Now, fs.Get(p) != nil)
			}
			// What a crash interrupted may be half written.
			for _, h := range files {
				h.torn = h.torn || !h.local
			}
			arm()
			if !e.Boot(0) {
				return
			}
			continue
		}
		if !simrt.Wait(5*Milli, 60*Second, func() bool {
			for _, t := range tasks {
				if !t.Done() {
					return e.ended
				}
			}
			return true
		}) {
			e.Fail("file operation blocks", "file operations do not finish: %s", e.W.BlockedReport(n))
		}
		if e.ended {
			return
		}
		fs.Faults, fs.Room = map[string]int{}, -1
		if !e.drain(0) {
			return
		}
		_ = cmds
		for _, p := range paths {
			in := fs.Get(p)
			if in == nil || in.IsDir() {
				continue
			}
			if h := files[in]; h != nil && !h.torn && !bytes.Equal(in.Bytes(), h.want) {
				e.Fail("contents damaged", "%s holds %q, it has to hold %q", p, clip(string(in.Bytes()), 60), clip(string(h.want), 60))
				return
			}
		}
		e.Count("disks compared", 1)
	}
	if e.ended {
		return
	}
	// Files that are no longer there under their name were not written to
	// either.
	for _, h := range files {
		if h.local && !bytes.Equal(h.in.Bytes(), h.want) {
			e.Fail("contents damaged", "the local file %s holds %q, it has to hold %q", h.path, clip(string(h.in.Bytes()), 60), clip(string(h.want), 60))
			return
		}
	}
}

// faulted tells whether an operation failed for a task by injection since
// mark.
func faulted(fs *simrt.FS, task, mark int) bool {
	for _, o := range fs.Log[mark:] {
		if o.Task == task && o.Err != "" && !strings.Contains(o.Err, "no such") && !strings.Contains(o.Err, "exists") {
			return true
		}
	}
	return false
}

// receive is a task that starts to receive a file.
func (e *Env) receive(nm, p string, files map[*simrt.Inode]*held, w *witness, mayDel map[string]bool, hard bool) *simrt.Task {
	s := e.Work
	n := e.N[0]
	fs := n.FS
	ttype := []string{"get", "take", "get", "getdir"}[s.Intn(4)]
	data := s.Blob(1 + s.Intn(40))
	after := s.Pick(4, 2, 1) // close, delete, leave open
	return n.Go("receive", func() {
		b := e.B[0]
		me := simrt.Cur().ID
		mark, at := len(fs.Log), e.W.Now
		f, err := b.FileOpen(nm, ttype)
		yes, no := w.m[p].could(at, e.W.Now)
		bad := faulted(fs, me, mark)
		if err == nil && !no {
			e.Fail("existing file received: "+ttype, "%s of %q is allowed, %s exists", ttype, nm, p)
			return
		}
		if err != nil && !yes && !bad {
			e.Fail("free name refused: "+ttype, "%s of %q is refused (%v), there is nothing at %s", ttype, nm, err, p)
			return
		}
		e.Count("receptions tried", 1)
		if err != nil {
			return
		}
		if ttype == "getdir" {
			if in := fs.Get(p); in == nil || !in.IsDir() {
				if _, gone := w.m[p].could(at, e.W.Now); !gone {
					e.Fail("no directory", "getdir of %q is allowed, there is no directory", nm)
				}
			}
			return
		}
		if f == nil || f.Nil() {
			e.Fail("no file", "%s of %q is allowed without a file", ttype, nm)
			return
		}
		in := f.Sim().Inode()
		if h := files[in]; h != nil {
			e.Fail("file obtained twice", "%s of %q obtains %s, which is %s", ttype, nm, h.path, map[bool]string{true: "an existing local file", false: "being received already"}[h.local])
			return
		}
		h := &held{in: in, path: p, want: data}
		files[in] = h
		e.Count("receptions", 1)
		half := len(data) / 2
		for _, r := range [][2]int{{half, len(data)}, {0, half}} {
			if _, err := f.Write(uint64(r[0]), data[r[0]:r[1]]); err != nil {
				h.torn = true
			}
		}
		switch after {
		case 0:
			f.Close()
		case 1:
			mayDel[p] = true
			others := map[string]*simrt.Inode{}
			for _, q := range []string{"f1", "f2", "f3", "dir/f4"} {
				if where(q) != p {
					others[where(q)] = fs.Get(where(q))
				}
			}
			mark, at := len(fs.Log), e.W.Now
			here := fs.Get(p) == in
			err := f.Delete()
			for _, o := range fs.Log[mark:] {
				if o.Task == me && o.Op == "remove" && o.Path != p {
					e.Fail("removes another file", "removing the received %s removes %s", p, o.Path)
					return
				}
			}
			if here && fs.Get(p) == in {
				_, gone := w.m[p].could(at, e.W.Now)
				if err == nil && !gone {
					e.Fail("removal without effect", "removing the received %s reports success, it is still there", p)
				} else if err != nil && !faulted(fs, me, mark) {
					e.Fail("received file not removed", "removing the received %s fails: %v", p, err)
				}
			}
			e.Count("received files removed", 1)
		}
	})
}

// sendLocal is a task that opens a local file for sending.
func (e *Env) sendLocal(nm, p string, files map[*simrt.Inode]*held, w *witness) *simrt.Task {
	s := e.Work
	n := e.N[0]
	fs := n.FS
	ttype := []string{"put", "give", "putblind"}[s.Intn(3)]
	return n.Go("send", func() {
		me := simrt.Cur().ID
		mark, at := len(fs.Log), e.W.Now
		f, err := e.B[0].FileOpen(nm, ttype)
		yes, no := w.m[p].could(at, e.W.Now)
		bad := faulted(fs, me, mark)
		if err == nil && !yes {
			e.Fail("missing file sent", "%s of %q is allowed, there is nothing at %s", ttype, nm, p)
			return
		}
		if err != nil && !no && !bad {
			e.Fail("existing file not sent", "%s of %q is refused (%v), the file exists", ttype, nm, err)
			return
		}
		if err != nil {
			return
		}
		e.Count("files sent", 1)
		in := f.Sim().Inode()
		if h := files[in]; h != nil && h.local {
			if d, err := f.Read(0, 200); err == nil && !bytes.Equal(d, in.Bytes()) && !bytes.HasPrefix(in.Bytes(), d) {
				e.Fail("other contents sent", "%s of %q reads %q", ttype, nm, clip(string(d), 60))
			}
		}
		if s.Chance(1, 2) {
			f.Close()
		}
	})
}
