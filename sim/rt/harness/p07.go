package harness

import (
	"bytes"
	"fmt"
	"path"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P07", Scenario{Name: "hostile names", Weight: 4, Fn: func(e *Env) { contained(e, false) }})
	reg("P07", Scenario{Name: "hostile names, disk errors and restarts", Weight: 2, Fn: func(e *Env) { contained(e, true) }})
}

var outside = []string{"/etc/passwd", "/etc/shadow", "/home/other/secret", "/home/secret", "/home/sarx/secret", "/home/sar.bak/f1", "/f1", "/tmp/f1", "/home/f1", "/secret"}

// evilName draws a file name, often one that tries to lead outside.
func evilName(s *simrt.Stream) string {
	part := func() string {
		return []string{"..", "..", "..", ".", "", "dir", "f1", "f2", "sub", "etc", "home", "sar", "sarx", "other", "secret", "passwd", "...", "..x", " ..", "\xff", "..\\", "%2e%2e", "~", "C:", "-rf", "*", "dir\\..\\f1"}[s.Intn(27)]
	}
	switch s.Pick(5, 4, 3, 2, 1, 1) {
	case 0: // up, then to something real
		n := strings.Repeat("../", 1+s.Intn(5))
		o := outside[s.Intn(len(outside))]
		switch s.Intn(3) {
		case 0:
			return n + strings.TrimPrefix(strings.TrimPrefix(o, "/home/"), "/")
		case 1:
			return n + strings.TrimPrefix(o, "/")
		}
		return "dir/" + n + path.Base(o)
	case 1:
		var p []string
		for k := 1 + s.Intn(6); k > 0; k-- {
			p = append(p, part())
		}
		n := strings.Join(p, "/")
		if s.Chance(1, 3) {
			n = "/" + n
		}
		return n
	case 2: // absolute
		o := outside[s.Intn(len(outside))]
		switch s.Intn(5) {
		case 0:
			return Sardir + "/../" + strings.TrimPrefix(o, "/home/")
		case 1:
			return "//" + o
		case 2:
			return "/../../.." + o
		case 3:
			return Sardir + o
		}
		return o
	case 3: // the directory itself
		return []string{"", ".", "/", "..", "./", "../", "dir/..", "../sar", "../sar/", "/.", "//", "dir/../", "./.", "dir/../../sar", Sardir, "../sar/f1", "../sar/dir/../../sar"}[s.Intn(17)]
	case 4:
		return string(s.Bytes(1 + s.Intn(20)))
	}
	return []string{"f1", "f2", "dir/f3", "dir", "/f1", "new", "dir/new", "sub/new", "/new"}[s.Intn(9)]
}

// inside are the paths below the directory a name may stand for.
func inside(name string) []string {
	o := []string{where(name)}
	for _, p := range []string{path.Join(Sardir, name), path.Join(Sardir, path.Clean("/"+name))} {
		if p != o[0] && (p == Sardir || strings.HasPrefix(p, Sardir+"/")) {
			o = append(o, p)
		}
	}
	return o
}

func below(p string) bool { return strings.HasPrefix(p, Sardir+"/") }

func contained(e *Env, hard bool) {
	s := e.Work
	n := e.N[0]
	var chg map[string]any
	if s.Chance(1, 4) { // other spellings of the directory
		chg = map[string]any{"sardir": []string{Sardir + "/", "/home//sar", "/home/./sar", "//home/sar/.", "/home/sarx/../sar", Sardir + "//"}[s.Intn(6)]}
	}
	e.Disk(0, chg)
	fs := n.FS
	for _, o := range outside {
		fs.MkdirAll(path.Dir(o))
		fs.Put(o, []byte("outside "+o))
	}
	if s.Chance(4, 5) {
		fs.Put(Sardir+"/f1", s.Blob(1+s.Intn(50)))
		if s.Chance(1, 2) {
			fs.MkdirAll(Sardir + "/dir")
			fs.Put(Sardir+"/dir/f3", s.Blob(1+s.Intn(50)))
		}
		if s.Chance(1, 4) { // what an absolute name may stand for
			fs.MkdirAll(Sardir + "/etc")
			fs.Put(Sardir+"/etc/passwd", []byte("inside"))
		}
	}
	root := fs.Get(Sardir)
	skip := func(p string) bool { return p == Sardir || p == "/etc/saratoga.json" }
	before := fs.Snapshot("/", skip)
	if !e.Boot(0) {
		return
	}
	// Every call that could reach outside is seen as it is made.
	arm := func() {
		fs.OnOp = func(o simrt.FSOp) {
			if e.ended || below(o.Path) || strings.HasPrefix(o.Path, "?") {
				return
			}
			switch o.Op {
			case "create", "mkdir", "remove", "truncate", "rename", "link", "chmod", "write", "openw":
				if o.Path == Sardir && (o.Op == "mkdir" || o.Op == "create") && o.Err != "" {
					return // it exists
				}
				e.Fail("reaches outside: "+o.Op, "the node calls %s for %s (result %q)", o.Op, o.Path, o.Err)
			case "open", "read", "readdir":
				if o.Path == Sardir {
					return
				}
				e.Fail("reads outside: "+o.Op, "the node calls %s for %s (result %q)", o.Op, o.Path, o.Err)
			}
		}
	}
	arm()
	e.netFaults(false)
	rounds := 1
	if hard {
		rounds = 1 + s.Intn(3)
	}
	sess := uint32(0)
	names := map[string]string{} // name asked for by session
	kindsOf := map[string]uint32{}
	for r := 0; r < rounds && !e.ended; r++ {
		if hard {
			op := []string{"stat", "lstat", "open", "create", "mkdir", "remove", "readlink", "getwd", "chdir"}[s.Intn(9)]
			fs.Faults = map[string]int{op: 300 + s.Intn(700)}
		}
		k := 3 + s.Intn(15)
		if e.Deep {
			k = 3 + s.Intn(80)
		}
		for ; k > 0 && !e.ended; k-- {
			switch s.Pick(6, 4, 6, 1) {
			case 0: // asked for by a peer
				sess++
				nm := strings.ReplaceAll(evilName(s), "\x00", "")
				typ := uint32(1 + s.Intn(6))
				from := host(1+s.Intn(2), s.Chance(1, 4), Port)
				id := fmt.Sprintf("%s/%d", from.String(), sess)
				names[id], kindsOf[id] = nm, typ
				e.send(from, frameReq(sess, typ, nm))
			case 1: // typed by the operator
				nm := strings.Join(strings.Fields(evilName(s)), "")
				c := []string{"get", "take", "put", "give", "putblind", "getdir", "delete"}[s.Intn(7)]
				e.Cmd(0, fmt.Sprintf("%s 10.0.1.%d %s", c, 1+s.Intn(2), nm))
			case 2: // used by the node itself
				if !e.useName(evilName(s), hard) {
					return
				}
			case 3: // in metadata
				f := frame(s, "metadata", n.MTU-60)
				f.Dir.Path = clipB(strings.ReplaceAll(evilName(s), "\x00", ""), 200)
				e.send(host(1, false, Port), refEncode(f))
			}
			if s.Chance(1, 3) {
				simrt.Sleep(int64(s.Intn(20)) * Milli)
			}
		}
		if hard && r < rounds-1 && s.Chance(1, 2) {
			n.Crash()
			fs.Faults = map[string]int{}
			fs.OnOp = nil
			if fs.Get(Sardir) != root {
				break
			}
			if !e.Boot(0) {
				return
			}
			arm()
		}
	}
	if e.ended {
		return
	}
	simrt.Sleep(e.W.Net.Cfg.DelayMax + Second)
	if e.ended {
		return
	}
	if fs.Get(Sardir) != root {
		e.Fail("the directory itself", "the Saratoga directory was removed or replaced")
		return
	}
	after := fs.Snapshot("/", skip)
	for _, p := range keys(before) {
		if a, ok := after[p]; !ok || a != before[p] {
			e.Fail("changed outside", "%s was %q and is %q (there: %v)", p, clip(before[p], 60), clip(a, 60), ok)
			return
		}
	}
	for _, p := range keys(after) {
		if _, ok := before[p]; !ok {
			e.Fail("created outside", "%s was created", p)
			return
		}
	}
	e.Count("disks compared", 1)
	// Answers say nothing about what is outside.
	for _, t := range e.Taps {
		if t.F.Kind != "status" {
			continue
		}
		id := fmt.Sprintf("%s/%d", t.F.Addr.String(), t.F.Session)
		nm, ok := names[id]
		if !ok {
			continue
		}
		e.Count("answers judged", 1)
		code, typ := codeName(t.F), reqNames[kindsOf[id]]
		claims := code == "success" && (typ == "get" || typ == "take" || typ == "getdir") || code == "fileinuse" || code == "didnotdelete"
		if !claims {
			continue
		}
		// It claims that the file exists, or did.
		there := false
		for _, p := range inside(nm) {
			there = there || p == Sardir || fs.Get(p) != nil || removedOrMade(fs, p)
		}
		if !there {
			e.Fail("answer about a file outside", "%s of %q was answered %s; nothing below the directory has this name", typ, nm, code)
			return
		}
	}
}

func removedOrMade(fs *simrt.FS, p string) bool {
	for _, o := range fs.Log {
		if o.Path == p && o.Err == "" && (o.Op == "remove" || o.Op == "create" || o.Op == "mkdir") {
			return true
		}
	}
	return false
}

// useName gives a name to the node's own file functions.
func (e *Env) useName(nm string, hard bool) bool {
	s := e.Work
	n := e.N[0]
	fs := n.FS
	what := s.Intn(7)
	ttype := []string{"get", "take", "put", "give", "putblind", "getdir", "delete"}[s.Intn(7)]
	got := ""
	ok := n.Do("files", 60*Second, func() {
		b := e.B[0]
		switch what {
		case 0:
			if b.FileExists(nm) && !exists(fs, nm) {
				got = "is said to exist"
			}
		case 1:
			// What the name stands for now; the node may create it.
			var was [][]byte
			for _, p := range inside(nm) {
				if in := fs.Get(p); in != nil && !in.IsDir() {
					was = append(was, in.Bytes())
				}
			}
			f, err := b.FileOpen(nm, ttype)
			if err != nil || f == nil || f.Nil() {
				return
			}
			if strings.HasPrefix(ttype, "p") || ttype == "give" {
				d, err := f.Read(0, 100)
				if err == nil {
					hit := false
					for _, w := range was {
						if bytes.HasPrefix(w, d) {
							hit = true
						}
					}
					if !hit {
						got = fmt.Sprintf("opened for %s reads %q", ttype, clip(string(d), 40))
					}
				}
			} else if s.Chance(1, 3) {
				f.Delete()
				return
			}
			f.Close()
		case 2:
			b.FileRm(nm)
		case 3:
			if m, err := b.FileMeta(nm); err == nil && !exists(fs, nm) {
				got = fmt.Sprintf("has metadata %+v", m)
			}
		case 4:
			if c, err := b.Checksum("crc32", nm); err == nil && !exists(fs, nm) {
				got = fmt.Sprintf("has checksum %x", c)
			}
		case 5:
			if d, _, err := b.DirNew("descriptor=d64", nm); err == nil && !exists(fs, nm) {
				got = fmt.Sprintf("has entry %+v", d)
			}
		case 6:
			if bt, err := b.Make(api.Spec{Kind: "metadata", Flags: "descriptor=d64,csumtype=md5,transfer=file,progress=inprogress", Session: 1, Fname: nm}); err == nil && bt != nil && !exists(fs, nm) {
				got = fmt.Sprintf("has metadata %s", brief(bt.Frame()))
			}
		}
	})
	if !ok {
		if !e.ended {
			e.Fail("file function blocks", "a file function does not finish for %q: %s", nm, e.W.BlockedReport(n))
		}
		return false
	}
	if got != "" {
		e.Fail("reveals a file outside", "%q, for which there is nothing below the directory, %s", nm, got)
		return false
	}
	e.Count("names used", 1)
	return !e.ended
}

func exists(fs *simrt.FS, nm string) bool {
	for _, p := range inside(nm) {
		if p == Sardir || fs.Get(p) != nil || removedOrMade(fs, p) {
			return true
		}
	}
	return false
}
