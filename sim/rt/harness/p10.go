package harness

import (
	"bytes"
	"fmt"
	"io/fs"
	"math"
	"strings"
	"time"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P10", Scenario{Name: "metadata of files", Weight: 3, Fn: func(e *Env) { truths(e, false, false) }})
	reg("P10", Scenario{Name: "metadata on a failing disk", Weight: 4, Fn: func(e *Env) { truths(e, true, false) }})
	reg("P10", Scenario{Name: "metadata of files being replaced", Weight: 3, Fn: func(e *Env) { truths(e, false, true) }})
}

// era is the origin of the times of directory entries.
var era = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// version is a file as it was from some moment on.
type version struct {
	at int64
	in *simrt.Inode
}

// objects are the files of a node with their history.
type objects struct {
	e      *Env
	list   []string
	m      map[string][]version
	linkTo string // where the next symbolic link leads
}

func (o *objects) set(name string, in *simrt.Inode) {
	if len(o.m[name]) == 0 {
		o.list = append(o.list, name)
	}
	o.m[name] = append(o.m[name], version{o.e.W.Now, in})
}

// seen are the versions that may have been seen in a span of time. Nil means
// that the file may have been missing.
func (o *objects) seen(name string, from, to int64) (v []*simrt.Inode) {
	h := o.m[name]
	last := -1
	for i, x := range h {
		if x.at <= from {
			last = i
		}
	}
	if last < 0 {
		v = append(v, nil)
	} else {
		v = append(v, h[last].in)
		// Another version of the same moment may have been seen.
		for i := last - 1; i >= 0 && h[i+1].at == from; i-- {
			v = append(v, h[i].in)
		}
	}
	for i := last + 1; i < len(h); i++ {
		if h[i].at <= to {
			v = append(v, h[i].in)
		}
	}
	return v
}

// moment picks a file time.
func moment(s *simrt.Stream, now time.Time) time.Time {
	ns := int64(s.Intn(1000)) * Milli
	switch s.Pick(16, 1, 1, 1, 1) {
	case 1:
		return era.Add(time.Duration(s.Intn(3)-1)*time.Second + time.Duration(ns))
	case 2: // the last that can be represented
		return era.Add(time.Duration(math.MaxUint32-1)*time.Second + time.Duration(s.Intn(3))*time.Second + time.Duration(ns))
	case 3:
		return time.Unix(int64(s.U32()), ns)
	case 4:
		return time.Unix(-int64(s.Intn(1000)), ns)
	}
	return now.Add(-time.Duration(s.Intn(100000)) * time.Second)
}

// object puts a file of some kind on the disk.
func (o *objects) object(s *simrt.Stream, fsys *simrt.FS, name, kind string, now time.Time) *simrt.Inode {
	p := where(name)
	old := fsys.Get(p)
	if old != nil && !old.IsDir() {
		fsys.Del(p)
	}
	var in *simrt.Inode
	switch kind {
	case "dir":
		fsys.MkdirAll(p)
		in = fsys.Get(p)
		in.Size = 4096
	case "pipe":
		in = fsys.PutSpecial(p, fs.ModeNamedPipe|0644, "")
	case "link":
		to := o.linkTo
		if to == "" || s.Chance(1, 6) {
			to = []string{"nothing", "/etc/passwd", "/home/other", "..", p}[s.Intn(5)]
		}
		in = fsys.PutSpecial(p, fs.ModeSymlink|0777, to)
	case "device":
		in = fsys.PutSpecial(p, []fs.FileMode{fs.ModeSocket, fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice, fs.ModeIrregular}[s.Intn(4)]|0644, "")
	case "sparse":
		in = fsys.Put(p, s.Blob(s.Intn(10)))
		sz := []int64{65534, 65535, 65536, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, math.MaxInt64}[s.Intn(9)]
		in.Truncate(sz)
	default:
		in = fsys.Put(p, s.Blob([]int{0, 1, 3, 63, 64, 65, 500, 32767, 32768, 32769, 65535, 65536, 70000}[s.Intn(13)]))
		if s.Chance(1, 10) {
			in.Mode = fs.FileMode(0400)
		}
	}
	in.Mtime, in.Ctime = moment(s, now), moment(s, now)
	o.set(name, in)
	return in
}

func truths(e *Env, hard, replacing bool) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	fsys := n.FS
	if s.Chance(1, 6) {
		n.ClockSec = []int64{946684800, 2000000000, 5241651000, 1 << 33, 100}[s.Intn(5)]
	}
	o := &objects{e: e, m: map[string][]version{}}
	kindOf := map[string]string{}
	add := func(name, kind string) {
		if fsys.Get(where(name)) != nil || o.m[name] != nil {
			return
		}
		kindOf[name] = kind
		o.object(s, fsys, name, kind, n.Wall())
	}
	odd := func() string {
		o := s.Bytes(1 + s.Intn(30))
		for i, c := range o {
			if c == '/' || c == 0 {
				o[i] = '='
			}
		}
		return "n" + string(o) + "x"
	}
	for k := 1 + s.Intn(4); k > 0; k-- {
		kind := []string{"file", "file", "file", "file", "sparse", "dir", "dir", "pipe", "link", "device"}[s.Intn(10)]
		if o.linkTo = ""; kind == "link" && len(o.list) > 0 {
			o.linkTo = where(o.list[s.Intn(len(o.list))])
		}
		name := fmt.Sprintf("f%d", k)
		switch s.Pick(6, 2, 1, 1) {
		case 1:
			name = odd()
		case 2:
			name = "sub/dir/" + name
		case 3: // around the longest that can be sent
			name = strings.Repeat(strings.Repeat("d", 99)+"/", 10) + strings.Repeat("l", 22+s.Intn(5))
		}
		add(name, kind)
	}
	if !e.Boot(0) {
		return
	}
	if hard {
		for _, op := range []string{"stat", "lstat", "open", "read", "seek", "close"} {
			if s.Chance(1, 2) {
				fsys.Faults[op] = 30 + s.Intn(400)
			}
		}
		fsys.ShortRd = s.Intn(2) * 400
	}
	if replacing {
		// Somebody replaces files between any two looks at them.
		fsys.OnOp = func(op simrt.FSOp) {
			if op.Task == 0 || !e.Fault.Chance(1, 4) || e.ended {
				return
			}
			for _, name := range o.list {
				if where(name) == op.Path && (kindOf[name] == "file" || kindOf[name] == "sparse") {
					if e.Fault.Chance(1, 6) {
						e.W.Injected("file removed while it is looked at")
						fsys.Del(op.Path)
						o.set(name, nil)
						return
					}
					e.W.Injected("file replaced while it is looked at")
					o.object(e.Fault, fsys, name, kindOf[name], n.Wall())
					return
				}
			}
		}
	}
	rounds := 1 + s.Intn(3)
	if e.Deep {
		rounds = 1 + s.Intn(20)
	}
	for r := 0; r < rounds && !e.ended; r++ {
		var tasks []*simrt.Task
		for k := 1 + s.Intn(4); k > 0; k-- {
			name := o.list[s.Intn(len(o.list))]
			if s.Chance(1, 12) {
				name = "missing"
			}
			kind := kindOf[name]
			which := s.Pick(8, 2, 2, 2)
			spec := api.Spec{Kind: "metadata", Session: s.U32(), Fname: name, UseMake: s.Chance(1, 2)}
			tasks = append(tasks, n.Go("metadata", func() { e.truth(o, which, spec, kind) }))
		}
		if !simrt.Wait(5*Milli, 300*Second, func() bool {
			for _, t := range tasks {
				if !t.Done() {
					return e.ended
				}
			}
			return true
		}) {
			e.Fail("metadata blocks", "producing metadata does not finish: %s", e.W.BlockedReport(n))
		}
		if replacing {
			for name, k := range kindOf {
				if h := o.m[name]; h[len(h)-1].in == nil {
					o.object(s, fsys, name, k, n.Wall())
				}
			}
		}
	}
}

// entryTime is a file time as directory entries have it.
func entryTime(t time.Time) (uint64, bool) {
	v := t.Unix() - era.Unix()
	return uint64(v), v >= 0 && v <= math.MaxUint32
}

func (e *Env) truth(o *objects, which int, spec api.Spec, kind string) {
	s := e.Work
	n := e.N[0]
	b := e.B[0]
	fsys := n.FS
	me := simrt.Cur().ID
	name := spec.Fname
	mark, at, clock := len(fsys.Log), e.W.Now, n.Wall()
	// excused tells whether an error may be reported.
	excused := func() bool {
		v := o.seen(name, at, e.W.Now)
		return len(v) > 1 || v[0] == nil || faulted(fsys, me, mark)
	}
	some := func(ok func(in *simrt.Inode) bool) bool {
		for _, in := range o.seen(name, at, e.W.Now) {
			if in != nil && ok(in) {
				return true
			}
		}
		return false
	}
	what := func() string {
		var v []string
		for _, in := range o.seen(name, at, e.W.Now) {
			if in == nil {
				v = append(v, "missing")
			} else {
				v = append(v, fmt.Sprintf("%v, %d bytes, modified %v, changed %v", in.Mode, in.Size, in.Mtime.UTC(), in.Ctime.UTC()))
			}
		}
		return strings.Join(v, " or ")
	}
	sums := func(ct string, sum []byte) bool {
		return some(func(in *simrt.Inode) bool {
			return !in.IsDir() && in.Size <= 1<<20 && bytes.Equal(sum, sumOf(ct, in.Bytes())) && len(sum) > 0
		})
	}
	switch which {
	case 0: // a metadata frame
		claim := map[string]int{"dir": 1, "pipe": 3}[kind]
		if s.Chance(1, 6) {
			claim = s.Intn(4)
		}
		ct := s.Intn(4)
		if kind == "sparse" || kind == "link" || kind == "device" || ((kind == "pipe" || kind == "dir") && s.Chance(2, 3)) {
			ct = 0
		}
		pr, re, d := s.Intn(2), s.Intn(2), s.Intn(3)
		tr := []string{"file", "directory", "bundle", "stream"}[claim]
		spec.Header = header(tMetadata, fDesc, uint32(d), fProgr, uint32(pr), fRelia, uint32(re), fTransf, uint32(claim), fCsLen, csLens[ct], fCsType, uint32(ct))
		spec.Flags = flagList(s, []string{"descriptor=" + descNames[d], "progress=" + []string{"inprogress", "terminated"}[pr], "reliability=" + []string{"udponly", "udplite"}[re],
			"transfer=" + tr, "csumtype=" + csNames[ct]})
		f, err := b.Make(spec)
		made := err == nil
		var raw []byte
		if made {
			raw, err = f.Encode()
		}
		claimed := fmt.Sprintf("metadata of %q as %s with checksum %s", clip(name, 60), tr, csNames[ct])
		if made && ct != 0 {
			// What cannot be summed is refused where it is made.
			if sum := f.Frame().Checksum; !sums(csNames[ct], sum) {
				e.Fail("checksum: "+csNames[ct], "%s is made with the checksum %x, it is %s", claimed, sum, what())
				return
			}
		}
		if err != nil {
			e.Count("metadata refused", 1)
			in := o.seen(name, at, e.W.Now)[0]
			ok := in != nil && len(name) <= 1024
			if ok {
				_, mt := entryTime(in.Mtime)
				_, ctm := entryTime(in.Ctime)
				switch claim {
				case 0:
					ok = in.Mode.IsRegular() && mt && ctm
				case 1:
					ok = in.IsDir() && mt && ctm && ct == 0
				case 3:
					_, now := entryTime(clock)
					_, then := entryTime(n.Wall())
					ok = in.Mode&fs.ModeNamedPipe != 0 && ct == 0 && now && then
				default:
					ok = false
				}
			}
			if ok && !excused() {
				e.Fail("metadata refused: "+tr, "%s is refused (%v), it is %s", claimed, err, what())
			}
			return
		}
		e.Count("metadata produced", 1)
		fr := f.Frame()
		if len(raw) < 8 {
			e.Fail("metadata frame short", "%s gives %d bytes", claimed, len(raw))
			return
		}
		csl := 4 * int(csLens[ct])
		if claim == 2 {
			e.Fail("false claim accepted: "+tr, "%s is accepted", claimed)
			return
		}
		if len(raw) < 8+csl {
			e.Fail("metadata frame short", "%s gives %d bytes", claimed, len(raw))
			return
		}
		de, why := refDirDecode(raw[8+csl:])
		if why != "" {
			e.Fail("metadata frame malformed", "%s gives %x: %s", claimed, raw, why)
			return
		}
		if h := fDesc.set(spec.Header, 0); fDesc.set(fr.Header, 0) != h {
			e.Fail("metadata header", "%s has header %08x instead of %08x", claimed, fr.Header, spec.Header)
			return
		}
		if e.entry(de, uint32(de.Header>>8&3), []uint32{0, 1, 0, 2}[claim], name, claimed, some, what, clock) {
			return
		}
		sum := raw[8 : 8+csl]
		if !bytes.Equal(sum, fr.Checksum) {
			e.Fail("checksum", "%s carries the checksum %x in the frame, %x on the wire", claimed, fr.Checksum, sum)
			return
		}
		if ct != 0 && !sums(csNames[ct], sum) {
			e.Fail("checksum: "+csNames[ct], "%s carries the checksum %x, it is %s", claimed, sum, what())
			return
		}
		// What the receiver makes of it.
		got, err := b.DecodeBytes("metadata", raw)
		if err != nil {
			e.Fail("metadata not understood", "%s: the receiver refuses it: %v", claimed, err)
			return
		}
		if got.Session != spec.Session || got.Header != fr.Header || !bytes.Equal(got.Checksum, sum) {
			e.Fail("metadata not understood", "%s: the receiver decodes %s", claimed, brief(got))
			return
		}
		if d := diffDir(fr.Dir, got.Dir); d != "" {
			e.Fail("metadata not understood", "%s: the receiver decodes %s", claimed, d)
			return
		}
	case 1: // what is known of a file
		m, err := b.FileMeta(name)
		if err != nil {
			if !excused() {
				e.Fail("file information refused", "information on %q is refused (%v), it is %s", clip(name, 60), err, what())
			}
			return
		}
		e.Count("file information", 1)
		if !some(func(in *simrt.Inode) bool {
			link := in.Mode&fs.ModeSymlink != 0
			dir := in.IsDir()
			if link {
				if m.Origin != in.Target {
					return false
				}
				// It can lead to a directory.
				to := fsys.Reach(where(name))
				if dir = to != nil && to.IsDir(); !m.IsDir && faulted(fsys, me, mark) {
					dir = false
				}
			}
			return m.Size == in.Size && m.ModTime.Equal(in.Mtime) && m.IsDir == dir && m.IsRegular == in.Mode.IsRegular() &&
				m.IsNamedPipe == (in.Mode&fs.ModeNamedPipe != 0) && m.IsSymLink == link
		}) {
			e.Fail("file information", "information on %q is %+v, it is %s", clip(name, 60), m, what())
			return
		}
		if i := strings.LastIndexByte(name, '/'); m.Path != name[i+1:] {
			e.Fail("file information", "information on %q has the name %q", clip(name, 60), clip(m.Path, 60))
		}
	case 2: // a directory entry
		if kind == "link" || kind == "device" {
			return
		}
		prop := map[string]int{"dir": 1, "pipe": 2}[kind]
		d := s.Intn(3)
		de, raw, err := b.DirNew("descriptor="+descNames[d]+",property="+[]string{"normalfile", "normaldirectory", "specialfile"}[prop], name)
		claimed := fmt.Sprintf("directory entry of %q with %s", clip(name, 60), descNames[d])
		if err != nil {
			in := o.seen(name, at, e.W.Now)[0]
			if in != nil && len(name) <= 1024 && !excused() {
				_, a := entryTime(in.Mtime)
				_, c := entryTime(in.Ctime)
				if kind == "pipe" {
					_, a = entryTime(clock)
					_, c = entryTime(n.Wall())
				}
				if a && c && (kind == "pipe" || uint64(in.Size) <= maxN(uint32(d))) {
					e.Fail("directory entry refused", "%s is refused (%v), it is %s", claimed, err, what())
				}
			}
			return
		}
		e.Count("directory entries", 1)
		on, why := refDirDecode(raw)
		if why != "" {
			e.Fail("directory entry malformed", "%s gives %x: %s", claimed, raw, why)
			return
		}
		if e.entry(on, uint32(on.Header>>8&3), uint32(prop), name, claimed, some, what, clock) {
			return
		}
		got, err := b.DirDecode(raw)
		if err != nil {
			e.Fail("directory entry not understood", "%s: decoding it fails: %v", claimed, err)
		} else if d := diffDir(de, got); d != "" {
			e.Fail("directory entry not understood", "%s: it decodes as %s", claimed, d)
		}
	case 3: // a checksum
		ct := csNames[1+s.Intn(3)]
		if s.Chance(1, 6) {
			ct = []string{"", "invalid", "MD5", "sha256", "crc", "md5 ", "crc16"}[s.Intn(7)]
			if sum, err := b.Checksum(ct, name); err == nil && kind != "pipe" && kind != "sparse" {
				e.Fail("unknown checksum", "the checksum %q of %q is %x, there is no such checksum", ct, clip(name, 60), sum)
			}
			return
		}
		if kind == "sparse" || kind == "pipe" || kind == "link" || kind == "device" {
			return
		}
		sum, err := b.Checksum(ct, name)
		if err != nil {
			if kind == "file" && !excused() {
				e.Fail("checksum refused", "the %s of %q is refused (%v), it is %s", ct, clip(name, 60), err, what())
			}
			return
		}
		e.Count("checksums", 1)
		if !sums(ct, sum) {
			e.Fail("checksum: "+ct, "the %s of %q is %x, it is %s", ct, clip(name, 60), sum, what())
		}
	}
}

// entry checks a directory entry as it goes out.
func (e *Env) entry(de api.Dirent, prop, want uint32, name, claimed string, some func(func(*simrt.Inode) bool) bool, what func() string, from time.Time) bool {
	if prop != want {
		e.Fail("kind of file", "%s carries the property %d instead of %d", claimed, prop, want)
		return true
	}
	if de.Path != name && where(de.Path) != where(name) {
		e.Fail("file name", "%s carries the name %q", claimed, clip(de.Path, 60))
		return true
	}
	if want >= 2 {
		a, ok := entryTime(from)
		z, ok2 := entryTime(e.N[0].Wall())
		if !ok || !ok2 || de.Size != 0 || de.Mtime.Secs < a || de.Mtime.Secs > z || de.Ctime.Secs < a || de.Ctime.Secs > z {
			e.Fail("stream entry", "%s carries size %d and times %d %d at %d", claimed, de.Size, de.Mtime.Secs, de.Ctime.Secs, z)
			return true
		}
		if !some(func(in *simrt.Inode) bool { return in.Mode&fs.ModeNamedPipe != 0 }) {
			e.Fail("false claim accepted: stream", "%s is accepted, it is %s", claimed, what())
			return true
		}
		return false
	}
	kind := func(in *simrt.Inode) bool {
		if want == 1 {
			return in.IsDir()
		}
		return in.Mode.IsRegular()
	}
	if !some(kind) {
		e.Fail("false claim accepted", "%s is accepted, it is %s", claimed, what())
		return true
	}
	if !some(func(in *simrt.Inode) bool {
		m, ok := entryTime(in.Mtime)
		c, ok2 := entryTime(in.Ctime)
		return kind(in) && uint64(in.Size) == de.Size && ok && ok2 && m == de.Mtime.Secs && c == de.Ctime.Secs
	}) {
		e.Fail("size or times", "%s carries size %d, times %v and %v, it is %s", claimed, de.Size,
			era.Add(time.Duration(de.Mtime.Secs)*time.Second), era.Add(time.Duration(de.Ctime.Secs)*time.Second), what())
		return true
	}
	return false
}
