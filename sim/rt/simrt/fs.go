package simrt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"
)

const pageSize = 4096

// Inode is a file, directory, link or pipe.
type Inode struct {
	Ino    uint64
	Mode   fs.FileMode
	Size   int64
	pages  map[int64][]byte
	Ents   map[string]*Inode
	Target string
	Mtime  time.Time
	Ctime  time.Time
	Atime  time.Time
	Uid    int
	Gid    int
}

// FSOp is one recorded file system operation.
type FSOp struct {
	At   int64
	Op   string // stat, lstat, open, create, mkdir, remove, write, truncate, rename, readlink, chdir, statfs, readdir, link, chmod
	Path string // canonical path
	Err  string
	Task int
	Tag  int
	In   *Inode // for operations on an open file
}

// FSFault is the chance in 1000 that an operation fails.
type FSFault struct {
	Op  string // operation, "" for any
	Num int
}

// FS is the file system of a node.
type FS struct {
	n       *Node
	Root    *Inode
	Cwd     string
	Log     []FSOp
	ino     uint64
	Faults  map[string]int
	Bsize   int64
	Bavail  uint64
	Mount   string // where the file system with these figures is mounted
	Bfree   uint64
	Blocks  uint64
	MaxFile int64 // largest file
	Room    int64 // bytes that can still be written, <0 unlimited
	ShortRd int   // chance in 1000 of a short read
	Busy    int   // operations in progress
	OnOp    func(op FSOp)
	target  *Inode
	last    int  // what the last component of the last path was
	slash   bool // it ended with a slash
	creat   bool // looked up in order to create a file
}

func newFS(n *Node) *FS {
	f := &FS{n: n, Cwd: "/", Faults: map[string]int{}, Bsize: 4096, Bavail: 1 << 20, Bfree: 1 << 20, Blocks: 1 << 21, Room: -1, MaxFile: 1<<63 - 1}
	f.Root = f.newInode(fs.ModeDir | 0755)
	return f
}

func (f *FS) newInode(mode fs.FileMode) *Inode {
	f.ino++
	t := f.n.Wall()
	in := &Inode{Ino: f.ino, Mode: mode, Mtime: t, Ctime: t, Atime: t}
	if mode.IsDir() {
		in.Ents = map[string]*Inode{}
	} else {
		in.pages = map[int64][]byte{}
	}
	return in
}

// ReadAt copies the contents at off.
func (in *Inode) ReadAt(b []byte, off int64) int {
	n := 0
	for n < len(b) && off+int64(n) < in.Size {
		p := off + int64(n)
		pg, po := p/pageSize, int(p%pageSize)
		m := pageSize - po
		if m > len(b)-n {
			m = len(b) - n
		}
		if int64(m) > in.Size-p {
			m = int(in.Size - p)
		}
		d := in.pages[pg]
		if d == nil {
			for i := 0; i < m; i++ {
				b[n+i] = 0
			}
		} else {
			copy(b[n:n+m], d[po:])
		}
		n += m
	}
	return n
}

// WriteAt stores b at off.
func (in *Inode) WriteAt(b []byte, off int64) {
	n := 0
	for n < len(b) {
		p := off + int64(n)
		pg, po := p/pageSize, int(p%pageSize)
		d := in.pages[pg]
		if d == nil {
			d = make([]byte, pageSize)
			in.pages[pg] = d
		}
		n += copy(d[po:], b[n:])
	}
	if e := off + int64(len(b)); len(b) > 0 && e > in.Size {
		in.Size = e
	}
}

// Truncate sets the size.
func (in *Inode) Truncate(size int64) {
	if size < in.Size {
		for pg := range in.pages {
			if pg*pageSize >= size {
				delete(in.pages, pg)
			} else if (pg+1)*pageSize > size {
				d := in.pages[pg]
				for i := size - pg*pageSize; i < pageSize; i++ {
					d[i] = 0
				}
			}
		}
	}
	in.Size = size
}

// Pages are the numbers of the 4096-byte blocks that are stored.
func (in *Inode) Pages() []int64 {
	var v []int64
	for p := range in.pages {
		v = append(v, p)
	}
	return v
}

// IsDir tells whether it is a directory.
func (in *Inode) IsDir() bool { return in.Mode.IsDir() }

// Bytes is the whole contents.
func (in *Inode) Bytes() []byte {
	b := make([]byte, in.Size)
	in.ReadAt(b, 0)
	return b
}

// How the last component of a path is looked up.
const (
	noFollow = iota // a link is followed if a slash comes after it
	doFollow
	asEntry // for changing the directory: a link is never followed
)

// What the last component of a path is.
const (
	lastName = iota
	lastDot
	lastDotDot
	lastRoot
)

// walk resolves p. It returns the directory and last name (for creation),
// the inode if it exists, and the canonical path.
func (f *FS) walk(p string, follow bool) (dir *Inode, name string, in *Inode, canon string, err error) {
	how := noFollow
	if follow {
		how = doFollow
	}
	return f.lookup(p, how)
}

func (f *FS) lookup(p string, how int) (dir *Inode, name string, in *Inode, canon string, err error) {
	f.last, f.slash = lastName, strings.HasSuffix(p, "/")
	switch {
	case strings.IndexByte(p, 0) >= 0:
		err = syscall.EINVAL
	case p == "":
		err = syscall.ENOENT
	case len(p) > 4095:
		err = syscall.ENAMETOOLONG
	default:
		return f.lookup2(p, how, 0)
	}
	return
}

func (f *FS) lookup2(p string, how, depth int) (dir *Inode, name string, in *Inode, canon string, err error) {
	if depth > 40 {
		return nil, "", nil, "", syscall.ELOOP
	}
	slash := strings.HasSuffix(p, "/")
	if !strings.HasPrefix(p, "/") {
		if f.Get2(f.Cwd) == nil {
			return nil, "", nil, "", syscall.ENOENT
		}
		p = f.Cwd + "/" + p
	}
	type fr struct {
		in   *Inode
		name string
	}
	st := []fr{{f.Root, ""}}
	canonOf := func() string {
		s := ""
		for _, x := range st[1:] {
			s += "/" + x.name
		}
		if s == "" {
			s = "/"
		}
		return s
	}
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			parts = append(parts, c)
		}
	}
	f.last = lastRoot
	for i, c := range parts {
		top := st[len(st)-1].in
		if !top.Mode.IsDir() {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		last := i == len(parts)-1
		switch c {
		case ".":
			f.last = lastDot
			continue
		case "..":
			f.last = lastDotDot
			if len(st) > 1 {
				st = st[:len(st)-1]
			}
			continue
		}
		f.last = lastName
		if f.creat && last && slash {
			return nil, "", nil, "", syscall.EISDIR
		}
		if len(c) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		nx := top.Ents[c]
		if nx == nil {
			if last {
				cn := canonOf()
				if cn == "/" {
					cn = ""
				}
				return top, c, nil, cn + "/" + c, nil
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		if nx.Mode&fs.ModeSymlink != 0 && (!last || how == doFollow || how == noFollow && slash) {
			t := nx.Target
			if !strings.HasPrefix(t, "/") {
				t = canonOf() + "/" + t
			}
			if rest := strings.Join(parts[i+1:], "/"); rest != "" {
				t += "/" + rest
			}
			if slash {
				t += "/"
			}
			return f.lookup2(t, how, depth+1)
		}
		st = append(st, fr{nx, c})
	}
	in = st[len(st)-1].in
	if slash && !in.Mode.IsDir() {
		return nil, "", nil, "", syscall.ENOTDIR
	}
	if len(st) > 1 {
		dir, name = st[len(st)-2].in, st[len(st)-1].name
	}
	return dir, name, in, canonOf(), nil
}

// Get2 looks up a canonical path.
func (f *FS) Get2(p string) *Inode {
	in := f.Root
	for _, c := range strings.Split(p, "/") {
		if c == "" {
			continue
		}
		if in = in.Ents[c]; in == nil {
			return nil
		}
	}
	return in
}

// fresh looks up where something new is to be made.
func (f *FS) entry(p string, isDir bool) (dir *Inode, name string, canon string, err error) {
	dir, name, in, canon, err := f.lookup(p, asEntry)
	if err == syscall.ENOTDIR && dir == nil && strings.HasSuffix(p, "/") {
		// something that is not a directory is in the way
		if d2, _, i2, c2, e2 := f.lookup(strings.TrimRight(p, "/"), asEntry); e2 == nil && i2 != nil && d2 != nil {
			return nil, "", c2, syscall.EEXIST
		}
	}
	switch {
	case err != nil:
	case f.last != lastName || in != nil:
		err = syscall.EEXIST
	case f.slash && !isDir:
		err = syscall.ENOENT
	}
	return
}

// op records an operation and decides whether it fails by injection.
func (f *FS) op(kind, p, canon string, err error) error {
	w := f.n.W
	if err == nil {
		num := f.Faults[kind]
		if num == 0 {
			num = f.Faults[""]
		}
		if num > 0 && w.Fault.Chance(num, 1000) {
			w.Injected("disk error on " + kind)
			err = syscall.EIO
			if kind == "create" || kind == "mkdir" || kind == "write" {
				err = []error{syscall.EIO, syscall.ENOSPC}[w.Fault.Intn(2)]
			} else if kind == "open" || kind == "remove" || kind == "stat" || kind == "lstat" || kind == "getwd" {
				err = []error{syscall.EIO, syscall.EACCES}[w.Fault.Intn(2)]
			}
		}
	}
	if canon == "" {
		canon = "?" + p
	}
	o := FSOp{At: w.Now, Op: kind, Path: canon, In: f.target}
	f.target = nil
	if err != nil {
		o.Err = err.Error()
	}
	if cur != nil {
		o.Task, o.Tag = cur.ID, cur.Tag
	}
	f.Log = append(f.Log, o)
	w.mix(hashString(kind + canon + o.Err))
	if w.TraceOn {
		w.Trace = append(w.Trace, "             fs "+kind+" "+canon+" "+o.Err)
	}
	if f.OnOp != nil {
		f.OnOp(o)
	}
	return err
}

func here() *FS {
	if cur == nil {
		panic(Unsupported("file system use outside of a task"))
	}
	if cur.dead {
		deadOp()
	}
	if cur.Node == nil {
		panic(Unsupported("file system use outside of a node"))
	}
	Point()
	return cur.Node.FS
}

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: err}
}

// ---- harness access (no faults, no record) ----

// Put creates a file with its parent directories.
func (f *FS) Put(p string, data []byte) *Inode {
	f.MkdirAll(path.Dir(p))
	dir, name, in, _, err := f.walk(p, true)
	if err != nil {
		panic(err)
	}
	if in == nil {
		in = f.newInode(0644)
		dir.Ents[name] = in
	}
	in.Truncate(0)
	in.WriteAt(data, 0)
	in.Size = int64(len(data))
	return in
}

// PutSpecial creates a pipe, socket or symbolic link.
func (f *FS) PutSpecial(p string, mode fs.FileMode, target string) *Inode {
	f.MkdirAll(path.Dir(p))
	dir, name, in, _, err := f.walk(p, false)
	if err != nil || in != nil {
		return in
	}
	in = f.newInode(mode)
	in.Target = target
	in.Size = int64(len(target))
	dir.Ents[name] = in
	return in
}

// Reach is the file a path leads to, over symbolic links.
func (f *FS) Reach(p string) *Inode {
	_, _, in, _, err := f.walk(p, true)
	if err != nil {
		return nil
	}
	return in
}

// MkdirAll creates directories.
func (f *FS) MkdirAll(p string) {
	c := ""
	for _, x := range strings.Split(p, "/") {
		if x == "" {
			continue
		}
		c += "/" + x
		dir, name, in, _, err := f.walk(c, true)
		if err != nil {
			panic(err)
		}
		if in == nil {
			dir.Ents[name] = f.newInode(fs.ModeDir | 0755)
		}
	}
}

// Get looks a path up without following a final link.
func (f *FS) Get(p string) *Inode {
	_, _, in, _, err := f.walk(p, false)
	if err != nil {
		return nil
	}
	return in
}

// Del removes a name.
func (f *FS) Del(p string) {
	dir, name, in, _, err := f.walk(p, false)
	if err == nil && in != nil && dir != nil {
		delete(dir.Ents, name)
	}
}

// Snapshot lists every path below p with its kind and contents (files of up
// to 1 MB in full).
func (f *FS) Snapshot(p string, skip func(string) bool) map[string]string {
	out := map[string]string{}
	var rec func(p string, in *Inode)
	rec = func(p string, in *Inode) {
		if skip != nil && skip(p) {
			return
		}
		switch {
		case in.Mode.IsDir():
			out[p] = "dir"
			for _, k := range MapKeysSorted(in.Ents) {
				q := p + "/" + k
				if p == "/" {
					q = "/" + k
				}
				rec(q, in.Ents[k])
			}
		case in.Mode&fs.ModeSymlink != 0:
			out[p] = "link:" + in.Target
		case in.Mode.IsRegular():
			if in.Size <= 1<<20 {
				out[p] = "file:" + string(in.Bytes())
			} else {
				out[p] = "big file"
			}
		default:
			out[p] = "special"
		}
	}
	if in := f.Get(p); in != nil {
		rec(p, in)
	}
	return out
}

// ---- system calls of the code under test ----

// Info is a FileInfo.
type Info struct {
	name string
	in   Inode
	full int64
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.in.Size }
func (i *Info) Mode() fs.FileMode  { return i.in.Mode }
func (i *Info) ModTime() time.Time { return i.in.Mtime }
func (i *Info) IsDir() bool        { return i.in.Mode.IsDir() }
func (i *Info) Sys() any {
	st := &syscall.Stat_t{Ino: i.in.Ino, Size: i.in.Size, Uid: uint32(i.in.Uid), Gid: uint32(i.in.Gid), Nlink: 1, Blksize: 4096, Blocks: (i.in.Size + 511) / 512}
	st.Atim = syscall.Timespec{Sec: i.in.Atime.Unix(), Nsec: int64(i.in.Atime.Nanosecond())}
	st.Mtim = syscall.Timespec{Sec: i.in.Mtime.Unix(), Nsec: int64(i.in.Mtime.Nanosecond())}
	st.Ctim = syscall.Timespec{Sec: i.in.Ctime.Unix(), Nsec: int64(i.in.Ctime.Nanosecond())}
	st.Mode = uint32(i.in.Mode.Perm())
	switch {
	case i.in.Mode.IsDir():
		st.Mode |= syscall.S_IFDIR
	case i.in.Mode&fs.ModeSymlink != 0:
		st.Mode |= syscall.S_IFLNK
	case i.in.Mode&fs.ModeNamedPipe != 0:
		st.Mode |= syscall.S_IFIFO
	default:
		st.Mode |= syscall.S_IFREG
	}
	return st
}

func info(name string, in *Inode) *Info {
	c := *in
	c.pages, c.Ents = nil, nil
	if in.Mode.IsDir() {
		c.Size = 4096
	}
	return &Info{name: path.Base(name), in: c}
}

// Stat is os.Stat or os.Lstat.
func Stat(p string, follow bool) (fs.FileInfo, error) {
	f := here()
	kind := "stat"
	if !follow {
		kind = "lstat"
	}
	_, _, in, canon, err := f.walk(p, follow)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err = f.op(kind, p, canon, err); err != nil {
		return nil, perr(kind, p, err)
	}
	return info(p, in), nil
}

// OpenFD is an open file.
type OpenFD struct {
	f      *FS
	in     *Inode
	name   string
	canon  string
	flag   int
	pos    int64
	closed bool
	dirpos int
	fd     uintptr
}

// Open is os.OpenFile.
func Open(p string, flag int, perm fs.FileMode) (*OpenFD, error) {
	f := here()
	how := doFollow
	if flag&syscall.O_NOFOLLOW != 0 || flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		how = noFollow
	}
	f.creat = flag&os.O_CREATE != 0
	dir, name, in, canon, err := f.lookup(p, how)
	f.creat = false
	if err == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 && f.last != lastName {
		err = syscall.EISDIR
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	kind := "open"
	if err == nil {
		switch {
		case in == nil && flag&os.O_CREATE == 0:
			err = syscall.ENOENT
		case in == nil:
			kind = "create"
		case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
			err = syscall.EEXIST
		case in.Mode&fs.ModeSymlink != 0:
			err = syscall.ELOOP
		case in.Mode.IsDir() && (acc != os.O_RDONLY || flag&os.O_CREATE != 0):
			err = syscall.EISDIR
		case flag&os.O_TRUNC != 0 && in.Mode.IsRegular():
			kind = "truncate"
		case acc != os.O_RDONLY:
			kind = "openw"
		}
	}
	if f.n.full() {
		err = syscall.EMFILE
	}
	if err = f.op(kind, p, canon, err); err != nil {
		return nil, perr("open", p, err)
	}
	if in == nil {
		in = f.newInode(perm.Perm() &^ 022)
		dir.Ents[name] = in
	} else if kind == "truncate" {
		in.Truncate(0)
		in.Mtime = f.n.Wall()
	}
	f.n.eph++
	o := &OpenFD{f: f, in: in, name: p, canon: canon, flag: flag, fd: uintptr(f.n.eph)}
	f.n.fds = append(f.n.fds, o)
	return o, nil
}

// Files lists the open files of the node.
func (n *Node) Files() []*OpenFD {
	var l []*OpenFD
	for _, o := range n.fds {
		if !o.closed {
			l = append(l, o)
		}
	}
	n.fds = append([]*OpenFD(nil), l...)
	return l
}

// full tells whether the process has as many descriptors as it may have.
func (n *Node) full() bool {
	if n.MaxFds == 0 || len(n.Files())+len(n.Socks()) < n.MaxFds {
		return false
	}
	n.W.Injected("out of descriptors")
	return true
}

var errFileClosed = fs.ErrClosed

// Name is the name the file was opened with.
func (o *OpenFD) Name() string { return o.name }

// Fd is a descriptor number.
func (o *OpenFD) Fd() uintptr { return o.fd }

// Inode is the file itself.
func (o *OpenFD) Inode() *Inode { return o.in }

// Closed tells whether the file was closed.
func (o *OpenFD) Closed() bool { return o.closed }

func (o *OpenFD) op(kind string, err error) error {
	o.f.target = o.in
	return o.f.op(kind, o.name, o.canon, err)
}

func (o *OpenFD) check() error {
	if cur == nil || cur.dead {
		deadOp()
	}
	Point()
	if o.closed {
		return errFileClosed
	}
	return nil
}

// Read is File.Read.
func (o *OpenFD) Read(b []byte) (int, error) {
	return o.readAt(b, -1, "read")
}

// readAt reads at off, or where the handle is if off is negative.
func (o *OpenFD) readAt(b []byte, off int64, kind string) (done int, err error) {
	if err := o.check(); err != nil {
		return 0, perr("read", o.name, err)
	}
	if off < 0 {
		off = o.pos
		defer func() { o.pos = off + int64(done) }()
	}
	if len(b) == 0 {
		return 0, nil
	}
	acc := o.flag & (os.O_WRONLY | os.O_RDWR)
	if acc == os.O_WRONLY {
		err = syscall.EBADF
	} else if o.in.Mode.IsDir() {
		err = syscall.EISDIR
	} else if o.in.Mode&fs.ModeNamedPipe != 0 {
		err = syscall.EAGAIN
	}
	if err = o.op("read", err); err != nil {
		return 0, perr("read", o.name, err)
	}
	n := o.in.ReadAt(b, off)
	if n == 0 {
		return 0, io.EOF
	}
	if n > 1 && o.f.ShortRd > 0 && o.f.n.W.Fault.Chance(o.f.ShortRd, 1000) {
		o.f.n.W.Injected("short read")
		n = 1 + o.f.n.W.Fault.Intn(n-1)
		for i := n; i < len(b); i++ {
			b[i] = 0xEE
		}
	}
	return n, nil
}

// ReadAt is File.ReadAt.
func (o *OpenFD) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, perr("readat", o.name, errors.New("negative offset"))
	}
	n := 0
	for n < len(b) {
		m, err := o.readAt(b[n:], off+int64(n), "read")
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// writeAt writes at off, or where the handle is if off is negative.
func (o *OpenFD) writeAt(b []byte, off int64) (done int, err error) {
	if err := o.check(); err != nil {
		return 0, perr("write", o.name, err)
	}
	w := o.f.n.W
	if off < 0 {
		if off = o.pos; o.flag&os.O_APPEND != 0 {
			off = o.in.Size
		}
		defer func() {
			if done > 0 {
				o.pos = off + int64(done)
			}
		}()
	}
	if o.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		err = syscall.EBADF
	} else if off >= o.f.MaxFile && len(b) > 0 {
		err = syscall.EFBIG
	}
	whole := len(b)
	if err == nil && whole > 0 && int64(whole) > o.f.MaxFile-off {
		b = b[:o.f.MaxFile-off]
	}
	if err = o.op("write", err); err != nil {
		if err == syscall.EBADF || err == syscall.EFBIG {
			return 0, perr("write", o.name, err)
		}
		n := 0
		if len(b) > 0 {
			n = w.Fault.Intn(len(b))
		}
		if n > 0 {
			w.Injected("torn write")
			o.in.WriteAt(b[:n], off)
		}
		return n, perr("write", o.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.f.Room >= 0 && int64(len(b)) > o.f.Room {
		n := int(o.f.Room)
		w.Injected("disk full")
		o.in.WriteAt(b[:n], off)
		o.f.Room = 0
		return n, perr("write", o.name, syscall.ENOSPC)
	}
	if o.f.Room >= 0 {
		o.f.Room -= int64(len(b))
	}
	o.in.WriteAt(b, off)
	o.in.Mtime = o.f.n.Wall()
	o.in.Ctime = o.in.Mtime
	if len(b) < whole {
		return len(b), perr("write", o.name, syscall.EFBIG)
	}
	return len(b), nil
}

// Write is File.Write.
func (o *OpenFD) Write(b []byte) (int, error) {
	return o.writeAt(b, -1)
}

// WriteAt is File.WriteAt.
func (o *OpenFD) WriteAt(b []byte, off int64) (int, error) {
	if o.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, perr("writeat", o.name, errors.New("negative offset"))
	}
	if len(b) == 0 {
		return 0, nil
	}
	return o.writeAt(b, off)
}

// Seek is File.Seek.
func (o *OpenFD) Seek(off int64, whence int) (int64, error) {
	if err := o.check(); err != nil {
		return 0, perr("seek", o.name, err)
	}
	if err := o.op("seek", nil); err != nil {
		return 0, perr("seek", o.name, err)
	}
	p := off
	switch whence {
	case 1:
		p += o.pos
	case 2:
		p += o.in.Size
	case 0:
	default:
		return 0, perr("seek", o.name, syscall.EINVAL)
	}
	if p < 0 || p > o.f.MaxFile {
		return 0, perr("seek", o.name, syscall.EINVAL)
	}
	o.pos = p
	return p, nil
}

// Close is File.Close.
func (o *OpenFD) Close() error {
	if cur != nil && cur.dead {
		return nil
	}
	if o.closed {
		return perr("close", o.name, errFileClosed)
	}
	o.closed = true
	return nil
}

// Truncate is File.Truncate.
func (o *OpenFD) Truncate(size int64) error {
	if err := o.check(); err != nil {
		return perr("truncate", o.name, err)
	}
	var err error
	if o.flag&(os.O_WRONLY|os.O_RDWR) == 0 || size < 0 {
		err = syscall.EINVAL
	}
	if err = o.op("truncate", err); err != nil {
		return perr("truncate", o.name, err)
	}
	o.in.Truncate(size)
	return nil
}

// Stat is File.Stat.
func (o *OpenFD) Stat() (fs.FileInfo, error) {
	if err := o.check(); err != nil {
		return nil, perr("stat", o.name, err)
	}
	if err := o.op("stat", nil); err != nil {
		return nil, perr("stat", o.name, err)
	}
	return info(o.name, o.in), nil
}

// Sync is File.Sync.
func (o *OpenFD) Sync() error {
	if err := o.check(); err != nil {
		return perr("sync", o.name, err)
	}
	return perr("sync", o.name, o.op("sync", nil))
}

// Chmod is File.Chmod.
func (o *OpenFD) Chmod(m fs.FileMode) error {
	if err := o.check(); err != nil {
		return perr("chmod", o.name, err)
	}
	o.in.Mode = o.in.Mode&^0777 | m.Perm()
	return nil
}

// Names lists the directory.
func (o *OpenFD) Names() ([]string, map[string]*Inode, error) {
	if err := o.check(); err != nil {
		return nil, nil, perr("readdirent", o.name, err)
	}
	var err error
	if !o.in.Mode.IsDir() {
		err = syscall.ENOTDIR
	}
	if err = o.op("readdir", err); err != nil {
		return nil, nil, perr("readdirent", o.name, err)
	}
	return MapKeysSorted(o.in.Ents), o.in.Ents, nil
}

// InfoOf makes a FileInfo of an inode.
func InfoOf(name string, in *Inode) fs.FileInfo { return info(name, in) }

// Remove is os.Remove.
func Remove(p string) error {
	f := here()
	dir, name, in, canon, err := f.lookup(p, asEntry)
	switch {
	case err != nil:
	case f.last == lastRoot:
		err = syscall.EBUSY
	case f.last == lastDot:
		err = syscall.EINVAL
	case f.last == lastDotDot:
		err = syscall.ENOTEMPTY
	case in == nil:
		err = syscall.ENOENT
	case in.Mode.IsDir() && len(in.Ents) > 0:
		err = syscall.ENOTEMPTY
	}
	if err = f.op("remove", p, canon, err); err != nil {
		return perr("remove", p, err)
	}
	delete(dir.Ents, name)
	return nil
}

// RemoveAll is os.RemoveAll.
func RemoveAll(p string) error {
	f := here()
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, ".") && path.Base(p) == "." {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	dir, name, in, canon, err := f.lookup(p, asEntry)
	if err == syscall.ENOENT || err == nil && in == nil {
		return nil
	}
	if err == nil && dir == nil {
		err = syscall.EBUSY
	}
	if err = f.op("remove", p, canon, err); err != nil {
		return perr("unlinkat", p, err)
	}
	delete(dir.Ents, name)
	return nil
}

// Mkdir is os.Mkdir.
func Mkdir(p string, perm fs.FileMode) error {
	f := here()
	dir, name, canon, err := f.entry(p, true)
	if err = f.op("mkdir", p, canon, err); err != nil {
		return perr("mkdir", p, err)
	}
	dir.Ents[name] = f.newInode(fs.ModeDir | perm.Perm()&^022)
	return nil
}

// MkdirAll is os.MkdirAll.
func MkdirAll(p string, perm fs.FileMode) error {
	if fi, err := Stat(p, true); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	i := len(strings.TrimRight(p, "/")) - 1
	for i >= 0 && p[i] != '/' {
		i--
	}
	if i > 0 {
		if err := MkdirAll(p[:i], perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		if fi, e := Stat(p, false); e == nil && fi.IsDir() {
			return nil
		}
	}
	return err
}

// Rename is os.Rename.
func Rename(a, b string) error {
	lerr := func(err error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: err} }
	if fi, err := Stat(b, false); err == nil && fi.IsDir() {
		fa, err := Stat(a, false)
		if err != nil {
			if pe, ok := err.(*fs.PathError); ok {
				err = pe.Err
			}
			return lerr(err)
		}
		if a == b || fa.(*Info).in.Ino != fi.(*Info).in.Ino {
			return lerr(syscall.EEXIST)
		}
	}
	f := here()
	d1, n1, i1, c1, err := f.lookup(a, asEntry)
	l1, s1 := f.last, f.slash
	if err == syscall.ENOTDIR && s1 { // names a file
		if d, n, i, c, e := f.lookup(strings.TrimRight(a, "/"), asEntry); e == nil && i != nil && f.last == lastName {
			d1, n1, i1, c1, err = d, n, i, c, nil
		}
	}
	var d2, i2 *Inode
	var n2, c2 string
	switch {
	case strings.IndexByte(a, 0) >= 0 || strings.IndexByte(b, 0) >= 0:
		err = syscall.EINVAL
	case err == syscall.ENAMETOOLONG:
		if _, _, _, _, e := f.lookup(strings.TrimRight(b, "/"), asEntry); e != nil {
			err = e
		}
	}
	if err == nil {
		d2, n2, i2, c2, err = f.lookup(b, asEntry)
		l2, s2 := f.last, f.slash
		if err == syscall.ENOTDIR && s2 {
			if d, n, i, c, e := f.lookup(strings.TrimRight(b, "/"), asEntry); e == nil && i != nil && f.last == lastName {
				d2, n2, i2, c2, err = d, n, i, c, nil
			}
		}
		switch {
		case err == syscall.ENAMETOOLONG && l1 != lastName:
			err = syscall.EBUSY
		case err == syscall.ENAMETOOLONG && i1 == nil:
			err = syscall.ENOENT
		case err != nil:
		case l1 != lastName || l2 != lastName:
			err = syscall.EBUSY
		case i1 == nil:
			err = syscall.ENOENT
		case !i1.Mode.IsDir() && (s1 || s2):
			err = syscall.ENOTDIR
		case i1.Mode.IsDir() && strings.HasPrefix(c2+"/", c1+"/") && c1 != c2:
			err = syscall.EINVAL
		case i2 != nil && i1 != i2 && i2.Mode.IsDir() && (!i1.Mode.IsDir() || strings.HasPrefix(c1+"/", c2+"/")):
			err = syscall.ENOTEMPTY
		case i2 != nil && i1 != i2 && !i2.Mode.IsDir() && i1.Mode.IsDir():
			err = syscall.ENOTDIR
		}
	}
	if err = f.op("rename", a, c1, err); err == nil {
		err = f.op("rename", b, c2, nil)
	}
	if err != nil {
		return lerr(err)
	}
	if i1 == i2 {
		return nil
	}
	delete(d1.Ents, n1)
	d2.Ents[n2] = i1
	return nil
}

// Link is os.Link.
func Link(a, b string) error {
	f := here()
	_, _, i1, c1, err := f.lookup(a, noFollow)
	if strings.IndexByte(b, 0) >= 0 {
		err = syscall.EINVAL
	}
	if err == nil && i1 == nil {
		err = syscall.ENOENT
	}
	var d2 *Inode
	var n2, c2 string
	if err == nil {
		d2, n2, c2, err = f.entry(b, false)
		if err == nil && i1.Mode.IsDir() {
			err = syscall.EPERM
		}
	}
	if err = f.op("link", a, c1, err); err == nil {
		err = f.op("create", b, c2, nil)
	}
	if err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	d2.Ents[n2] = i1
	return nil
}

// Symlink is os.Symlink.
func Symlink(a, b string) error {
	f := here()
	d, n, c, err := f.entry(b, false)
	if strings.IndexByte(a, 0) >= 0 {
		err = syscall.EINVAL
	} else if a == "" {
		err = syscall.ENOENT
	}
	if err = f.op("create", b, c, err); err != nil {
		return &os.LinkError{Op: "symlink", Old: a, New: b, Err: err}
	}
	x := f.newInode(fs.ModeSymlink | 0777)
	x.Target = a
	x.Size = int64(len(a))
	d.Ents[n] = x
	return nil
}

// Readlink is os.Readlink.
func Readlink(p string) (string, error) {
	f := here()
	_, _, in, c, err := f.walk(p, false)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err == nil && in.Mode&fs.ModeSymlink == 0 {
		err = syscall.EINVAL
	}
	if err = f.op("readlink", p, c, err); err != nil {
		return "", perr("readlink", p, err)
	}
	return in.Target, nil
}

// TruncatePath is os.Truncate.
func TruncatePath(p string, size int64) error {
	f := here()
	_, _, in, c, err := f.walk(p, true)
	switch {
	case size < 0:
		err = syscall.EINVAL
	case err != nil:
	case in == nil:
		err = syscall.ENOENT
	case in.Mode.IsDir():
		err = syscall.EISDIR
	}
	if err = f.op("truncate", p, c, err); err != nil {
		return perr("truncate", p, err)
	}
	in.Truncate(size)
	return nil
}

// ChmodPath is os.Chmod; Chtimes is os.Chtimes.
func ChmodPath(p string, m fs.FileMode) error {
	f := here()
	_, _, in, c, err := f.walk(p, true)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err = f.op("chmod", p, c, err); err != nil {
		return perr("chmod", p, err)
	}
	in.Mode = in.Mode&^0777 | m.Perm()
	return nil
}

// Chtimes is os.Chtimes.
func Chtimes(p string, a, m time.Time) error {
	f := here()
	_, _, in, c, err := f.walk(p, true)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err = f.op("chmod", p, c, err); err != nil {
		return perr("chtimes", p, err)
	}
	in.Atime, in.Mtime = a, m
	return nil
}

// Chdir is os.Chdir.
func Chdir(p string) error {
	f := here()
	_, _, in, c, err := f.walk(p, true)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err == nil && !in.Mode.IsDir() {
		err = syscall.ENOTDIR
	}
	if err = f.op("chdir", p, c, err); err != nil {
		return perr("chdir", p, err)
	}
	f.Cwd = c
	return nil
}

// Getwd is os.Getwd.
func Getwd() (string, error) {
	f := here()
	var err error
	if f.Get(f.Cwd) == nil {
		err = syscall.ENOENT
	}
	if err = f.op("getwd", f.Cwd, f.Cwd, err); err != nil {
		return "", os.NewSyscallError("getwd", err)
	}
	return f.Cwd, nil
}

// Statfs is syscall.Statfs.
func Statfs(p string, st *syscall.Statfs_t) error {
	f := here()
	_, _, in, c, err := f.walk(p, true)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err = f.op("statfs", p, c, err); err != nil {
		return err
	}
	st.Bsize = f.Bsize
	st.Frsize = f.Bsize
	st.Bavail, st.Bfree, st.Blocks = f.Bavail, f.Bfree, f.Blocks
	if f.Mount != "" && c != f.Mount && !strings.HasPrefix(c, f.Mount+"/") { // another file system
		st.Bsize, st.Frsize = 512, 512
		st.Bavail, st.Bfree, st.Blocks = 1111111, 2222222, 3333333
	}
	return nil
}

// Canon resolves all links of an existing path.
func Canon(p string) (string, error) {
	f := here()
	_, _, in, c, err := f.walk(p, true)
	if err == nil && in == nil {
		err = syscall.ENOENT
	}
	if err = f.op("lstat", p, c, err); err != nil {
		return "", perr("lstat", p, err)
	}
	return c, nil
}

// ReadNames lists a directory.
func ReadNames(p string) ([]string, error) {
	o, err := Open(p, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer o.Close()
	n, _, err := o.Names()
	return n, err
}
