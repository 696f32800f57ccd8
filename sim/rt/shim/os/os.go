// Package os is the simulated operating system.
package os

import (
	"io"
	"io/fs"
	real "os"
	"sort"
	"strconv"
	"syscall"
	"time"

	"simmod/simrt"
)

// Args is the command line, the same on every node.
var Args = []string{"saratoga", "/etc/saratoga.json", "sim0"}

// File is an open file.
type File struct {
	*file
}

type file struct {
	fd   *simrt.OpenFD
	std  int
	name string
	sock uintptr
	dir  []string
	read bool
}

var (
	Stdin  = &File{&file{std: 3, name: "/dev/stdin"}}
	Stdout = &File{&file{std: 1, name: "/dev/stdout"}}
	Stderr = &File{&file{std: 2, name: "/dev/stderr"}}
)

// SockFile is the file of a socket.
func SockFile(fd uintptr) *File { return &File{&file{sock: fd, name: "socket"}} }

func (f *File) ok() bool { return f != nil && f.file != nil }

func (f *File) Name() string {
	if !f.ok() {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	return f.name
}

func (f *File) Fd() uintptr {
	if !f.ok() {
		return ^uintptr(0)
	}
	if f.fd != nil {
		return f.fd.Fd()
	}
	return f.sock
}

// Sim is the simulated file.
func (f *File) Sim() *simrt.OpenFD {
	if !f.ok() {
		return nil
	}
	return f.fd
}

func (f *File) use() error {
	if !f.ok() {
		return ErrInvalid
	}
	if f.fd == nil {
		if f.std != 0 || f.sock != 0 {
			panic(simrt.Unsupported("file operation on " + f.name))
		}
		return ErrInvalid
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.use(); err != nil {
		return 0, err
	}
	return f.fd.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.use(); err != nil {
		return 0, err
	}
	return f.fd.ReadAt(b, off)
}
func (f *File) Write(b []byte) (int, error) {
	if f.ok() && f.std == 1 {
		return simrt.Stdout(string(b))
	}
	if f.ok() && f.std == 2 {
		return simrt.Stderr(string(b))
	}
	if err := f.use(); err != nil {
		return 0, err
	}
	return f.fd.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.use(); err != nil {
		return 0, err
	}
	return f.fd.WriteAt(b, off)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.use(); err != nil {
		return 0, err
	}
	return f.fd.Seek(off, whence)
}
func (f *File) Close() error {
	if !f.ok() {
		return ErrInvalid
	}
	if f.fd == nil {
		return nil
	}
	return f.fd.Close()
}
func (f *File) Truncate(n int64) error {
	if err := f.use(); err != nil {
		return err
	}
	return f.fd.Truncate(n)
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.use(); err != nil {
		return nil, err
	}
	return f.fd.Stat()
}
func (f *File) Sync() error {
	if err := f.use(); err != nil {
		return err
	}
	return f.fd.Sync()
}
func (f *File) Chmod(m fs.FileMode) error {
	if err := f.use(); err != nil {
		return err
	}
	return f.fd.Chmod(m)
}
func (f *File) Chown(u, g int) error { return f.use() }
func (f *File) Chdir() error {
	if err := f.use(); err != nil {
		return err
	}
	return simrt.Chdir(f.name)
}
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

func (f *File) next(n int) ([]string, error) {
	if err := f.use(); err != nil {
		return nil, err
	}
	if !f.read {
		names, _, err := f.fd.Names()
		if err != nil {
			return nil, err
		}
		f.dir, f.read = names, true
	}
	if n <= 0 {
		d := f.dir
		f.dir = nil
		return d, nil
	}
	if len(f.dir) == 0 {
		return nil, io.EOF
	}
	if n > len(f.dir) {
		n = len(f.dir)
	}
	d := f.dir[:n]
	f.dir = f.dir[n:]
	return d, nil
}
func (f *File) Readdirnames(n int) ([]string, error) { return f.next(n) }
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	names, err := f.next(n)
	var o []fs.FileInfo
	for _, nm := range names {
		if fi, e := simrt.Stat(f.name+"/"+nm, false); e == nil {
			o = append(o, fi)
		}
	}
	return o, err
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	in, err := f.Readdir(n)
	var o []fs.DirEntry
	for _, i := range in {
		o = append(o, fs.FileInfoToDirEntry(i))
	}
	return o, err
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// NewFile makes a file of a descriptor.
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	panic(simrt.Unsupported("os.NewFile"))
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	o, err := simrt.Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{&file{fd: o, name: name}}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if len(buf) < 65536 {
			buf = make([]byte, 2*len(buf))
		}
	}
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	d, err := f.ReadDir(-1)
	sort.Slice(d, func(i, j int) bool { return d[i].Name() < d[j].Name() })
	return d, err
}

func Stat(p string) (fs.FileInfo, error)     { return simrt.Stat(p, true) }
func Lstat(p string) (fs.FileInfo, error)    { return simrt.Stat(p, false) }
func Remove(p string) error                  { return simrt.Remove(p) }
func RemoveAll(p string) error               { return simrt.RemoveAll(p) }
func Mkdir(p string, m fs.FileMode) error    { return simrt.Mkdir(p, m) }
func MkdirAll(p string, m fs.FileMode) error { return simrt.MkdirAll(p, m) }
func Rename(a, b string) error               { return simrt.Rename(a, b) }
func Link(a, b string) error                 { return simrt.Link(a, b) }
func Symlink(a, b string) error              { return simrt.Symlink(a, b) }
func Readlink(p string) (string, error)      { return simrt.Readlink(p) }
func Truncate(p string, n int64) error       { return simrt.TruncatePath(p, n) }
func Chmod(p string, m fs.FileMode) error    { return simrt.ChmodPath(p, m) }
func Chtimes(p string, a, m time.Time) error { return simrt.Chtimes(p, a, m) }
func Chown(p string, u, g int) error         { return nil }
func Lchown(p string, u, g int) error        { return nil }
func Chdir(p string) error                   { return simrt.Chdir(p) }
func Getwd() (string, error)                 { return simrt.Getwd() }
func TempDir() string                        { return "/tmp" }
func UserHomeDir() (string, error)           { return "/root", nil }
func Executable() (string, error)            { return "/usr/bin/saratoga", nil }
func Hostname() (string, error)              { return "node" + strconv.Itoa(simrt.Here().ID), nil }
func Getpid() int                            { return simrt.Here().Pid }
func Getppid() int                           { return 1 }
func Getuid() int                            { return 0 }
func Geteuid() int                           { return 0 }
func Getgid() int                            { return 0 }
func Getegid() int                           { return 0 }
func Exit(code int)                          { simrt.Die("os.Exit("+strconv.Itoa(code)+")", code) }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		f, err := OpenFile(dir+"/"+pattern+strconv.Itoa(i), O_RDWR|O_CREATE|O_EXCL, 0600)
		if !real.IsExist(err) {
			return f, err
		}
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		p := dir + "/" + pattern + strconv.Itoa(i)
		if err := Mkdir(p, 0700); !real.IsExist(err) {
			return p, err
		}
	}
}

func Getenv(k string) string {
	if n := simrt.Here(); n != nil {
		return n.Env[k]
	}
	return ""
}
func LookupEnv(k string) (string, bool) {
	if n := simrt.Here(); n != nil {
		v, ok := n.Env[k]
		return v, ok
	}
	return "", false
}
func Setenv(k, v string) error { simrt.Here().Env[k] = v; return nil }
func Unsetenv(k string) error  { delete(simrt.Here().Env, k); return nil }
func Environ() []string {
	var o []string
	for _, k := range simrt.MapKeysSorted(simrt.Here().Env) {
		o = append(o, k+"="+simrt.Here().Env[k])
	}
	return o
}
func ExpandEnv(s string) string { return real.Expand(s, Getenv) }

// Signal is a signal.
type Signal = real.Signal

var (
	Interrupt Signal = syscall.SIGINT
	Kill      Signal = syscall.SIGKILL
)
