// Command selftest compares the simulated file system with the real one: the
// same random operations are made on both, in a scratch directory.
package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"sort"
	"strings"
	"syscall"

	sos "simmod/shim/os"
	"simmod/simrt"
)

var root string

type file interface {
	Read([]byte) (int, error)
	ReadAt([]byte, int64) (int, error)
	Write([]byte) (int, error)
	WriteAt([]byte, int64) (int, error)
	Seek(int64, int) (int64, error)
	Truncate(int64) error
	Close() error
	Stat() (fs.FileInfo, error)
	Name() string
	Sync() error
	ReadDir(int) ([]fs.DirEntry, error)
}

type sys struct {
	open      func(string, int, fs.FileMode) (file, error)
	stat      func(string) (fs.FileInfo, error)
	lstat     func(string) (fs.FileInfo, error)
	remove    func(string) error
	removeAll func(string) error
	mkdir     func(string, fs.FileMode) error
	mkdirAll  func(string, fs.FileMode) error
	rename    func(string, string) error
	link      func(string, string) error
	symlink   func(string, string) error
	readlink  func(string) (string, error)
	readDir   func(string) ([]fs.DirEntry, error)
	readFile  func(string) ([]byte, error)
	writeFile func(string, []byte, fs.FileMode) error
	chdir     func(string) error
	getwd     func() (string, error)
	chmod     func(string, fs.FileMode) error
	truncate  func(string, int64) error
}

func systems() [2]sys {
	return [2]sys{
		{func(n string, f int, m fs.FileMode) (file, error) {
			x, err := os.OpenFile(n, f, m)
			if x == nil {
				return nil, err
			}
			return x, err
		}, os.Stat, os.Lstat, os.Remove, os.RemoveAll, os.Mkdir, os.MkdirAll, os.Rename, os.Link, os.Symlink, os.Readlink, os.ReadDir, os.ReadFile, os.WriteFile, os.Chdir, os.Getwd, os.Chmod, os.Truncate},
		{func(n string, f int, m fs.FileMode) (file, error) {
			x, err := sos.OpenFile(n, f, m)
			if x == nil {
				return nil, err
			}
			return x, err
		}, sos.Stat, sos.Lstat, sos.Remove, sos.RemoveAll, sos.Mkdir, sos.MkdirAll, sos.Rename, sos.Link, sos.Symlink, sos.Readlink, sos.ReadDir, sos.ReadFile, sos.WriteFile, sos.Chdir, sos.Getwd, sos.Chmod, sos.Truncate},
	}
}

func ename(err error) string {
	var en syscall.Errno
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.As(err, &en):
		return en.Error()
	}
	return err.Error()
}

func infoText(fi fs.FileInfo, err error) string {
	if err != nil {
		return ename(err)
	}
	size := fi.Size()
	if fi.IsDir() {
		size = 0
	}
	return fmt.Sprintf("%s %v %d", fi.Name(), fi.Mode(), size)
}

func clip(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes %x… sum %d", len(b), b[:40], sum(b))
	}
	return fmt.Sprintf("%x", b)
}

func sum(b []byte) (s uint64) {
	for _, c := range b {
		s = s*31 + uint64(c)
	}
	return
}

func main() {
	seed := flag.Int64("seed", 1, "first seed")
	n := flag.Int("n", 2000, "sequences")
	ops := flag.Int("ops", 60, "operations in each")
	flag.Parse()
	top, err := os.MkdirTemp("", "selftest")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	bad, total := 0, 0
	for k := 0; k < *n && bad < 10; k++ {
		root = fmt.Sprintf("%s/%d", top, k)
		if err := os.Mkdir(root, 0755); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		b, t := sequence(*seed+int64(k), *ops)
		bad += b
		total += t
		os.Chdir(top)
		os.RemoveAll(root)
	}
	os.Chdir("/")
	os.RemoveAll(top)
	fmt.Printf("%d operations compared, %d differences\n", total, bad)
	if bad > 0 {
		os.Exit(1)
	}
}

func sequence(seed int64, ops int) (bad, total int) {
	a, b, c := simrt.NewStreams(uint64(seed))
	w := simrt.NewWorld(a, b, c)
	nd := w.AddNode(func() {}, func() {})
	nd.FS.MkdirAll(root)
	nd.Prepare()
	nd.FS.MaxFile = 1<<63 - 1
	nd.Go("test", func() { bad, total = compare(rand.New(rand.NewSource(seed)), seed, ops) })
	w.Run(1 << 60)
	for _, t := range w.Tasks() {
		if !t.Done() {
			fmt.Println("seed", seed, "simulated task did not end:", w.BlockedReport(nd))
			bad++
		}
	}
	if nd.Stack != "" {
		fmt.Println("seed", seed, nd.Reason, nd.Stack)
		bad++
	}
	w.Close()
	return
}

func compare(r *rand.Rand, seed int64, ops int) (bad, total int) {
	syscall.Umask(022)
	ss := systems()
	for i := range ss {
		if err := ss[i].chdir(root); err != nil {
			fmt.Println("chdir", i, err)
			return 1, 0
		}
	}
	var hs [][2]file
	var log []string
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	name := func() string {
		p := pick("a", "b", "c", "d", "d/x", "d/e", "d/e/z", "l", "m", "l/x", "m/x", "a/", "d/", "d/.", "./a", "d/../b", "d/e/../x", "a/x", "", "nope/x", "a//", "d//x", strings.Repeat("n", 256), strings.Repeat("n", 255), "l/", "l/e/..", "x\x00y", ".", "d/e/.", "é")
		if r.Intn(4) == 0 && p != "" {
			return root + "/" + p
		}
		return p
	}
	check := func(what string, got [2]string) {
		total++
		log = append(log, what+" -> "+got[0])
		if got[0] != got[1] {
			bad++
			fmt.Printf("seed %d: %s: real %q, simulated %q\n", seed, what, got[0], got[1])
			for _, l := range log[:len(log)-1] {
				fmt.Println("    ", l)
			}
		}
	}
	both := func(what string, f func(i int, s sys) string) {
		var got [2]string
		for i, s := range ss {
			got[i] = f(i, s)
		}
		check(what, got)
	}
	for k := 0; k < ops && bad == 0; k++ {
		x, y := name(), name()
		switch r.Intn(24) {
		case 0, 1, 2, 3:
			fl := []int{os.O_RDONLY, os.O_RDWR, os.O_WRONLY}[r.Intn(3)]
			for _, o := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND} {
				if r.Intn(3) == 0 {
					fl |= o
				}
			}
			if fl&os.O_TRUNC != 0 && fl&(os.O_RDWR|os.O_WRONLY) == 0 {
				fl &^= os.O_TRUNC // unspecified by the standard
			}
			if fl&os.O_EXCL != 0 && fl&os.O_CREATE == 0 {
				fl &^= os.O_EXCL
			}
			perm := fs.FileMode(0600 | r.Intn(0200))
			var h [2]file
			both(fmt.Sprintf("open %q %x %o", x, fl, perm), func(i int, s sys) string {
				f, err := s.open(x, fl, perm)
				h[i] = f
				return ename(err)
			})
			if h[0] != nil && h[1] != nil {
				hs = append(hs, h)
			}
		case 4, 5, 6, 7, 8, 9:
			if len(hs) == 0 {
				continue
			}
			hi := r.Intn(len(hs))
			h := hs[hi]
			ln := []int{0, 1, 10, 300, 5000}[r.Intn(5)]
			off := []int64{0, 1, 7, 4095, 4096, 10000, -1}[r.Intn(7)]
			data := make([]byte, ln)
			r.Read(data)
			wh := r.Intn(3)
			op := r.Intn(9)
			both(fmt.Sprintf("handle %d: op %d length %d offset %d whence %d", hi, op, ln, off, wh), func(i int, s sys) string {
				f := h[i]
				switch op {
				case 0:
					b := make([]byte, ln)
					n, err := f.Read(b)
					return fmt.Sprint(n, " ", ename(err), " ", clip(b[:max(n, 0)]))
				case 1:
					b := make([]byte, ln)
					n, err := f.ReadAt(b, off)
					return fmt.Sprint(n, " ", ename(err), " ", clip(b[:max(n, 0)]))
				case 2:
					n, err := f.Write(data)
					return fmt.Sprint(n, " ", ename(err))
				case 3:
					n, err := f.WriteAt(data, off)
					return fmt.Sprint(n, " ", ename(err))
				case 4:
					if fi, err := f.Stat(); err == nil && fi.IsDir() {
						return ""
					}
					n, err := f.Seek(off, wh)
					return fmt.Sprint(n, " ", ename(err))
				case 5:
					return ename(f.Truncate(off))
				case 6:
					return infoText(f.Stat())
				case 7:
					if r := off % 3; r != 0 {
						return ""
					}
					return ename(f.Close())
				}
				return ename(f.Sync())
			})
		case 10:
			both(fmt.Sprintf("stat %q", x), func(i int, s sys) string { return infoText(s.stat(x)) })
		case 11:
			both(fmt.Sprintf("lstat %q", x), func(i int, s sys) string {
				t := infoText(s.lstat(x))
				return t
			})
		case 12:
			if x == "." || strings.HasSuffix(x, "/.") && !strings.Contains(x, "d") {
				continue
			}
			both(fmt.Sprintf("remove %q", x), func(i int, s sys) string { return ename(s.remove(x)) })
		case 13:
			if r.Intn(3) > 0 {
				continue
			}
			x = pick("a", "d", "d/e", "l", "nope", "")
			both(fmt.Sprintf("removeAll %q", x), func(i int, s sys) string { return ename(s.removeAll(x)) })
		case 14:
			both(fmt.Sprintf("mkdir %q", x), func(i int, s sys) string { return ename(s.mkdir(x, 0750)) })
		case 15:
			both(fmt.Sprintf("mkdirAll %q", x), func(i int, s sys) string { return ename(s.mkdirAll(x, 0755)) })
		case 16:
			both(fmt.Sprintf("rename %q %q", x, y), func(i int, s sys) string { return ename(s.rename(x, y)) })
		case 17:
			both(fmt.Sprintf("link %q %q", x, y), func(i int, s sys) string { return ename(s.link(x, y)) })
		case 18:
			t := pick("a", "d", "missing", "d/e", "m", "l", root+"/a", "d/")
			y = pick("l", "m", "c", "d/x", "a")
			both(fmt.Sprintf("symlink %q %q", t, y), func(i int, s sys) string { return ename(s.symlink(t, y)) })
		case 19:
			both(fmt.Sprintf("readlink %q", x), func(i int, s sys) string {
				t, err := s.readlink(x)
				return t + " " + ename(err)
			})
		case 20:
			both(fmt.Sprintf("readDir %q", x), func(i int, s sys) string {
				l, err := s.readDir(x)
				t := ename(err)
				var names []string
				for _, e := range l {
					names = append(names, e.Name()+" "+e.Type().String())
				}
				sort.Strings(names)
				return t + fmt.Sprint(names)
			})
		case 21:
			both(fmt.Sprintf("readFile %q", x), func(i int, s sys) string {
				b, err := s.readFile(x)
				return clip(b) + " " + ename(err)
			})
		case 22:
			data := make([]byte, r.Intn(9000))
			r.Read(data)
			both(fmt.Sprintf("writeFile %q %d", x, len(data)), func(i int, s sys) string { return ename(s.writeFile(x, data, 0644)) })
		case 23:
			switch r.Intn(3) {
			case 0:
				n := []int64{0, 10, 5000, -1}[r.Intn(4)]
				both(fmt.Sprintf("truncate %q %d", x, n), func(i int, s sys) string { return ename(s.truncate(x, n)) })
			case 1:
				both(fmt.Sprintf("chmod %q", x), func(i int, s sys) string { return ename(s.chmod(x, 0700)) })
			case 2:
				both(fmt.Sprintf("chdir %q", x), func(i int, s sys) string {
					err := s.chdir(x)
					d, e := s.getwd()
					s.chdir(root)
					return ename(err) + " " + d + " " + ename(e)
				})
			}
		}
	}
	for _, h := range hs {
		for i := range h {
			h[i].Close()
		}
	}
	return
}
