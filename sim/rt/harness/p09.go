package harness

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P09", Scenario{Name: "blocks of several files", Weight: 3, Fn: func(e *Env) { blocks(e, false) }})
	reg("P09", Scenario{Name: "blocks on a failing disk", Weight: 4, Fn: func(e *Env) { blocks(e, true) }})
}

// image is the reference contents of a file: the bytes that were placed and
// the size. Everything else reads as zero.
type image struct {
	size int64
	segs []seg // in the order they were placed
}

type seg struct {
	at int64
	b  []byte
}

func (m *image) put(at int64, b []byte) {
	if len(b) == 0 {
		return
	}
	m.segs = append(m.segs, seg{at, append([]byte(nil), b...)})
	if at+int64(len(b)) > m.size {
		m.size = at + int64(len(b))
	}
}

// get is the contents of [at, at+n) as far as it lies in the file.
func (m *image) get(at int64, n int) []byte {
	if at >= m.size {
		return nil
	}
	if int64(n) > m.size-at {
		n = int(m.size - at)
	}
	out := make([]byte, n)
	for _, s := range m.segs {
		for i := range s.b {
			if p := s.at + int64(i); p >= at && p-at < int64(n) {
				out[p-at] = s.b[i]
			}
		}
	}
	return out
}

// near are places where something could have gone wrong.
func (m *image) near(at int64, n int) [][2]int64 {
	clampAt := func(a int64) int64 {
		if a < 0 {
			return 0
		}
		return a
	}
	v := [][2]int64{{0, 64}, {clampAt(at - 64), int64(n) + 128}, {clampAt(m.size - 64), 128}}
	for _, s := range m.segs {
		v = append(v, [2]int64{clampAt(s.at - 16), int64(len(s.b)) + 32})
	}
	return v
}

// differs compares a file with the reference.
func (m *image) differs(in *simrt.Inode, at int64, n int) string {
	if in.Size != m.size {
		return fmt.Sprintf("its size is %d, it has to be %d", in.Size, m.size)
	}
	for _, r := range m.near(at, n) {
		if r[1] > math.MaxInt64-r[0] {
			r[1] = math.MaxInt64 - r[0]
		}
		want := m.get(r[0], int(r[1]))
		got := make([]byte, len(want))
		in.ReadAt(got, r[0])
		for i := range want {
			if want[i] != got[i] {
				return fmt.Sprintf("the byte at %d is %#02x, it has to be %#02x", r[0]+int64(i), got[i], want[i])
			}
		}
	}
	// Nothing stored far away from what was placed.
	want := map[int64]bool{}
	for _, s := range m.segs {
		for p := s.at / 4096; p <= (s.at+int64(len(s.b))-1)/4096; p++ {
			want[p] = true
		}
	}
	var bad []int64
	for _, p := range in.Pages() {
		if !want[p] {
			d := make([]byte, 4096)
			in.ReadAt(d, p*4096)
			if !bytes.Equal(d, make([]byte, 4096)) {
				bad = append(bad, p)
			}
		}
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i] < bad[j] })
	if len(bad) > 0 {
		return fmt.Sprintf("bytes are stored in the block at %d, where nothing was written", bad[0]*4096)
	}
	return ""
}

// offset picks a position.
func offset(s *simrt.Stream, m *image) uint64 {
	switch s.Pick(8, 4, 3, 2, 2, 2, 1, 1) {
	case 0:
		return uint64(s.Intn(200))
	case 1:
		return uint64(m.size) + uint64(s.Intn(20))
	case 2:
		if m.size > 20 {
			return uint64(m.size) - uint64(s.Intn(20))
		}
		return uint64(m.size)
	case 3:
		return uint64(4096*(1+s.Intn(4))) - uint64(s.Intn(20))
	case 4:
		return 1<<(16+uint(s.Intn(46))) + uint64(s.Intn(8)) - 4
	case 5: // around the largest position
		return math.MaxInt64 - 40 + uint64(s.Intn(60))
	case 6:
		return math.MaxUint64 - uint64(s.Intn(40))
	}
	return s.U64()
}

func blocks(e *Env, hard bool) {
	s := e.Work
	n := e.N[0]
	e.Disk(0, nil)
	fs := n.FS
	if s.Chance(1, 4) {
		fs.MaxFile = []int64{1 << 44, 1 << 31, 100000}[s.Intn(3)]
	}
	if !e.Boot(0) {
		return
	}
	nfiles := 1 + s.Intn(3)
	nops := 5 + s.Intn(20)
	if e.Deep {
		nops = 5 + s.Intn(200)
	}
	if hard {
		for _, op := range []string{"write", "read", "seek"} {
			if s.Chance(1, 2) {
				fs.Faults[op] = 20 + s.Intn(300)
			}
		}
		if s.Chance(1, 2) {
			fs.ShortRd = 300
		}
		if s.Chance(1, 4) {
			fs.Room = int64(s.Intn(4000))
		}
	}
	var tasks []*simrt.Task
	for k := 0; k < nfiles; k++ {
		name := fmt.Sprintf("file%d", k)
		tasks = append(tasks, n.Go("blocks of "+name, func() { e.oneFile(name, nops) }))
	}
	if !simrt.Wait(5*Milli, 300*Second, func() bool {
		for _, t := range tasks {
			if !t.Done() {
				return e.ended
			}
		}
		return true
	}) {
		e.Fail("file operation blocks", "reading and writing blocks does not finish: %s", e.W.BlockedReport(n))
	}
}

// oneFile receives a file and reads and writes blocks of it, through the
// handle it was received with and through one it is sent with.
func (e *Env) oneFile(name string, nops int) {
	s := e.Work
	b := e.B[0]
	fs := e.N[0].FS
	wr, err := b.FileOpen(name, "get")
	if err != nil || wr == nil || wr.Nil() {
		e.Fail("free name refused", "get of %q is refused: %v", name, err)
		return
	}
	in := wr.Sim().Inode()
	var rd api.File
	open := func() {
		if rd != nil {
			rd.Close()
		}
		rd, err = b.FileOpen(name, "put")
		if err != nil || rd == nil || rd.Nil() {
			e.Fail("existing file not sent", "put of %q is refused: %v", name, err)
		}
	}
	open()
	m := &image{}
	me := simrt.Cur().ID
	bad := func(mark int) bool { return faulted(fs, me, mark) }
	closed := false
	for i := 0; i < nops && !e.ended; i++ {
		pos := offset(s, m)
		beyond := pos > uint64(fs.MaxFile)
		f, other := wr, rd
		if s.Chance(1, 4) {
			f, other = other, f
		}
		_ = other
		mark := len(fs.Log)
		switch s.Pick(8, 8, 2, 1, 1) {
		case 0: // write
			data := s.Blob([]int{0, 1, 7, 30, 100, 1400, 5000}[s.Intn(7)])
			was := append([]byte(nil), data...)
			k, err := f.Write(pos, data)
			e.Count("blocks written", 1)
			if !bytes.Equal(was, data) {
				e.Fail("block changed", "writing a block to %q changes the caller's block", name)
				return
			}
			if k < 0 || k > len(data) {
				e.Fail("number of bytes written", "writing %d bytes to %q reports %d bytes written", len(data), name, k)
				return
			}
			if err == nil && k != len(data) {
				e.Fail("incomplete write not reported", "writing %d bytes at %d of %q reports %d bytes and no error", len(data), pos, name, k)
				return
			}
			if err == nil && len(data) > 0 && (beyond || f == rd || (closed && f == wr)) {
				e.Fail("impossible write not reported", "writing %d bytes at %d of %q (read only %v, closed %v) reports no error", len(data), pos, name, f == rd, closed)
				return
			}
			if k > 0 {
				if pos > math.MaxInt64 {
					e.Fail("impossible write not reported", "writing at %d of %q reports %d bytes written", pos, name, k)
					return
				}
				m.put(int64(pos), data[:k])
			}
			if err != nil {
				e.Count("failed writes", 1)
				if !bad(mark) && !beyond && uint64(len(data)) <= uint64(fs.MaxFile)-min(pos, uint64(fs.MaxFile)) && f == wr && !closed && fs.Room < 0 {
					e.Fail("possible write refused", "writing %d bytes at %d of %q fails: %v", len(data), pos, name, err)
					return
				}
			}
		case 1: // read
			ask := []int{0, 1, 8, 50, 300, 6000}[s.Intn(6)]
			got, err := f.Read(pos, ask)
			e.Count("blocks read", 1)
			if err != nil {
				e.Count("failed reads", 1)
				if !bad(mark) && int64(pos) >= 0 && int64(pos) < m.size && !(closed && f == wr) {
					e.Fail("possible read refused", "reading %d bytes at %d of %q (%d bytes long) fails: %v", ask, pos, name, m.size, err)
					return
				}
				break
			}
			if len(got) > ask {
				e.Fail("more read than asked", "reading %d bytes at %d of %q gives %d bytes", ask, pos, name, len(got))
				return
			}
			if ask > 0 && (beyond || int64(pos) >= m.size || (closed && f == wr)) {
				e.Fail("unreadable position not reported", "reading %d bytes at %d of %q (%d bytes long, closed %v) gives %d bytes and no error", ask, pos, name, m.size, closed, len(got))
				return
			}
			if ask > 0 && beyond {
				break
			}
			want := m.get(int64(pos), ask)
			if len(got) > len(want) || !bytes.Equal(got, want[:len(got)]) {
				e.Fail("other bytes read", "reading %d bytes at %d of %q gives %q, it holds %q", ask, pos, name, clip(string(got), 60), clip(string(want), 60))
				return
			}
		case 2: // seek
			err := f.Seek(pos)
			if err == nil && (beyond || (closed && f == wr)) {
				e.Fail("impossible seek not reported", "seeking to %d of %q (closed %v) reports no error", pos, name, closed)
				return
			}
			if err != nil && !beyond && !bad(mark) && !(closed && f == wr) {
				e.Fail("possible seek refused", "seeking to %d of %q fails: %v", pos, name, err)
				return
			}
		case 3: // end of the reception, or of the sending
			if s.Chance(1, 2) {
				open()
			} else if s.Chance(1, 3) && !closed {
				if err := wr.Close(); err != nil {
					e.Fail("close fails", "closing %q fails: %v", name, err)
					return
				}
				closed = true
			}
		case 4: // something of the disk comes in between
			simrt.Sleep(int64(s.Intn(3)) * Milli)
		}
		if e.ended {
			return
		}
		if d := m.differs(in, int64(pos), 6000); d != "" {
			e.Fail("file contents", "after operation %d on %q (at %d): %s", i, name, pos, d)
			return
		}
		e.Count("files compared", 1)
	}
	if s.Chance(1, 5) && !e.ended {
		none, err := b.FileOpen(name, "delete")
		if err != nil || none == nil || !none.Nil() {
			return
		}
		if _, err := none.Write(0, []byte("x")); err == nil {
			e.Fail("impossible write not reported", "writing to no file reports no error")
		} else if _, err := none.Read(0, 1); err == nil {
			e.Fail("unreadable position not reported", "reading from no file reports no error")
		} else if none.Seek(0) == nil {
			e.Fail("impossible seek not reported", "seeking in no file reports no error")
		}
	}
}
