package harness

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"hash/crc32"
	"net"
	"strings"

	"simmod/api"
	"simmod/simrt"
)

func init() {
	reg("P02", Scenario{Name: "frames from other hosts", Weight: 2, Fn: wellformed})
	reg("P02", Scenario{Name: "node to node", Weight: 4, Nodes: 2, Fn: nodeToNode})
}

func wellformed(e *Env) {
	s := e.Work
	mtu := []int{1500, 1500, 1280, 9000}[s.Intn(4)]
	e.N[0].MTU = mtu
	e.Disk(0, nil)
	e.someFiles(0)
	if !e.Boot(0) {
		return
	}
	e.netFaults(false)
	n := 5 + s.Intn(30)
	if e.Deep {
		n = 5 + s.Intn(150)
	}
	for k := 0; k < n && !e.ended; k++ {
		from := host(1+s.Intn(3), s.Chance(1, 3), 7540+s.Intn(4))
		f := frame(s, kinds[s.Intn(5)], mtu-60)
		b := refEncode(f)
		if s.Chance(1, 20) && f.Kind == "data" && len(b) < mtu-60 { // as long as can be
			b = append(b, s.Blob(mtu-60-len(b))...)
		}
		e.send(from, b)
		if s.Chance(1, 3) {
			simrt.Sleep(int64(s.Intn(30)) * Milli)
		}
		if s.Chance(1, 25) {
			e.N[0].Stall(int64(s.Intn(800)) * Milli)
		}
	}
	if e.ended || !e.drain(0) {
		return
	}
	e.judge(0)
}

// sent is a frame given to a node to send.
type sent struct {
	spec   api.Spec
	want   api.Frame
	refuse int // 0: has to go out, 1: must be refused, 2: either
	task   *simrt.Task
	err    error
	made   bool
	wall   int64
	tstype int // expected timestamp type, -1 none
	fs     bool
	to     net.UDPAddr
}

func sumOf(kind string, b []byte) []byte {
	switch kind {
	case "crc32":
		v := crc32.ChecksumIEEE(b)
		return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case "md5":
		x := md5.Sum(b)
		return x[:]
	case "sha1":
		x := sha1.Sum(b)
		return x[:]
	}
	return nil
}

func big(s *simrt.Stream, d uint32) uint64 {
	if d < 2 && s.Chance(1, 6) { // does not fit
		switch s.Intn(3) {
		case 0:
			return maxN(d) + 1
		case 1:
			return maxN(d) + 1 + uint64(s.Intn(1000))
		}
		return num(s, 2) | (maxN(d) + 1)
	}
	return num(s, d)
}

func flagList(s *simrt.Stream, f []string) string {
	sep := ","
	if s.Chance(1, 10) {
		sep = " , "
	}
	// The order of flags does not matter.
	for i := len(f) - 1; i > 0; i-- {
		j := s.Intn(i + 1)
		f[i], f[j] = f[j], f[i]
	}
	return strings.Join(f, sep)
}

// drawSend draws something for a node to send.
func (e *Env) drawSend(i int) *sent {
	s := e.Work
	x := &sent{tstype: -1}
	kind := kinds[s.Intn(5)]
	x.spec.Kind = kind
	x.spec.UseMake = s.Chance(1, 3)
	d := uint32(s.Intn(3))
	yn := []string{"no", "yes"}
	var fl []string
	w := api.Frame{Kind: kind}
	switch kind {
	case "beacon":
		st, tx, rx, ul := s.Intn(2), s.Intn(4), s.Intn(4), s.Intn(2)
		w.Header = header(tBeacon, fDesc, d, fStream, uint32(st), fTx, uint32(tx), fRx, uint32(rx), fUlite, uint32(ul))
		fl = append(fl, "descriptor="+descNames[d], "stream="+yn[st], "txwilling="+willNames[tx], "rxwilling="+willNames[rx], "udplite="+yn[ul])
		w.Eid = clipB(eidOf(s), 700)
		for len(w.Eid) < 4 {
			w.Eid += "e"
		}
		if s.Chance(2, 3) {
			fl = append(fl, "freespace=yes")
			w.Header = fFree.set(w.Header, 1)
			x.fs = true
			v := num(s, uint32(s.Intn(3)))
			x.spec.Freespace = v
			if v == 0 {
				f := e.N[i].FS
				v = uint64(f.Bsize) * f.Bavail / 1024
			}
			if v == maxN(2) {
				x.refuse = 2
			}
			w.Freespace = v
			switch s.Intn(8) { // the size given for the free space is replaced by one that holds it
			case 0:
				fl[len(fl)-1] = "freespaced=" + descNames[s.Intn(3)]
			case 1:
				fl = append(fl, "freespaced="+descNames[s.Intn(3)])
			case 2:
				if !x.spec.UseMake {
					fl[len(fl)-1] = "freespaced=" + []string{"d128", "d8", "yes", ""}[s.Intn(4)]
					x.refuse = 1
				}
			}
		} else {
			fl = append(fl, "freespace=no")
		}
		x.spec.Eid = w.Eid
	case "request":
		st, tx, rx, ul, rt := s.Intn(2), s.Intn(4), s.Intn(4), s.Intn(2), s.Intn(7)
		w.Header = header(tRequest, fDesc, d, fStream, uint32(st), fTx, uint32(tx), fRx, uint32(rx), fUlite, uint32(ul), fReqType, uint32(rt))
		fl = append(fl, "descriptor="+descNames[d], "stream="+yn[st], "txwilling="+willNames[tx], "rxwilling="+willNames[rx], "udplite="+yn[ul], "reqtype="+reqNames[rt])
		w.Session = sessNo(s)
		w.Fname = name(s, 900)
		if s.Chance(1, 2) {
			w.Auth = s.Bytes(1 + s.Intn(20))
			if s.Chance(1, 4) { // few different bytes
				for i := range w.Auth {
					w.Auth[i] &= 128
				}
			}
		}
		if s.Chance(1, 10) {
			k := s.Intn(len(w.Fname) + 1)
			w.Fname = w.Fname[:k] + "\x00" + w.Fname[k:]
			x.refuse = 1
		}
		x.spec.Session, x.spec.Fname, x.spec.Auth = w.Session, w.Fname, w.Auth
	case "data":
		rs, eod, tr := s.Intn(2), s.Intn(2), s.Intn(2)
		w.Header = header(tData, fDesc, d, fReqSt, uint32(rs), fEod, uint32(eod), fTransf, uint32(tr))
		fl = append(fl, "descriptor="+descNames[d], "reqstatus="+yn[rs], "eod="+yn[eod], "transfer="+[]string{"file", "directory"}[tr])
		x.addTs(s, &w, &fl)
		w.Session = sessNo(s)
		w.Offset = big(s, d)
		if w.Offset > maxN(d) {
			x.refuse = 1
		}
		w.Payload = s.Blob(1 + s.Intn(900))
		x.spec.Session, x.spec.Offset, x.spec.Payload = w.Session, w.Offset, append([]byte(nil), w.Payload...)
	case "status":
		mr, ah, rh, ec := s.Intn(2), s.Intn(2), s.Intn(2), s.Intn(len(errNames))
		w.Header = header(tStatus, fDesc, d, fMetaRx, uint32(mr), fAllH, uint32(ah), fReqH, uint32(rh), fErr, uint32(ec))
		ny := []string{"yes", "no"}
		fl = append(fl, "descriptor="+descNames[d], "metadatarecvd="+ny[mr], "allholes="+ny[ah], "reqholes="+[]string{"requested", "voluntarily"}[rh], "errcode="+errNames[ec])
		x.addTs(s, &w, &fl)
		w.Session = sessNo(s)
		w.Progress, w.Inrespto = big(s, d), big(s, d)
		if w.Progress > maxN(d) || w.Inrespto > maxN(d) {
			x.refuse = 1
		}
		for k := 0; k < s.Pick(3, 1, 1, 1)*s.Intn(8); k++ {
			h := api.Hole{Start: int(big(s, d) & (1<<63 - 1)), End: int(big(s, d) & (1<<63 - 1))}
			if s.Chance(1, 40) {
				h.Start = -1 - s.Intn(5)
			}
			if h.Start < 0 || uint64(h.Start) > maxN(d) || uint64(h.End) > maxN(d) {
				x.refuse = 1
			}
			w.Holes = append(w.Holes, h)
		}
		x.spec.Session, x.spec.Progress, x.spec.Inrespto, x.spec.Holes = w.Session, w.Progress, w.Inrespto, append([]api.Hole(nil), w.Holes...)
	case "metadata":
		pr, re, ct := s.Intn(2), s.Intn(2), s.Intn(4)
		w.Header = header(tMetadata, fDesc, d, fProgr, uint32(pr), fRelia, uint32(re), fTransf, uint32(0), fCsLen, csLens[ct], fCsType, uint32(ct))
		fl = append(fl, "descriptor="+descNames[d], "progress="+[]string{"inprogress", "terminated"}[pr], "reliability="+[]string{"udponly", "udplite"}[re], "transfer=file", "csumtype="+csNames[ct])
		w.Session = sessNo(s)
		fn := fmt.Sprintf("m%d", s.Intn(4))
		if s.Chance(1, 3) {
			fn = "m" + strings.Map(func(r rune) rune {
				if r == '/' || r == 0 {
					return '_'
				}
				return r
			}, string(s.Bytes(1+s.Intn(30))))
		}
		if s.Chance(1, 6) { // a long path, a frame holds 1024 bytes of it
			n := 1000 + s.Intn(25)
			if s.Chance(1, 4) {
				n, x.refuse = 1025+s.Intn(3), 2
			}
			fn = strings.Repeat("mmmmmmmm/", 110)
			fn += strings.Repeat("m", n-len(fn))
		}
		n := []int{0, 1, 5, 100, 65534, 65535, 65536, 70000}[s.Intn(8)]
		data := s.Blob(n)
		if ino := e.N[i].FS.Get(Sardir + "/" + fn); ino != nil {
			data = ino.Bytes()
		} else {
			e.N[i].FS.Put(Sardir+"/"+fn, data)
		}
		w.Checksum = sumOf(csNames[ct], data)
		w.Dir.Size = uint64(len(data))
		w.Dir.Path = fn
		x.spec.Session, x.spec.Fname = w.Session, fn
	}
	x.want = w
	x.spec.Header = w.Header
	if x.spec.UseMake && s.Chance(1, 2) { // these are always set
		x.spec.Header = fVersion.set(x.spec.Header, uint32(s.Intn(8)))
		x.spec.Header = fType.set(x.spec.Header, uint32(s.Intn(32)))
	}
	if !x.spec.UseMake && s.Chance(1, 15) && len(fl) > 0 {
		// A flag that does not exist, or a value it does not have.
		k := s.Intn(len(fl))
		name := strings.SplitN(fl[k], "=", 2)[0]
		if strings.Contains(fl[k], "=") {
			fl[k] = []string{name + "=nonsense", name + "=", "no" + name + "=yes", name + "=yess", strings.ToUpper(name) + "=no"}[s.Intn(5)]
			x.refuse = 1
		}
	}
	x.spec.Flags = flagList(s, fl)
	return x
}

func (x *sent) addTs(s *simrt.Stream, w *api.Frame, fl *[]string) {
	switch s.Intn(3) {
	case 0:
		*fl = append(*fl, "reqtstamp=no")
	case 1:
		*fl = append(*fl, "reqtstamp=yes")
		w.Header = fTstamp.set(w.Header, 1)
		x.tstype = 1
	case 2:
		w.Header = fTstamp.set(w.Header, 1)
		if x.spec.UseMake {
			x.tstype = 1
			break
		}
		x.tstype = s.Intn(6)
		if x.spec.Kind == "data" {
			*fl = append(*fl, "reqtstamp="+tsNames[x.tstype])
		} else {
			*fl = append(*fl, tsNames[x.tstype])
		}
	}
}

// give has the node make and send the frame.
func (e *Env) give(i int, x *sent, v6, connected bool) {
	n, b := e.N[i], e.B[i]
	x.to = group4()
	if v6 {
		x.to = group6()
	}
	if x.spec.Kind == "beacon" {
		connected = true
	}
	spec := x.spec
	x.task = n.Go("send "+spec.Kind, func() {
		f, err := b.Make(spec)
		if err != nil {
			x.err = err
			return
		}
		x.made = true
		var c api.Conn
		if connected {
			c, err = b.DialUDP(&x.to)
		} else {
			c, err = b.ListenUDP(&net.UDPAddr{})
		}
		if err != nil {
			x.err = fmt.Errorf("harness: %v", err)
			return
		}
		x.err = f.Send(c, &x.to)
		c.Close()
	})
}

// checkSent compares what went out with what was to be sent.
func (e *Env) checkSent(i int, x *sent, faults bool) bool {
	var out []simrt.Dgram
	for _, d := range e.W.Net.Sent {
		if d.Node == i && d.Task == x.task.ID {
			out = append(out, d)
		}
	}
	what := fmt.Sprintf("%s with flags %q", brief(x.want), x.spec.Flags)
	if x.spec.UseMake {
		what = fmt.Sprintf("%s with header %08x", brief(x.want), x.spec.Header)
	}
	if !x.task.Done() {
		e.Fail("send blocks", "sending %s does not finish: %s", what, x.task.Why())
		return false
	}
	if x.err != nil {
		if len(out) > 0 {
			e.Fail("refused but sent: "+x.spec.Kind, "%s: error %q, but %d datagrams went out", what, x.err, len(out))
			return false
		}
		if x.refuse == 0 && !faults {
			e.Fail("send refused: "+x.spec.Kind, "%s cannot be sent: %v", what, x.err)
			return false
		}
		e.Count("sends refused", 1)
		return true
	}
	if x.refuse == 1 {
		e.Fail("not representable but sent: "+x.spec.Kind, "%s cannot be represented, but was sent as %x", what, dataOf(out))
		return false
	}
	if len(out) != 1 {
		e.Fail("not sent once: "+x.spec.Kind, "%s was reported as sent, %d datagrams went out", what, len(out))
		return false
	}
	d := out[0]
	if !sameAddr(d.Dst, x.to) {
		e.Fail("sent elsewhere", "%s went to %s instead of %s", what, d.Dst.String(), x.to.String())
		return false
	}
	v := refDecode(d.Data, 65000)
	if v.v != vAccept {
		e.Fail("malformed frame sent: "+x.spec.Kind, "%s went out as %x: %s", what, d.Data, v.why)
		return false
	}
	got, want := v.frame, x.want
	if want.Kind == "beacon" && x.fs { // any size that holds the value
		want.Header = fFreeD.set(want.Header, fFreeD.get(got.Header))
	}
	if x.tstype >= 0 {
		if len(got.Tstamp.Put) != 16 || int(got.Tstamp.Put[0]) != x.tstype {
			e.Fail("timestamp type on the wire", "%s went out with timestamp %x, type %d was asked for", what, got.Tstamp.Put, x.tstype)
			return false
		}
		want.Tstamp.Put = got.Tstamp.Put
	}
	if want.Kind == "metadata" {
		h := got.Dir.Header
		if h&0x8000 == 0 || h>>8&3 != 0 {
			e.Fail("entry header", "%s: entry header %04x", what, h)
			return false
		}
		want.Dir.Header = h
		want.Dir.Mtime, want.Dir.Ctime = got.Dir.Mtime, got.Dir.Ctime
	}
	if df := diff(want, got); df != "" {
		e.Fail("wrong on the wire: "+x.spec.Kind, "%s went out with %s (%x)", what, df, clipBytes(d.Data, 80))
		return false
	}
	e.Count("sends judged", 1)
	return true
}

func clipBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func dataOf(o []simrt.Dgram) []byte {
	if len(o) == 0 {
		return nil
	}
	return bytes.Clone(clipBytes(o[0].Data, 80))
}

func nodeToNode(e *Env) {
	s := e.Work
	for i := range e.N {
		e.N[i].MTU = 1500
		e.Disk(i, nil)
	}
	if !e.Boot(0) || !e.Boot(1) {
		return
	}
	e.netFaults(false)
	errs := s.Chance(1, 5)
	if errs {
		e.W.Net.Cfg.WriteErr = 150
	}
	n := 3 + s.Intn(20)
	if e.Deep {
		n = 3 + s.Intn(80)
	}
	var all []*sent
	var from []int
	for k := 0; k < n && !e.ended; k++ {
		i := s.Intn(2)
		x := e.drawSend(i)
		e.give(i, x, s.Chance(1, 3), s.Chance(1, 2))
		all = append(all, x)
		from = append(from, i)
		if s.Chance(1, 2) {
			simrt.Sleep(int64(s.Intn(20)) * Milli)
		}
	}
	simrt.Sleep(50 * Milli)
	if e.ended || !e.drain(0) || !e.drain(1) {
		return
	}
	for k, x := range all {
		if !e.checkSent(from[k], x, errs) {
			return
		}
	}
	for i := range e.N {
		e.judge(i)
		if e.ended {
			return
		}
	}
}
