package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"

	"simmod/api"
)

// The layout of frames as documented with the program, independent of its
// code and of its configuration file.

type field struct{ msb, n int }

var (
	fVersion = field{0, 3}
	fType    = field{3, 5}
	fDesc    = field{8, 2}
	fTransf  = field{10, 2}
	fStream  = field{11, 1}
	fTx      = field{12, 2}
	fRx      = field{14, 2}
	fTstamp  = field{12, 1}
	fProgr   = field{12, 1}
	fMetaRx  = field{13, 1}
	fRelia   = field{13, 1}
	fAllH    = field{14, 1}
	fReqH    = field{15, 1}
	fReqSt   = field{15, 1}
	fUlite   = field{16, 1}
	fEod     = field{16, 1}
	fFree    = field{17, 1}
	fFreeD   = field{18, 2}
	fReqType = field{24, 8}
	fErr     = field{24, 8}
	fCsLen   = field{24, 4}
	fCsType  = field{28, 4}
)

func (f field) get(h uint32) uint32 { return h >> (32 - f.msb - f.n) & (1<<f.n - 1) }
func (f field) set(h, v uint32) uint32 {
	sh := uint(32 - f.msb - f.n)
	m := uint32(1<<f.n-1) << sh
	return h&^m | v<<sh&m
}

const (
	tBeacon = iota
	tRequest
	tMetadata
	tData
	tStatus
)

var kinds = []string{"beacon", "request", "metadata", "data", "status"}

var errNames = []string{"success", "unspecified", "cantsend", "cantreceive", "filenotfound", "accessdenied", "unknownid",
	"didnotdelete", "filetobig", "badoffset", "badpacket", "badrequest", "internaltimeout", "baddataflag", "rxnotinterested",
	"fileinuse", "metadatarequired", "badstatus", "rxtimeout"}

func errCode(name string) uint32 {
	for i, n := range errNames {
		if n == name {
			return uint32(i)
		}
	}
	panic(name)
}

var reqNames = []string{"noaction", "get", "put", "take", "give", "delete", "getdir"}
var willNames = []string{"no", "invalid", "capable", "yes"}
var descNames = []string{"d16", "d32", "d64", "d128"}
var tsNames = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}
var csNames = []string{"none", "crc32", "md5", "sha1"}
var csLens = []uint32{0, 1, 4, 5}

// header makes a header of version 1.
func header(typ uint32, fv ...any) uint32 {
	h := fType.set(fVersion.set(0, 1), typ)
	for i := 0; i+1 < len(fv); i += 2 {
		v, ok := fv[i+1].(uint32)
		if !ok {
			v = uint32(fv[i+1].(int))
		}
		h = fv[i].(field).set(h, v)
	}
	return h
}

func putN(b []byte, d uint32, v uint64) []byte {
	switch d {
	case 0:
		return binary.BigEndian.AppendUint16(b, uint16(v))
	case 1:
		return binary.BigEndian.AppendUint32(b, uint32(v))
	case 2:
		return binary.BigEndian.AppendUint64(b, v)
	}
	return append(b, make([]byte, 16)...)
}

func getN(b []byte, d uint32) uint64 {
	switch d {
	case 0:
		return uint64(binary.BigEndian.Uint16(b))
	case 1:
		return uint64(binary.BigEndian.Uint32(b))
	}
	return binary.BigEndian.Uint64(b)
}

func sizeN(d uint32) int { return 2 << d }

func maxN(d uint32) uint64 {
	switch d {
	case 0:
		return 1<<16 - 1
	case 1:
		return 1<<32 - 1
	}
	return 1<<64 - 1
}

// refDirent encodes a directory entry.
func refDirent(hdr uint16, size uint64, mtime, ctime uint32, path string) []byte {
	b := binary.BigEndian.AppendUint16(nil, hdr)
	b = putN(b, uint32(hdr>>6&3), size)
	b = binary.BigEndian.AppendUint32(b, mtime)
	b = binary.BigEndian.AppendUint32(b, ctime)
	return append(append(b, path...), 0)
}

func direntHdr(prop, desc uint32) uint16 { return 0x8000 | uint16(prop)<<8 | uint16(desc)<<6 }

// refEncode encodes a frame. Tstamp.Put holds the 16 bytes of a timestamp.
func refEncode(f api.Frame) []byte {
	h := f.Header
	b := binary.BigEndian.AppendUint32(nil, h)
	switch f.Kind {
	case "beacon":
		if fFree.get(h) == 1 {
			b = putN(b, fFreeD.get(h), f.Freespace)
		}
		return append(b, f.Eid...)
	case "request":
		b = binary.BigEndian.AppendUint32(b, f.Session)
		b = append(append(b, f.Fname...), 0)
		return append(b, f.Auth...)
	case "data":
		b = binary.BigEndian.AppendUint32(b, f.Session)
		if fTstamp.get(h) == 1 {
			b = append(b, f.Tstamp.Put...)
		}
		b = putN(b, fDesc.get(h), f.Offset)
		return append(b, f.Payload...)
	case "status":
		b = binary.BigEndian.AppendUint32(b, f.Session)
		if fTstamp.get(h) == 1 {
			b = append(b, f.Tstamp.Put...)
		}
		d := fDesc.get(h)
		b = putN(b, d, f.Progress)
		b = putN(b, d, f.Inrespto)
		for _, x := range f.Holes {
			b = putN(b, d, uint64(x.Start))
			b = putN(b, d, uint64(x.End))
		}
		return b
	case "metadata":
		b = binary.BigEndian.AppendUint32(b, f.Session)
		b = append(b, f.Checksum...)
		return append(b, refDirent(f.Dir.Header, f.Dir.Size, uint32(f.Dir.Mtime.Secs), uint32(f.Dir.Ctime.Secs), f.Dir.Path)...)
	}
	panic(f.Kind)
}

// What has to happen to a datagram.
const (
	vAccept = iota // handed on with exactly these values
	vDrop          // dropped silently
	vBad           // answered by one bad-packet status
	vEither        // handed on with these values or refused as malformed
)

type verdict struct {
	v       int
	frame   api.Frame
	session uint32
	hasSess bool   // the answer has to carry session
	refuse  int    // for vEither: vDrop or vBad
	why     string // what is wrong with it
}

// refDecode decides what has to happen to a datagram that arrives at a node
// with the given MTU.
func refDecode(b []byte, mtu int) verdict {
	if len(b) < 8 || len(b) > mtu-60 {
		return verdict{v: vDrop, why: "illegal length"}
	}
	h := binary.BigEndian.Uint32(b)
	if fVersion.get(h) != 1 {
		return verdict{v: vBad, why: "wrong version"}
	}
	sess := binary.BigEndian.Uint32(b[4:])
	bad := func(why string) verdict { return verdict{v: vBad, session: sess, hasSess: true, why: why} }
	f := api.Frame{Header: h, Session: sess}
	switch fType.get(h) {
	case tBeacon:
		f.Kind = "beacon"
		f.Session = 0
		pos := 4
		if fFree.get(h) == 1 {
			d := fFreeD.get(h)
			if d == 3 {
				return verdict{v: vDrop, why: "beacon with 128 bit free space"}
			}
			if len(b) < 4+sizeN(d) {
				return verdict{v: vDrop, why: "beacon free space cut short"}
			}
			f.Freespace = getN(b[4:], d)
			pos += sizeN(d)
		}
		f.Eid = string(b[pos:])
		if fDesc.get(h) == 3 {
			return verdict{v: vEither, frame: f, refuse: vDrop, why: "beacon advertising 128 bit descriptors"}
		}
		return verdict{v: vAccept, frame: f}
	case tRequest:
		f.Kind = "request"
		k := bytes.IndexByte(b[8:], 0)
		if k < 0 {
			return verdict{v: vDrop, why: "request name not terminated"}
		}
		f.Fname = string(b[8 : 8+k])
		f.Auth = b[8+k+1:]
		if fDesc.get(h) == 3 {
			return verdict{v: vEither, frame: f, refuse: vDrop, why: "request with 128 bit descriptors"}
		}
		return verdict{v: vAccept, frame: f}
	case tData, tStatus:
		f.Kind = kinds[fType.get(h)]
		d := fDesc.get(h)
		if d == 3 {
			return bad(f.Kind + " with 128 bit descriptors")
		}
		n := sizeN(d)
		if f.Kind == "status" {
			n *= 2
		}
		pos := 8
		either := ""
		if fTstamp.get(h) == 1 {
			if len(b) < 24+n {
				return bad(f.Kind + " cut short")
			}
			f.Tstamp.Put = b[8:24]
			if b[8] > 5 {
				either = "undefined timestamp type"
			}
			pos = 24
		}
		if len(b) < pos+n {
			return bad(f.Kind + " cut short")
		}
		if f.Kind == "data" {
			f.Offset = getN(b[pos:], d)
			f.Payload = b[pos+n:]
			if len(f.Payload) == 0 {
				either = "no payload"
			}
		} else {
			f.Progress = getN(b[pos:], d)
			f.Inrespto = getN(b[pos+n/2:], d)
			for p := pos + n; p+n <= len(b); p += n {
				f.Holes = append(f.Holes, api.Hole{Start: int(getN(b[p:], d)), End: int(getN(b[p+n/2:], d))})
			}
			if (len(b)-pos)%n != 0 {
				either = "part of a hole"
			}
		}
		if either != "" {
			return verdict{v: vEither, frame: f, refuse: vBad, session: sess, hasSess: true, why: either}
		}
		return verdict{v: vAccept, frame: f}
	case tMetadata:
		f.Kind = "metadata"
		cl := int(fCsLen.get(h)) * 4
		if len(b) < 8+cl+2 {
			return bad("metadata checksum cut short")
		}
		f.Checksum = b[8 : 8+cl]
		dir, why := refDirDecode(b[8+cl:])
		if why != "" {
			return bad("metadata " + why)
		}
		f.Dir = dir
		if fDesc.get(h) == 3 || fCsType.get(h) > 3 || csLens[fCsType.get(h)] != fCsLen.get(h) || dir.Header&0x8000 == 0 ||
			len(dir.Path) > 1024 {
			return verdict{v: vEither, frame: f, refuse: vBad, session: sess, hasSess: true, why: "odd metadata"}
		}
		return verdict{v: vAccept, frame: f}
	}
	return verdict{v: vDrop, why: "undefined frame type"}
}

func refDirDecode(b []byte) (d api.Dirent, why string) {
	if len(b) < 2 {
		return d, "entry cut short"
	}
	d.Header = binary.BigEndian.Uint16(b)
	desc := uint32(d.Header >> 6 & 3)
	if desc == 3 {
		return d, "entry with 128 bit descriptor"
	}
	n := sizeN(desc)
	if len(b) < 2+n+8 {
		return d, "entry cut short"
	}
	d.Size = getN(b[2:], desc)
	d.Mtime.Secs = uint64(binary.BigEndian.Uint32(b[2+n:]))
	d.Ctime.Secs = uint64(binary.BigEndian.Uint32(b[6+n:]))
	k := bytes.IndexByte(b[10+n:], 0)
	if k < 0 {
		return d, "path not terminated"
	}
	d.Path = string(b[10+n : 10+n+k])
	return d, ""
}

// sameTS compares the defined part of two timestamps on the wire.
func sameTS(a, b []byte) bool {
	if len(a) != 16 || len(b) != 16 || a[0] != b[0] {
		return false
	}
	n := 15
	switch a[0] {
	case 1, 5:
		n = 5
	case 2, 3:
		n = 9
	case 4:
		n = 13
	}
	return bytes.Equal(a[:n], b[:n])
}

// diff tells how a frame got differs from the frame wanted, "" if it does
// not.
func diff(want, got api.Frame) string {
	if want.Kind != got.Kind {
		return fmt.Sprintf("kind %s instead of %s", got.Kind, want.Kind)
	}
	if want.Header != got.Header {
		return fmt.Sprintf("header %08x instead of %08x", got.Header, want.Header)
	}
	h := want.Header
	if want.Kind != "beacon" && want.Session != got.Session {
		return fmt.Sprintf("session %d instead of %d", got.Session, want.Session)
	}
	switch want.Kind {
	case "beacon":
		if want.Freespace != got.Freespace {
			return fmt.Sprintf("free space %d instead of %d", got.Freespace, want.Freespace)
		}
		if want.Eid != got.Eid {
			return fmt.Sprintf("eid %q instead of %q", got.Eid, want.Eid)
		}
	case "request":
		if want.Fname != got.Fname {
			return fmt.Sprintf("name %q instead of %q", got.Fname, want.Fname)
		}
		if !bytes.Equal(want.Auth, got.Auth) {
			return fmt.Sprintf("auth %x instead of %x", got.Auth, want.Auth)
		}
	case "data":
		if fTstamp.get(h) == 1 && !sameTS(want.Tstamp.Put, got.Tstamp.Put) {
			return fmt.Sprintf("timestamp %x instead of %x", got.Tstamp.Put, want.Tstamp.Put)
		}
		if want.Offset != got.Offset {
			return fmt.Sprintf("offset %d instead of %d", got.Offset, want.Offset)
		}
		if !bytes.Equal(want.Payload, got.Payload) {
			return fmt.Sprintf("payload of %d bytes %s instead of %d bytes %s", len(got.Payload), clip(fmt.Sprintf("%x", got.Payload), 60), len(want.Payload), clip(fmt.Sprintf("%x", want.Payload), 60))
		}
	case "status":
		if fTstamp.get(h) == 1 && !sameTS(want.Tstamp.Put, got.Tstamp.Put) {
			return fmt.Sprintf("timestamp %x instead of %x", got.Tstamp.Put, want.Tstamp.Put)
		}
		if want.Progress != got.Progress || want.Inrespto != got.Inrespto {
			return fmt.Sprintf("progress %d/%d instead of %d/%d", got.Progress, got.Inrespto, want.Progress, want.Inrespto)
		}
		if !sameHoles(want.Holes, got.Holes) {
			return fmt.Sprintf("holes %v instead of %v", got.Holes, want.Holes)
		}
	case "metadata":
		if !bytes.Equal(want.Checksum, got.Checksum) {
			return fmt.Sprintf("checksum %x instead of %x", got.Checksum, want.Checksum)
		}
		return diffDir(want.Dir, got.Dir)
	}
	return ""
}

func diffDir(want, got api.Dirent) string {
	if want.Header != got.Header || want.Size != got.Size || want.Path != got.Path {
		return fmt.Sprintf("entry %04x %d %q instead of %04x %d %q", got.Header, got.Size, got.Path, want.Header, want.Size, want.Path)
	}
	if want.Mtime.Secs != got.Mtime.Secs || want.Ctime.Secs != got.Ctime.Secs {
		return fmt.Sprintf("entry times %d/%d instead of %d/%d", got.Mtime.Secs, got.Ctime.Secs, want.Mtime.Secs, want.Ctime.Secs)
	}
	return ""
}

func sameHoles(a, b []api.Hole) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameAddr(a, b net.UDPAddr) bool {
	return a.Port == b.Port && a.IP.Equal(b.IP) && (a.Zone == b.Zone || !a.IP.IsLinkLocalUnicast())
}

// brief describes a frame.
func brief(f api.Frame) string {
	switch f.Kind {
	case "beacon":
		return fmt.Sprintf("beacon %08x free %d eid %q", f.Header, f.Freespace, clip(f.Eid, 40))
	case "request":
		return fmt.Sprintf("request %08x session %d name %q auth %s", f.Header, f.Session, clip(f.Fname, 40), clip(fmt.Sprintf("%x", f.Auth), 40))
	case "data":
		return fmt.Sprintf("data %08x session %d offset %d payload %d bytes", f.Header, f.Session, f.Offset, len(f.Payload))
	case "status":
		return fmt.Sprintf("status %08x session %d progress %d/%d code %d holes %s", f.Header, f.Session, f.Progress, f.Inrespto, fErr.get(f.Header), clip(fmt.Sprint(f.Holes), 80))
	}
	return fmt.Sprintf("metadata %08x session %d checksum %x entry %04x %d %q", f.Header, f.Session, f.Checksum, f.Dir.Header, f.Dir.Size, clip(f.Dir.Path, 40))
}
