package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"simmod/api"
	"simmod/simrt"
)

// num draws a number that fits in descriptor d, with a liking for the edges.
func num(s *simrt.Stream, d uint32) uint64 {
	m := maxN(d)
	switch s.Pick(3, 2, 2, 2, 2, 3, 2) {
	case 0:
		return uint64(s.Intn(300))
	case 1:
		return m - uint64(s.Intn(3))
	case 2: // around a power of two
		v := uint64(1)<<s.Intn(64) + uint64(s.Intn(3)) - 1
		return v & m
	case 3:
		return s.U64() & m
	case 4:
		return (m>>1 + uint64(s.Intn(3))) & m
	case 5:
		return uint64(s.U32()) & m
	}
	return uint64(s.Intn(1<<16)) & m
}

var someNames = []string{"a", "b", "file.txt", "dir/file", "data.bin", "x", "report-2024.csv", "sub/deep/er", "A", "été", "a b", "..x", "-", "~"}

// name draws a file name without NUL.
func name(s *simrt.Stream, max int) string {
	switch s.Pick(6, 2, 2, 1, 1) {
	case 0:
		return someNames[s.Intn(len(someNames))]
	case 1:
		return fmt.Sprintf("f%d", s.Intn(50))
	case 2:
		b := s.Bytes(1 + s.Intn(24))
		for i := range b {
			if b[i] == 0 {
				b[i] = 1
			}
		}
		return clipB(string(b), max)
	case 3:
		n := s.Intn(max + 1)
		b := s.Blob(n)
		for i := range b {
			if b[i] == 0 {
				b[i] = 'n'
			}
		}
		return string(b)
	}
	return ""
}

func clipB(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func sessNo(s *simrt.Stream) uint32 {
	switch s.Pick(4, 2, 1) {
	case 0:
		return uint32(s.Intn(8))
	case 1:
		return s.U32()
	}
	return ^uint32(0) - uint32(s.Intn(2))
}

func eidOf(s *simrt.Stream) string {
	switch s.Pick(4, 2, 1, 1) {
	case 0:
		return fmt.Sprintf("10.0.1.%d:4%d-%d", s.Intn(9), s.Intn(1000), s.Intn(9999))
	case 1:
		return string(s.Bytes(4 + s.Intn(12)))
	case 2:
		return string(s.Blob(4 + s.Intn(600)))
	}
	return "node"
}

// tstamp draws the 16 bytes of a timestamp of a defined type.
func tstamp(s *simrt.Stream) []byte {
	b := make([]byte, 16)
	t := s.Intn(6)
	b[0] = byte(t)
	switch t {
	case 1, 5:
		binary.BigEndian.PutUint32(b[1:], uint32(num(s, 1)))
	case 2:
		binary.BigEndian.PutUint64(b[1:], num(s, 2))
	case 3:
		binary.BigEndian.PutUint32(b[1:], uint32(num(s, 1)))
		binary.BigEndian.PutUint32(b[5:], s.U32()%1_000_000_000)
	case 4:
		binary.BigEndian.PutUint64(b[1:], num(s, 2))
		binary.BigEndian.PutUint32(b[9:], s.U32()%1_000_000_000)
	default:
		switch s.Pick(6, 1, 1, 1, 1, 1) {
		case 0:
			copy(b[1:], "local")
		case 1:
			copy(b[1:], " 12 h, local  ")
		case 2:
			copy(b[1:], "fourteen-bytes")
		case 3:
			copy(b[1:15], bytes.ReplaceAll(s.Bytes(1+s.Intn(14)), []byte("\n"), []byte("n")))
		case 4:
			copy(b[1:], "Day:7,T=3")
		}
	}
	return b
}

// frame draws a well-formed frame of the given kind that fits in max bytes.
func frame(s *simrt.Stream, kind string, max int) api.Frame {
	f := api.Frame{Kind: kind}
	d := uint32(s.Intn(3))
	switch kind {
	case "beacon":
		f.Header = header(tBeacon, fDesc, d, fStream, uint32(s.Intn(2)), fTx, uint32(s.Intn(4)), fRx, uint32(s.Intn(4)), fUlite, uint32(s.Intn(2)))
		if s.Chance(2, 3) {
			fd := uint32(s.Intn(3))
			f.Header = fFreeD.set(fFree.set(f.Header, 1), fd)
			f.Freespace = num(s, fd)
		}
		f.Eid = clipB(eidOf(s), max-12)
		for len(f.Eid) < 4 {
			f.Eid += "e"
		}
	case "request":
		f.Header = header(tRequest, fDesc, d, fStream, uint32(s.Pick(6, 1)), fTx, uint32(s.Pick(1, 1, 1, 6)), fRx, uint32(s.Pick(1, 1, 1, 6)),
			fUlite, uint32(s.Pick(6, 1)), fReqType, uint32(s.Pick(1, 4, 4, 3, 3, 4, 3, 1)))
		if s.Chance(1, 12) {
			f.Header = fReqType.set(f.Header, uint32(s.Intn(256)))
		}
		f.Session = sessNo(s)
		f.Fname = name(s, max-40)
		if s.Chance(1, 3) {
			f.Auth = s.Bytes(1 + s.Intn(16))
			if s.Chance(1, 4) { // few different bytes
				for i := range f.Auth {
					f.Auth[i] &= 128
				}
			}
		}
	case "data":
		f.Header = header(tData, fDesc, d, fTransf, uint32(s.Intn(4)), fTstamp, uint32(s.Intn(2)), fReqSt, uint32(s.Intn(2)), fEod, uint32(s.Intn(2)))
		f.Session = sessNo(s)
		if fTstamp.get(f.Header) == 1 {
			f.Tstamp.Put = tstamp(s)
		}
		f.Offset = num(s, d)
		n := 1 + s.Intn(40)
		if s.Chance(1, 6) {
			n = 1 + s.Intn(max-40)
		}
		f.Payload = s.Blob(n)
	case "status":
		f.Header = header(tStatus, fDesc, d, fTstamp, uint32(s.Intn(2)), fMetaRx, uint32(s.Intn(2)), fAllH, uint32(s.Intn(2)), fReqH, uint32(s.Intn(2)),
			fErr, uint32(s.Intn(len(errNames))))
		f.Session = sessNo(s)
		if fTstamp.get(f.Header) == 1 {
			f.Tstamp.Put = tstamp(s)
		}
		f.Progress = num(s, d)
		f.Inrespto = num(s, d)
		k := s.Intn(4)
		if s.Chance(1, 8) {
			k = s.Intn((max-40)/(2*sizeN(d)) - 1)
		}
		for i := 0; i < k; i++ {
			f.Holes = append(f.Holes, api.Hole{Start: int(num(s, d)), End: int(num(s, d))})
		}
	case "metadata":
		ct := s.Intn(4)
		f.Header = header(tMetadata, fDesc, d, fTransf, uint32(s.Intn(4)), fProgr, uint32(s.Intn(2)), fRelia, uint32(s.Intn(2)),
			fCsLen, csLens[ct], fCsType, uint32(ct))
		f.Session = sessNo(s)
		f.Checksum = s.Blob(int(csLens[ct]) * 4)
		dd := uint32(s.Intn(3))
		f.Dir = api.Dirent{Header: direntHdr(uint32(s.Intn(4)), dd), Size: num(s, dd), Path: name(s, 1024)}
		f.Dir.Mtime.Secs = num(s, 1)
		f.Dir.Ctime.Secs = num(s, 1)
		if len(f.Dir.Path) > max-60 {
			f.Dir.Path = f.Dir.Path[:max-60]
		}
	}
	return f
}

// mangle damages a frame.
func mangle(s *simrt.Stream, b []byte) []byte {
	b = append([]byte(nil), b...)
	switch s.Pick(4, 3, 2, 2, 2, 1, 1) {
	case 0: // cut
		return b[:s.Intn(len(b)+1)]
	case 1: // flip bits in the header
		for i := 0; i <= s.Intn(3) && len(b) > 0; i++ {
			n := len(b)
			if n > 4 {
				n = 4
			}
			b[s.Intn(n)] ^= 1 << s.Intn(8)
		}
	case 2: // flip bytes anywhere
		for i := 0; i <= s.Intn(4) && len(b) > 0; i++ {
			b[s.Intn(len(b))] = byte(s.Intn(256))
		}
	case 3: // cut near the end of the mandatory fields
		n := 4 + s.Intn(36)
		if n < len(b) {
			b = b[:n]
		}
	case 4: // more bytes
		b = append(b, s.Blob(1+s.Intn(30))...)
	case 5: // very long
		b = append(b, s.Blob(1400+s.Intn(9000))...)
	case 6: // header of another type
		if len(b) >= 4 {
			h := binary.BigEndian.Uint32(b)
			h = fType.set(h, uint32(s.Intn(32)))
			if s.Chance(1, 3) {
				h = fVersion.set(h, uint32(s.Intn(8)))
			}
			binary.BigEndian.PutUint32(b, h)
		}
	}
	return b
}

// noise draws a random datagram.
func noise(s *simrt.Stream) []byte {
	switch s.Pick(3, 2, 1) {
	case 0:
		return s.Bytes(s.Intn(40))
	case 1:
		b := s.Bytes(8 + s.Intn(60))
		b[0] = 0x20 | byte(s.Intn(6))
		return b
	}
	return s.Blob(s.Intn(3000))
}

// datagram draws any datagram: well-formed, damaged or random.
func datagram(s *simrt.Stream, max int) []byte {
	switch s.Pick(4, 5, 2) {
	case 0:
		return refEncode(frame(s, kinds[s.Intn(5)], max))
	case 1:
		b := mangle(s, refEncode(frame(s, kinds[s.Intn(5)], max)))
		if s.Chance(1, 4) {
			b = mangle(s, b)
		}
		return b
	}
	return noise(s)
}

// frameBeacon is a plain beacon.
func frameBeacon(eid string) []byte {
	return refEncode(api.Frame{Kind: "beacon", Header: header(tBeacon, fDesc, uint32(2), fTx, uint32(3), fRx, uint32(3), fFree, uint32(1), fFreeD, uint32(1)), Freespace: 4711, Eid: eid})
}

// frameReq is a plain request.
func frameReq(sess, typ uint32, fname string) []byte {
	return refEncode(api.Frame{Kind: "request", Header: header(tRequest, fDesc, uint32(2), fTx, uint32(3), fRx, uint32(3), fReqType, typ), Session: sess, Fname: fname})
}
