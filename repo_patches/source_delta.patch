From 3783592b7cb42bcfe4efd5eac9cb6871a1161965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 01/48] fix: header flag lookups return an error instead of
 terminating the process

Any received frame with an undefined field value (an unassigned error code,
request type, frame type, version...) made GetStr call log.Fatalln and so
stopped the whole node.
---
 sarflags/sarflags.go | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..d16e8c2 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 
-	"log"
 	"math"
 	"os"
 	"strings"
@@ -585,7 +584,6 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -688,7 +686,6 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -697,21 +694,18 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -749,7 +743,6 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
 	return ""
 }
 
@@ -809,7 +802,6 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -818,14 +810,12 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -873,7 +863,6 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
 	return ""
 }
 
@@ -903,7 +892,6 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -954,7 +942,6 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -963,7 +950,6 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
@@ -987,7 +973,6 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From 1e452c29b3622272aea22376b8f41447e7d64d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 02/48] fix: timestamps with nanoseconds are right for every
 clock value

UnixNano overflows outside 1678..2262 and its remainder is negative before
1970, so posix32_32 and posix64_32 stamped another time or refused a valid one.
---
 timestamp/timestamp.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..e79b451 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -51,19 +51,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
-- 
2.43.0


From 36552410c4a234b11dbbf9391f5644cfb7020df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:26 +0000
Subject: [PATCH 03/48] fix: a locally interpreted timestamp sent by a node is
 accepted by the receiver

timestamp.Get refused localinterp, a type the sender supports, and read
past the end of a short buffer.
---
 dirent/dirent.go       | 2 +-
 timestamp/timestamp.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..cf36547 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -220,7 +220,7 @@ func (d *DirEnt) Decode(frame []byte) error {
 	}
 	// fmt.Printf("Header:%d Size:%d\n", d.header, d.size)
 
-	ts := make([]byte, 5)
+	ts := make([]byte, 16)
 	ts[0], _ = sarflags.SetT(0, "epoch2000_32")
 
 	copy(ts[1:], frame[pos:pos+4])
diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index e79b451..0a24e28 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -127,6 +127,9 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) < 16 {
+		return errors.New("timestamp.Get: timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
 	switch ttype {
@@ -155,6 +158,11 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-- 
2.43.0


From 39688952355c000b747d1de52fb2a8acfec69999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 04/48] fix: decoders check the frame holds the fields its
 header announces

A truncated beacon, data, status or metadata frame made the decoder slice
past the end of the frame: the listener panicked and the node stopped.
---
 beacon/beacon.go     | 12 ++++++++++++
 data/data.go         | 16 ++++++++++++++++
 dirent/dirent.go     | 14 ++++++++++++++
 metadata/metadata.go |  3 +++
 status/status.go     | 16 ++++++++++++++++
 5 files changed, 61 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..498d4a6 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -247,16 +247,28 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if len(frame) < 6 {
+				return errors.New("beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))
 			b.Eid = string(frame[6:])
 		case "d32":
+			if len(frame) < 8 {
+				return errors.New("beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint32(frame[4:8]))
 			b.Eid = string(frame[8:])
 		case "d64":
+			if len(frame) < 12 {
+				return errors.New("beacon frame too short")
+			}
 			b.Freespace = binary.BigEndian.Uint64(frame[4:12])
 			b.Eid = string(frame[12:])
 		case "d128":
diff --git a/data/data.go b/data/data.go
index 8db2b11..3dde728 100644
--- a/data/data.go
+++ b/data/data.go
@@ -156,6 +156,22 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	// The whole of the timestamp and the offset have to be there
+	minlen := 8
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		minlen += 16
+	}
+	switch sarflags.GetStr(d.Header, "descriptor") {
+	case "d16":
+		minlen += 2
+	case "d32":
+		minlen += 4
+	case "d64":
+		minlen += 8
+	}
+	if len(frame) < minlen {
+		return errors.New("data.Get - data frame too short")
+	}
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
diff --git a/dirent/dirent.go b/dirent/dirent.go
index cf36547..f4a5167 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -201,6 +201,20 @@ func (d *DirEnt) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint16(frame[:2])
 
+	// The whole of the size, mtime and ctime have to be there
+	minlen := 2 + 4 + 4
+	switch sarflags.GetDStr(d.Header, "descriptor") {
+	case "d16":
+		minlen += 2
+	case "d32":
+		minlen += 4
+	case "d64":
+		minlen += 8
+	}
+	if len(frame) < minlen {
+		return errors.New("DirEntGet - Entry too short")
+	}
+
 	pos := 2
 	switch sarflags.GetDStr(d.Header, "descriptor") {
 	case "d16":
diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..687fa80 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -277,6 +277,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short for checksum")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
diff --git a/status/status.go b/status/status.go
index 092f335..8f0adfa 100644
--- a/status/status.go
+++ b/status/status.go
@@ -242,6 +242,22 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	// The whole of the timestamp, progress and inrespto have to be there
+	minlen := 8
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		minlen += 16
+	}
+	switch sarflags.GetStr(s.Header, "descriptor") {
+	case "d16":
+		minlen += 2 * 2
+	case "d32":
+		minlen += 2 * 4
+	case "d64":
+		minlen += 2 * 8
+	}
+	if len(frame) < minlen {
+		return errors.New("status frame too short")
+	}
 	pos := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
-- 
2.43.0


From 34f0754d7fde623e665ebe5ab7d9e1f6e1f5a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 05/48] fix: file names in requests and directory entries are
 decoded byte for byte

Converting each byte with string(b) turned bytes above 0x7f into two bytes,
shifting the authentication field or running past the end of the frame, and
a name without its terminating null was accepted or panicked.
---
 dirent/dirent.go   | 12 ++++++------
 request/request.go | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index f4a5167..6367486 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -3,6 +3,7 @@
 package dirent
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -251,13 +252,12 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
-	for i := range frame[pos:] { // Path is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		d.Path += string(frame[pos+i])
+	// Path is null terminated string
+	plen := bytes.IndexByte(frame[pos:], '\x00')
+	if plen < 0 {
+		return errors.New("DirEntGet - Path not terminated")
 	}
+	d.Path = string(frame[pos : pos+plen])
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
 }
diff --git a/request/request.go b/request/request.go
index 93f9536..b0b8b84 100644
--- a/request/request.go
+++ b/request/request.go
@@ -3,6 +3,7 @@
 package request
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -126,14 +127,13 @@ func (r *Request) Decode(frame []byte) error {
 	}
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
-	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	// Filename in frame is null terminated string
+	flen := bytes.IndexByte(frame[8:], '\x00')
+	if flen < 0 {
+		return errors.New("request.Decode - filename not terminated")
 	}
-	pos = 8 + 1 + len(r.Fname)
+	r.Fname = string(frame[8 : 8+flen])
+	pos := 8 + flen + 1
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
 		return nil
-- 
2.43.0


From ca4afb8f778beba747cea464b4d0addf764033a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 06/48] fix: request frames carry the authentication field and
 refuse names they cannot carry

The authentication bytes were copied into a nil slice and lost, Make panicked
on every call, and a name with an embedded null was sent as another name.
---
 request/request.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index b0b8b84..b428b5f 100644
--- a/request/request.go
+++ b/request/request.go
@@ -72,7 +72,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -94,9 +94,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -104,6 +104,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 // Put -- Encode the Saratoga Request buffer
 func (r *Request) Encode() ([]byte, error) {
 
+	if strings.ContainsRune(r.Fname, 0) {
+		return nil, errors.New("request.Encode - null in filename")
+	}
 	// Create the frame slice
 	framelen := 4 + 4 + len(r.Fname) + 1 + len(r.Auth) // Header + Session + Fname + NULL + Auth
 	frame := make([]byte, framelen)                    // Allocate the frame buffer
-- 
2.43.0


From 01938fdc38a1f0b46232fa577a41c219859a8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 07/48] fix: status frames with a timestamp carry it

Encode left room for the timestamp but never wrote it and put progress in
its place, so the receiver decoded other values than were sent. The
epoch2000_32 format was refused and Make never took the time.
---
 status/status.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/status/status.go b/status/status.go
index 8f0adfa..2ea0f64 100644
--- a/status/status.go
+++ b/status/status.go
@@ -91,7 +91,7 @@ func (s *Status) New(flags string, info interface{}) error {
 			}
 		// If we have not requested a timestamp (reqtstamp=no) but we have set the type to one of below then
 		// get the time and date and set (reqtstamp=yes)
-		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32":
+		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32":
 			if err = s.Tstamp.Now(f[0]); err != nil {
 				return err
 			}
@@ -130,6 +130,11 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	}
 
 	s.Header = header
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		if err = s.Tstamp.Now("posix32"); err != nil {
+			return err
+		}
+	}
 	e := reflect.ValueOf(info).Elem()
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
@@ -154,6 +159,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 7e987fa41889f273782ed0341fdedee0a235d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 08/48] fix: offsets and holes too large for the descriptor are
 an error, not truncated

---
 data/data.go     |  6 ++++++
 status/status.go | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/data/data.go b/data/data.go
index 3dde728..0646775 100644
--- a/data/data.go
+++ b/data/data.go
@@ -240,8 +240,14 @@ func (d *Data) Encode() ([]byte, error) {
 
 	switch sarflags.GetStr(d.Header, "descriptor") { // Offset
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, errors.New("descriptor d16 too small for offset in data")
+		}
 		framelen += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, errors.New("descriptor d32 too small for offset in data")
+		}
 		framelen += 4
 	case "d64":
 		framelen += 8
diff --git a/status/status.go b/status/status.go
index 2ea0f64..ec28b94 100644
--- a/status/status.go
+++ b/status/status.go
@@ -163,20 +163,33 @@ func (s Status) Encode() ([]byte, error) {
 	}
 
 	var dsize int
+	var dmax uint64 // Largest value the descriptor can hold
 
 	switch sarflags.GetStr(s.Header, "descriptor") { // Offset
 	case "d16":
 		dsize = 2
+		dmax = sarflags.MaxUint16
 	case "d32":
 		dsize = 4
+		dmax = sarflags.MaxUint32
 	case "d64":
 		dsize = 8
+		dmax = sarflags.MaxUint64
 	case "d128":
 		return nil, errors.New("d128 not supported in status")
 		// dsize = 16
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	if s.Progress > dmax || s.Inrespto > dmax {
+		return nil, errors.New("descriptor too small for progress in status")
+	}
+	for i := range s.Holes {
+		if s.Holes[i].Start < 0 || uint64(s.Holes[i].Start) > dmax ||
+			s.Holes[i].End < 0 || uint64(s.Holes[i].End) > dmax {
+			return nil, errors.New("descriptor too small for holes in status")
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From c66078d2d635d73806f131a5e5e8f233aa598e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 09/48] fix: data frames carry the transfer type, beacons
 refuse a freespace that does not fit

---
 beacon/beacon.go | 6 ++++++
 data/data.go     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 498d4a6..d30011e 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -205,8 +205,14 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, errors.New("freespace too large for d16 in beacon frame")
+			}
 			framelen += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, errors.New("freespace too large for d32 in beacon frame")
+			}
 			framelen += 4
 		case "d64":
 			framelen += 8
diff --git a/data/data.go b/data/data.go
index 0646775..7ede211 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From 2e80860d4c6772e9c96c248320d032df2997d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 10/48] fix: metadata carries the real modification time, every
 file size, and its own file name

The modification time was the change time, sizes of 4 GB and above were
refused although d64 holds them, an entry that could not be encoded was sent
without it, and Make looked for a file named after the session.
---
 dirent/dirent.go     |  5 ++++-
 metadata/metadata.go | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 6367486..ae84747 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -153,6 +153,9 @@ func (d *DirEnt) Encode() ([]byte, error) {
 	if len(d.Path) > 1024 {
 		return nil, errors.New("path name exceeds 1024 bytes")
 	}
+	if strings.ContainsRune(d.Path, 0) {
+		return nil, errors.New("null in path name")
+	}
 
 	frame := make([]byte, framelen)
 
@@ -173,7 +176,7 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
+		if d.Size > sarflags.MaxUint64 { // This should never happen!!!!
 			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
 			return nil, errors.New(e)
 		}
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 687fa80..d0aad47 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -164,7 +164,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -198,12 +198,16 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	if header, err = sarflags.Set(header, "frametype", "metadata"); err != nil {
 		return err
 	}
+	// The checksum length always goes with the checksum type
+	if header, err = sarflags.Set(header, "csumlen", sarflags.GetStr(header, "csumtype")); err != nil {
+		return err
+	}
 	m.Header = header
 
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
@@ -217,7 +221,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
@@ -244,7 +248,13 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	if int(sarflags.Get(m.Header, "csumlen"))*4 != len(m.Checksum) {
+		return nil, errors.New("checksum length does not match header")
+	}
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
-- 
2.43.0


From f1d4930638ae1760539d0c753d296608483aef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 11/48] fix: file names are looked up once below the Saratoga
 directory and never outside it

FileOpen and FileDelete prefixed the directory twice, so the check for an
existing file never saw it and get/take truncated it, put/give never found
theirs and deletes failed; names with .. reached any file of the system.
Create with O_EXCL as the file may appear after the check, let putblind open
its file, make the directory of a getdir usable, and report stat errors other
than not-exist instead of using a nil FileInfo.
---
 fileio/fileio.go | 63 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..1d6a889 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,8 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +17,23 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// Path - Full path of a file in the Saratoga directory
+// It is an error if the name leads outside of it
+func Path(fname string) (string, error) {
+	name := strings.TrimLeft(fname, "/")
+	if name != "" && !filepath.IsLocal(name) {
+		return "", fmt.Errorf("file name outside of the saratoga directory: %s", fname)
+	}
+	return filepath.Join(Sardir(), name), nil
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname, err := Path(fname)
+	if err != nil {
+		return false
+	}
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -28,38 +43,40 @@ func FileExists(fname string) bool {
 
 // Open a file on our local system
 func FileOpen(fname string, ttype string) (*os.File, error) {
-	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	fullname, err := Path(fname)
+	if err != nil {
+		return nil, err
+	}
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
-		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		// Create the file, it may have appeared since we looked
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
-		err = os.Mkdir(fullname, os.ModeDir)
+		err = os.Mkdir(fullname, os.ModeDir|0755)
 		if err == nil {
 			if err = os.Chdir(fullname); err != nil {
 				return nil, err
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
@@ -138,7 +155,13 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname, err := Path(fname)
+	if err != nil {
+		return err
+	}
+	if fullname == filepath.Clean(Sardir()) {
+		return fmt.Errorf("cannot remove the saratoga directory")
+	}
 	return os.Remove(fullname)
 }
 
@@ -146,9 +169,9 @@ func FileRm(fname string) error {
 func FileDelete(fp *os.File) error {
 
 	if fp != nil {
-		fname := fp.Name()
+		fname := fp.Name() // This is the full path
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname)
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
@@ -174,23 +197,25 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var fs *FileMetaData = new(FileMetaData)
 
-	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	fullname, err := Path(filePath)
+	if err != nil {
+		return nil, err
+	}
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
 	if info.Mode()&os.ModeSymlink == os.ModeSymlink {
 		fs.IsSymLink = true
-		fs.Origin, _ = os.Readlink(fs.Path)
 		var patherr error
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, staterr := os.Stat(fullname); staterr == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From b89e1027193753c19e9da522c8dfb15f34b255e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 12/48] fix: metadata looks for its file in the Saratoga
 directory, not the working directory

The working directory changes with every getdir.
---
 metadata/metadata.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index d0aad47..3852a1e 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -48,9 +48,12 @@ func statfile(fname string, header uint32) (string, error) {
 	// Stat the file to see what it is
 	var file, dir, stream bool
 	var direntflags string
-	var err error
 
-	fi, err := os.Lstat(fname)
+	fullname, err := fileio.Path(fname)
+	if err != nil {
+		return "", err
+	}
+	fi, err := os.Lstat(fullname)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 356061bb94bec25e2ab15cd969d650ed1537beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 13/48] fix: requests are recognised, answered with their
 session and create one transfer

The request type was looked up under a name that is no header field, so the
first request received stopped the node, the status carried session 0, and a
repeated request added a second transfer.
---
 trans/trans.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..62b6825 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,11 +48,11 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
@@ -203,13 +203,11 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
 
-	// Do some error checking to see that the transfer is not already underway
-
 	// Initialise the Transfer with the information we have in the request
 	t := Transfer{Peer: *from, Session: r.Session, Ttype: ttype,
 		Filename: r.Fname,
@@ -219,9 +217,30 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		Data: nil, Dcount: 0,
 		Progress: 0, Inrespto: 0, CurFills: nil}
 
-	// Add the transfer to our current slice
+	// Add the transfer to our current slice if it is not already underway
+	// Session + peer is the unique key
 	Trmu.Lock()
-	Transfers = append(Transfers, t)
+	underway := false
+	for i := range Transfers {
+		if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {
+			if Transfers[i].Ttype != t.Ttype || Transfers[i].Filename != t.Filename {
+				Trmu.Unlock()
+				sarwin.ErrPrintln(g, "red_black", "Session already in use for another transfer")
+				// Create STATUS and set errcode to "badrequest"
+				if st.New("errcode=badrequest", &sinfo) != nil {
+					sarwin.ErrPrintln(g, "red_black", "Cannot create badrequest status")
+					return false
+				}
+				tx <- st.Val(from)
+				return false
+			}
+			underway = true
+			break
+		}
+	}
+	if !underway {
+		Transfers = append(Transfers, t)
+	}
 	Trmu.Unlock()
 	// Create STATUS and set errcode to "success"
 	if st.New("errcode=success", &sinfo) != nil {
-- 
2.43.0


From 1d6989a813ab747b1220a64671a7d1a9f3efd95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 14/48] fix: a request does not deadlock the dispatch loop

The status answering a request is sent on an unbuffered channel that only
the loop handling the request receives from.
---
 saratoga/saratoga.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..6f3efa5 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -627,9 +627,12 @@ func main() {
 				pkt := rxv4.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
 				// We have received a request to send or receive a file or dir
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// The status goes back to us on the tx channel so don't wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")
 				pkt := rxv4.(status.Packet)
@@ -659,9 +662,12 @@ func main() {
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga REQUEST Frame")
 				pkt := rxv6.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// The status goes back to us on the tx channel so don't wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga STATUS Frame")
 				pkt := rxv6.(status.Packet)
-- 
2.43.0


From 2ad2edad42243043b086cc08d2f435b5b195da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 15/48] fix: the bad-packet status for a data frame without an
 offset carries its session

---
 saratoga/saratoga.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 6f3efa5..3919233 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -290,16 +290,17 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 			sarwin.MsgPrintln(g, "white_black", "Data frame length is:", len(framebuf))
 			if rxerr = d.Decode(framebuf); rxerr != nil {
 				// Bad Packet send back a Status to the sender with current offset and session
+				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				sinfo := status.Sinfo{Session: session, Progress: d.Offset, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From a856e26c99ebbf858bab985594acc1a4889f5179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 16/48] fix: data, metadata, request and status frames can be
 sent on a transfer's connection

Transfers dial their peer; WriteTo on a connected socket always fails.
---
 data/data.go         | 7 ++++++-
 metadata/metadata.go | 7 ++++++-
 request/request.go   | 7 ++++++-
 status/status.go     | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 7ede211..01ea8d7 100644
--- a/data/data.go
+++ b/data/data.go
@@ -329,7 +329,12 @@ func (d Data) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = d.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 3852a1e..759652d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -340,7 +340,12 @@ func (m MetaData) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = m.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/request/request.go b/request/request.go
index b428b5f..3fa2fe6 100644
--- a/request/request.go
+++ b/request/request.go
@@ -179,7 +179,12 @@ func (r Request) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = r.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/status/status.go b/status/status.go
index ec28b94..426039c 100644
--- a/status/status.go
+++ b/status/status.go
@@ -399,7 +399,12 @@ func (s Status) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = s.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From 6efc813313c09468c9a239901ff52c28e75f9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:47 +0000
Subject: [PATCH 17/48] fix: the peer table is only used under its lock

The peers listing could read a table being changed and show one row with
values of two beacons.
---
 beacon/beacon.go | 13 +++++++++----
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index d30011e..c991795 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -358,16 +358,23 @@ var pmu sync.Mutex // Protect Peers
 // Peers - Slices of unique Peer information learned from beacons
 var Peers []Peer
 
+// PeerList - A copy of the current Peers
+func PeerList() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
+
 // NewPeer - Add/Change peer info from received beacon
 func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	pmu.Lock()
+	defer pmu.Unlock()
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -396,8 +403,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..702a5bb 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1805,31 +1805,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.PeerList()
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Created.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1851,15 +1852,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From 5efb1e491730617f629360f201692f1f307680a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:46 +0000
Subject: [PATCH 18/48] fix: txwilling on/off stores header values frames can
 carry

"on" and "off" are not options of the txwilling header flag ("yes", "no"),
so every beacon and request built afterwards failed.
---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 702a5bb..8636ef8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2421,10 +2421,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From e6e6035a20969ef3fc72488925c866a7053145f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:46 +0000
Subject: [PATCH 19/48] fix: a blank line or an enter before the prompt is
 displayed does not crash the node

---
 sarwin/sarwin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8636ef8..65175ee 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,8 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		// We have just hit enter or the prompt is not displayed yet - do nothing
+		if len(command) < 2 || command[1] == "" {
 			return nil
 		}
 		// Save the command into history
@@ -2506,6 +2507,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Handle just whitespace
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 66d7b64cd0d406c690b154e962fc3fd7b8d0ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:46 +0000
Subject: [PATCH 20/48] fix: clearing a window is done by the user interface
 and keeps the input focus

Two clear commands at once could leave the input focus in the cleared
window, or crash while the user interface was drawing it.
---
 sarwin/sarwin.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 65175ee..52efbb6 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -105,16 +105,16 @@ type Cmdinfo struct {
 // Clear a window
 func Clearwin(g *gocui.Gui, win string) {
 
-	var newview *gocui.View
-
-	curview := g.CurrentView()
-	curname := curview.Name()
-	// x, y := curview.Cursor()
 	if win == "msg" || win == "err" || win == "packet" {
-		newview, _ = g.SetCurrentView(win)
-		newview.Clear()
-		newview.SetCursor(0, 0)
-		g.SetCurrentView(curname)
+		g.Update(func(g *gocui.Gui) error {
+			ViewMu.Lock()
+			defer ViewMu.Unlock()
+			if v, err := g.View(win); err == nil {
+				v.Clear()
+				v.SetCursor(0, 0)
+			}
+			return nil
+		})
 	}
 }
 
-- 
2.43.0


From be6b834ab6b9f209769fb485568d4cbd15b0d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 21/48] fix: the settings captured by a transfer are a
 complete, consistent copy

The IPv6 group was replaced by the IPv4 group, the beacon count was
dropped and the copy was taken while commands changed the settings.
---
 sarflags/sarflags.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index d16e8c2..3a3bd6b 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -626,9 +626,11 @@ func ReplaceFlag(flags, value, option string) string {
 
 // CopyCliflags - copy from source to desination the Clieflags structure
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
+	Climu.Lock()
+	defer Climu.Unlock()
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -636,6 +638,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From 51b8720a504b52af611bf7c5f6bd7112b1cc1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 22/48] fix: the transfer list is kept exact

Lookup returned a copy, Remove removed the last entry instead of its own,
the duplicate check ran outside the lock, and a transfer whose peer could
not be reached or whose file could not be opened was listed all the same.
---
 sarwin/sarwin.go | 52 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 52efbb6..e7b1f38 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -893,16 +893,18 @@ type Transfer struct {
 
 // Transfers - protected transfers in progress
 var Trmu sync.Mutex
-var Transfers = []Transfer{}
+var Transfers = []*Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, t := range Transfers {
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return t
 		}
 	}
 	return nil
@@ -910,9 +912,11 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
-			return &Transfers[i]
+		if addr == Transfers[i].Peer.String() && session == Transfers[i].Session {
+			return Transfers[i]
 		}
 	}
 	return nil
@@ -921,13 +925,17 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+
+	// Lock it as we are going to check for and add a new transfer
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
 		// Make sure we have connections to all the current Transfers
 		if i.Conn == nil {
 			emsg := "No connection exists to peer: " + peer.String()
 			ErrPrintln(g, "red_black", emsg)
 			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
+			if err := i.remove(); err != nil {
 				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
 			}
 			return nil, errors.New(emsg)
@@ -950,38 +958,39 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 
 	// OK lets create the transfer
 
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
+	var err error
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-	t.Tstamptype = c.Timestamp
+	// Copy the FLAGS to t.cliflags
+	if t.Cliflags, err = c.CopyCliflags(); err != nil {
+		ErrPrintln(g, "red_black", err)
+		return nil, err
+	}
+	t.Tstamptype = t.Cliflags.Timestamp
 	t.Session = newsession()
 	t.Peer = peer
 
-	var err error
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
 	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
 		ErrPrintln(g, "red_black", err)
 	}
 
-	// Copy the FLAGS to t.cliflags
-	if t.Cliflags, err = c.CopyCliflags(); err != nil {
-		panic(err)
-	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return t, nil
 }
@@ -1081,15 +1090,17 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
 	msg := fmt.Sprintf("Added %s Transfer to %s session %d",
 		Directions[t.Direction], peer, r.Session)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return nil
 }
 
 // Info - List transfers in progress to msg window
 func Info(g *gocui.Gui, ttype string) {
-	var tinfo []Transfer
+	var tinfo []*Transfer
 
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
 			tinfo = append(tinfo, Transfers[i])
@@ -1217,9 +1228,14 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 func (t *Transfer) Remove() error {
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	return t.remove()
+}
 
+// remove - Remove a Transfer from the Transfers with Trmu held
+func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if Transfers[i].Direction == t.Direction && Transfers[i].Session == t.Session &&
+			Transfers[i].Peer.String() == t.Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From 1665dd9cb9e760f879db0975607f77589d396f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:21 +0000
Subject: [PATCH 23/48] fix: status frames share the holes out between them

Every frame carried all the holes, whatever the MTU, a report whose holes
filled the frames exactly was followed by another frame, and flags without
a descriptor divided by zero.
---
 sarwin/sarwin.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index e7b1f38..323fec5 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -811,8 +811,8 @@ func maxpaylen(flags string) int {
 
 // Work out the maximum payload in status.Status frame given flags
 func stpaylen(flags string) int {
-	var hsize int
 	var plen int
+	hsize := 4 // d16 if there is no descriptor in the flags
 
 	plen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header
 	plen -= 8                      // Saratoga Header + Session
@@ -1156,10 +1156,17 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	var maxholes = stpaylen(sflags) // Work out maximum # holes we can put in a single status frame
 
 	errf := sarflags.FlagValue(sflags, "errcode")
-	var lasthole int
-	h := t.Curfills.Getholes()
+	var h holes.Holes
 	if errf == "success" {
-		lasthole = len(h) // How many holes do we have
+		h = t.Curfills.Getholes()
+	}
+	lasthole := len(h) // How many holes do we have
+	if maxholes < 1 {
+		if lasthole > 0 {
+			ErrPrintln(g, "red_black", "Holes do not fit in a status")
+			return "badstatus"
+		}
+		maxholes = 1
 	}
 
 	var framecnt int // Number of status frames we will need (at least 1)
@@ -1168,8 +1175,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1182,8 +1188,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From 1a47465ce7e8bbd4ce36149a1faf42edcb35eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:45 +0000
Subject: [PATCH 24/48] fix: a beacon command beacons every address and does
 not hold up other commands

The first of several addresses was skipped, and the settings stayed locked
while the beacons went out, so that any other command waited for the whole
burst.
---
 sarwin/sarwin.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 323fec5..a508b4a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1297,9 +1297,20 @@ var clibeacon Beaconcmd
 // cmdBeacon - Beacon commands
 func cmdBeacon(g *gocui.Gui, args []string) {
 
+	// Send the beacons once the settings are no longer locked
+	clib, addrs := beaconaddrs(g, args)
+	for i := range addrs {
+		sendbeacons(g, clib, addrs[i])
+	}
+}
+
+// beaconaddrs - handle the beacon command, return the beacon settings and the addresses to send them to
+func beaconaddrs(g *gocui.Gui, args []string) (clib Beaconcmd, addrs []*net.UDPAddr) {
+
 	// Protects beacon.Beacon structure (EID)
 	sarflags.Climu.Lock()
 	defer sarflags.Climu.Unlock()
+	defer func() { clib = clibeacon }()
 
 	clibeacon.flags = sarflags.Setglobal("beacon", sarflags.Cliflag) // Initialise Global Beacon flags
 	clibeacon.interval = sarflags.Cliflag.Timeout.Binterval          // Set up the correct interval
@@ -1343,7 +1354,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			clibeacon.v4mcast = true
 			// Start up the beacon client sending count IPv4 beacons
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V4Multicast); err == nil {
-				sendbeacons(g, clibeacon, addr)
+				addrs = append(addrs, addr)
 			}
 			return
 		case "v6": // beacon v6
@@ -1353,7 +1364,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			clibeacon.v6mcast = true
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V6Multicast); err == nil {
 				// Start up the beacon client sending count IPv6 beacons
-				sendbeacons(g, clibeacon, addr)
+				addrs = append(addrs, addr)
 			}
 			return
 		default: // beacon <count> or beacon <ipaddr>
@@ -1361,7 +1372,7 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			if addr, err := sarnet.UDPAddress(args[1]); err == nil {
 				MsgPrintln(g, "green_black", "Sending ", clibeacon.count,
 					" beacons to ", addr.String())
-				sendbeacons(g, clibeacon, addr)
+				addrs = append(addrs, addr)
 				return
 			}
 			ErrPrintln(g, "red_black", "Invalid IP Address:", args[1])
@@ -1369,8 +1380,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	for i := 1; i < len(args); i++ {
 		if args[1] == "off" {
+			if i == 1 {
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
@@ -1379,12 +1393,13 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 		// Otherwise we have more args than 1 so send the beacon from the first arg
 		if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 			MsgPrintln(g, "green_black", "Sending ", clibeacon.count, " beacons to ", addr.String())
-			sendbeacons(g, clibeacon, addr)
+			addrs = append(addrs, addr)
 			continue
 		}
 		ErrPrintln(g, "red_black", "Invalid IP Address:", args[i])
 		ErrPrintln(g, "red_black", prusage("beacon"))
 	}
+	return
 }
 
 func cmdCancel(g *gocui.Gui, args []string) {
-- 
2.43.0


From 5ef03b447137c6fba7f2b31ab1ce55207e2fc26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:37 +0000
Subject: [PATCH 25/48] fix: take, give and delete transfers can be listed

---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a508b4a..fc4e1a7 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -848,7 +848,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "getrm", "take", "getdir", "put", "putblind", "putrm", "give", "delete", "rm", "rmdir"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1666,7 +1666,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2010,7 +2010,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2079,7 +2079,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From 8bfcef88cfadd75582a03030c6ddd10a819ed831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:14 +0000
Subject: [PATCH 26/48] fix: frames go to the configured port

Commands sent to the standard port whatever the configuration said, so that
nodes configured for another port did not hear each other.
---
 saratoga/saratoga.go |  3 +++
 sarnet/sarnet.go     | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 3919233..8ec63fc 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -467,6 +467,9 @@ func main() {
 	sarwin.Cinfo.Prompt = Cmdptr.Prompt
 	sarwin.Cinfo.Ppad = Cmdptr.Ppad
 
+	// The Port we listen on is also the one we send to
+	sarnet.PortSet(Cmdptr.Port)
+
 	// Move to saratoga working directory
 	if err = os.Chdir(Cmdptr.Sardir); err != nil {
 		log.Fatal(fmt.Errorf("no such directory SARDIR=%s", Cmdptr.Sardir))
diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index fa011c0..47e2cf8 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -17,6 +17,14 @@ import (
 // SaratogaPort - IANA allocated Saratoga UDP & TCP Port is 7542
 const Port int = 7542
 
+// The port that UDPAddress uses, set from the saratoga config
+var port = Port
+
+// PortSet - Set the Port to send to
+func PortSet(p int) {
+	port = p
+}
+
 // IPv4Multicast -- IANA allocated Saratoga IPV4 all-hosts Multicast Address is "224.0.0.108"
 const IPv4Multicast string = "224.0.0.108"
 
@@ -49,7 +57,7 @@ func UDPAddress(s string) (*net.UDPAddr, error) {
 	} else {
 		return nil, errors.New("Invalid IPAddress:" + s)
 	}
-	a = a + ":" + strconv.Itoa(Port)
+	a = a + ":" + strconv.Itoa(port)
 	if udpad, err := net.ResolveUDPAddr("udp", a); err == nil {
 		return udpad, nil
 	}
-- 
2.43.0


From 0e462f4665cff9bb120cc34c4fcef8da551bad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 27/48] fix: a command longer than the command window is
 carried out and does not end the command line

The command window wrapped long lines, after which GetLine saw only the last
part of the command and the prompt never came back.
---
 sarwin/sarwin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index fc4e1a7..bf16f65 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -185,7 +185,7 @@ func Layout(g *gocui.Gui) error {
 		cmd.FgColor = gocui.ColorGreen
 		cmd.Editable = true
 		cmd.Overwrite = true
-		cmd.Wrap = true
+		cmd.Wrap = false // A long command scrolls sideways, GetLine needs it on one line
 		cmd.Autoscroll = true
 	}
 	// This is the error msg view -- errors go here
@@ -522,6 +522,7 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	}
 	_, oy := v.Origin()
 	_, cy := v.Cursor()
+	v.SetOrigin(0, oy) // The last command may have scrolled sideways
 	// Only display it if it is on the next new line
 	if oy+cy == Cinfo.Curline {
 		if FirstPass { // Just the prompt no precedin \n as we are the first line
-- 
2.43.0


From a1d1a4f20c6b891580d56cf0ee45b7baa4ddceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:19 +0000
Subject: [PATCH 28/48] fix: timeout metadata shows the metadata timeout, not
 whether the request timeout is off

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index bf16f65..bd17378 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2250,7 +2250,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
-- 
2.43.0


From b913d7fcaf338f63a526c3cd33d6ce3122d998ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:30 +0000
Subject: [PATCH 29/48] fix: exit and quit with an exit level end the node as
 their usage says

---
 sarwin/sarwin.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index bd17378..b8fd155 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -593,11 +593,18 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Save the command into history
 		Cinfo.Commands = append(Cinfo.Commands, command[1])
 
-		if command[1] == "exit" || command[1] == "quit" {
-			// Sarwg.Wait()
-			err := Quit(g, v)
-			// THIS IS A KLUDGE FIX IT WITH A CHANNEL
-			log.Fatal("\nGocui Exit. Bye!\n", err)
+		// exit [0|1] or quit [0|1]
+		if f := strings.Fields(command[1]); len(f) > 0 && (f[0] == "exit" || f[0] == "quit") {
+			if len(f) == 1 || (len(f) == 2 && (f[1] == "0" || f[1] == "1")) {
+				// Sarwg.Wait()
+				err := Quit(g, v)
+				// THIS IS A KLUDGE FIX IT WITH A CHANNEL
+				if len(f) == 2 && f[1] == "0" {
+					log.Print("\nGocui Exit. Bye!\n", err)
+					os.Exit(0)
+				}
+				log.Fatal("\nGocui Exit. Bye!\n", err)
+			}
 		}
 		// RUN THE COMMAND ENTERED!!!
 		Run(g, command[1])
-- 
2.43.0


From 35d72fb58cdc74eece3c420c4b08b23f298183b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:49 +0000
Subject: [PATCH 30/48] fix: a terminal too small for the views does not end
 the node

---
 sarwin/sarwin.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b8fd155..73587da 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -161,6 +161,12 @@ func PacketPrintln(g *gocui.Gui, colour string, args ...interface{}) {
 	fprintln(g, "packet", colour, args...)
 }
 
+// The smallest terminal that has space for all views
+const (
+	minx = 16
+	miny = 12
+)
+
 // FirstPass -- First time around layout we don;t put \n at end of prompt
 var FirstPass = true
 
@@ -174,6 +180,13 @@ func Layout(g *gocui.Gui) error {
 
 	// Maximum size of x and y
 	maxx, maxy := g.Size()
+	// On a terminal too small for the views they reach beyond its edges
+	if maxx < minx {
+		maxx = minx
+	}
+	if maxy < miny {
+		maxy = miny
+	}
 	// This is the command line input view -- cli inputs and return messages go here
 	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
-- 
2.43.0


From 7a4c46952a90f5357ee9ccf8d7e4eaeea36645a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:46 +0000
Subject: [PATCH 31/48] fix: showing the timeouts does not change the data
 counter

---
 sarwin/sarwin.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 73587da..b3d420b 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2247,8 +2247,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "status:", sarflags.Cliflag.Timeout.Status, " sec")
 		}
 		if sarflags.Cliflag.Timeout.Datacounter == 0 {
-			sarflags.Cliflag.Timeout.Datacounter = 100
-			MsgPrintln(g, "green_black", "Data Counter every 100 frames")
+			MsgPrintln(g, "green_black", "datacounter:Never")
 		} else {
 			MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
 		}
@@ -2283,7 +2282,6 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			}
 		case "datacounter":
 			if sarflags.Cliflag.Timeout.Datacounter == 0 {
-				sarflags.Cliflag.Timeout.Datacounter = 100
 				MsgPrintln(g, "green_black", "datacounter:Never")
 			} else {
 				MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
-- 
2.43.0


From 52f731b8d06b4afae98b17b242c0e520329828ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:16 +0000
Subject: [PATCH 32/48] fix: a command longer than the command window can be
 corrected all along its line

---
 sarwin/sarwin.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b3d420b..e881c3c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -424,8 +424,9 @@ func switchView(g *gocui.Gui, v *gocui.View) error {
 func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
+		ox, _ := v.Origin()
 		cx, _ := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Delete rune backwards
@@ -436,16 +437,32 @@ func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	return nil
 }
 
+// Set the cursor to a column of the line, scroll sideways if it is not in the window
+func setcolumn(v *gocui.View, x int, cy int) error {
+	sx, _ := v.Size()
+	ox, oy := v.Origin()
+	if x < ox {
+		ox = x
+	} else if x >= ox+sx {
+		ox = x - sx + 1
+	}
+	if err := v.SetOrigin(ox, oy); err != nil {
+		return err
+	}
+	return v.SetCursor(x-ox, cy)
+}
+
 // Handle Left Arrow Move -- All good
 func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
+		ox, _ := v.Origin()
 		cx, cy := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Move back a character
-		if err := v.SetCursor(cx-1, cy); err != nil {
+		if err := setcolumn(v, ox+cx-1, cy); err != nil {
 			return nil
 			// ErrPrintln(g, "white_black", v.Name(), "LeftArrow:", "cx=", cx, "cy=", cy, "error=", err)
 		}
@@ -459,14 +476,15 @@ func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
+		ox, _ := v.Origin()
 		cx, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		if cx >= len(line)-1 { // We are at the end of line do nothing
-			v.SetCursor(len(line), cy)
+		if ox+cx >= len(line)-1 { // We are at the end of line do nothing
+			setcolumn(v, len(line), cy)
 			return nil
 		}
 		// Move forward a character
-		if err := v.SetCursor(cx+1, cy); err != nil {
+		if err := setcolumn(v, ox+cx+1, cy); err != nil {
 			return nil
 			// ErrPrintln(g, "white_red", "RightArrow:", "cx=", cx, "cy=", cy, "error=", err)
 		}
-- 
2.43.0


From b881279d775bbd6835123f7b60cd4d1e6d2cbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 33/48] fix: metadata of another size does not change a
 transfer

---
 sarwin/sarwin.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index e881c3c..48637ea 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1248,6 +1248,12 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 	// Lock it as we are going to add a new transfer slice
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	// Metadata of another file must not change what we know of this one
+	if len(t.Data) != 0 && len(t.Data) != (int)(m.Dir.Size) {
+		emsg := fmt.Sprintf("Size of File Differs - Old=%d New=%d",
+			len(t.Data), m.Dir.Size)
+		return errors.New(emsg)
+	}
 	t.Csumtype = sarflags.GetStr(m.Header, "csumtype")
 	t.Checksum = make([]byte, len(m.Checksum))
 	copy(t.Checksum, m.Checksum)
@@ -1258,11 +1264,6 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 	if len(t.Data) == 0 { // Create the buffer only once
 		t.Data = make([]byte, t.Dir.Size)
 	}
-	if len(t.Data) != (int)(m.Dir.Size) {
-		emsg := fmt.Sprintf("Size of File Differs - Old=%d New=%d",
-			len(t.Data), m.Dir.Size)
-		return errors.New(emsg)
-	}
 	t.Havemeta = true
 	MsgPrintln(g, "yellow_black", "Added metadata to transfer and file buffer size ", len(t.Data))
 	return nil
-- 
2.43.0


From c652f91305f29e32297aa3614fd811478cc1df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 34/48] fix: get and peers with a wrong argument are answered

---
 sarwin/sarwin.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 48637ea..d70b36a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1670,6 +1670,8 @@ func cmdGet(g *gocui.Gui, args []string) {
 			if _, err := NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag); err != nil {
 				return
 			}
+		} else {
+			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
 		return
 	}
@@ -1957,10 +1959,9 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("peers"))
 			return
 		}
-	default:
-		MsgPrintln(g, "magenta_black", prhelp("peers"))
-		ErrPrintln(g, "red_black", prusage("peers"))
 	}
+	MsgPrintln(g, "magenta_black", prhelp("peers"))
+	ErrPrintln(g, "red_black", prusage("peers"))
 }
 
 // Initiator _put_
-- 
2.43.0


From b5ceb161a3e7485a181c0697df218c83ea36f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 35/48] fix: put and give show their own use

---
 sarwin/sarwin.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index d70b36a..a4967b8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1995,8 +1995,8 @@ func cmdPut(g *gocui.Gui, args []string) {
 				close(errflag)
 				return
 			}
-			MsgPrintln(g, "magenta_black", prhelp("getrm"))
-			ErrPrintln(g, "green_black", prusage("getrm"))
+			MsgPrintln(g, "magenta_black", prhelp("put"))
+			ErrPrintln(g, "green_black", prusage("put"))
 			return
 		}
 		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
@@ -2073,16 +2073,18 @@ func cmdGive(g *gocui.Gui, args []string) {
 						MsgPrintln(g, "red_black", "Unable to remove transfer:", t.Print())
 					}
 				}
-				MsgPrintln(g, "green_black", "putrm completed closing channel")
+				MsgPrintln(g, "green_black", "give completed closing channel")
 				close(errflag)
 				MsgPrintln(g, "red_black", "Give and remove (ADD MORE CODE  HERE!!!!) local file:", t.Print())
 				return
 			}
-			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
+			MsgPrintln(g, "magenta_black", prhelp("give"))
+			ErrPrintln(g, "green_black", prusage("give"))
+			return
 		}
-		ErrPrintln(g, "red_black", prusage("putblind"))
+		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 	}
-	ErrPrintln(g, "red_black", prusage("putrm"))
+	ErrPrintln(g, "red_black", prusage("give"))
 }
 
 func cmdReqtstamp(g *gocui.Gui, args []string) {
-- 
2.43.0


From ac2c14c3b88261fa81c8325543df7d33493e5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 36/48] fix: timeout off of something unknown is answered

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a4967b8..ba0b282 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2379,6 +2379,8 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			case "transfer":
 				sarflags.Cliflag.Timeout.Transfer = 60
 				MsgPrintln(g, "green_black", "transfer:", sarflags.Cliflag.Timeout.Transfer, " sec")
+			default:
+				ErrPrintln(g, "red_black", prusage("timeout"))
 			}
 			return
 		}
-- 
2.43.0


From c0531b2558aba52380081c4ebb357ce9351cdaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 37/48] fix: rmtran names the session it did not find

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ba0b282..6e99345 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2180,7 +2180,7 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 				}
 				return
 			}
-			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[2])
+			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[3])
 		}
 	}
 	ErrPrintln(g, "red_black", prusage("rmtran"))
-- 
2.43.0


From 1e981e3bf9cdbfe12f9979e753587ea1932cc78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 38/48] fix: the uses of rmtran and timeout are those they have

---
 saratoga/saratoga.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index 9e8fc3f..fad4d06 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -125,7 +125,7 @@
 			"help" : "request timestamps"
 		},
 		"rmtran" : {
-			"usage" : "rmtran <peer> <session>",
+			"usage" : "rmtran <type> <peer> <session>",
 			"help" : "remove a current transfer"
 		},
 		"rxwilling" : {
@@ -141,7 +141,7 @@
 			"help" : "get a file from a peer and remove it from peer when successfully transferred"
 		},
 		"timeout" : {
-			"usage" : "timeout [metadata|request|transfer|status|dataframes] <secs|off>",
+			"usage" : "timeout [metadata|request|transfer|status|datacounter] <secs|off>",
 			"help" : "timeouts in secs for metadata, request frames, status receipts, transfer completion, status sent every dataframes"
 		},
 		"timestamp" : {
-- 
2.43.0


From 7b8872befdda92e1e57bae6346fe30062594c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 39/48] fix: quit shows how to use quit, not exit

---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 6e99345..8c398e3 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1587,8 +1587,8 @@ func cmdExit(g *gocui.Gui, args []string) {
 	case 2:
 		switch args[1] {
 		case "?": // Usage
-			MsgPrintln(g, "magenta_black", prhelp("exit"))
-			MsgPrintln(g, "green_black", prusage("exit"))
+			MsgPrintln(g, "magenta_black", prhelp(args[0]))
+			MsgPrintln(g, "green_black", prusage(args[0]))
 		case "0": // exit 0
 			Cexit = 0
 			MsgPrintln(g, "green_black", "Good Bye!")
@@ -1596,10 +1596,10 @@ func cmdExit(g *gocui.Gui, args []string) {
 			Cexit = 1
 			MsgPrintln(g, "green_black", "Good Bye!")
 		default: // Help
-			ErrPrintln(g, "red_black", prusage("exit"))
+			ErrPrintln(g, "red_black", prusage(args[0]))
 		}
 	default:
-		ErrPrintln(g, "red_black", prusage("exit"))
+		ErrPrintln(g, "red_black", prusage(args[0]))
 	}
 }
 
-- 
2.43.0


From e30b39e11d37711f6e9b738b8d2743bd121ccf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 40/48] fix: ls can be given and says that it is not
 implemented, its use can be asked for

---
 sarwin/sarwin.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8c398e3..01bbd71 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1867,12 +1867,11 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
+	if len(args) > 3 {
+		ErrPrintln(g, "red_black", prusage("ls"))
 		return
 	}
-	switch args[1] {
-	case "?":
+	if len(args) == 2 && args[1] == "?" {
 		MsgPrintln(g, "magenta_black", prhelp("ls"))
 		MsgPrintln(g, "green_black", prusage("ls"))
 		return
-- 
2.43.0


From 726b1e0386be1de01ee9ac9982f1151fc871d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 41/48] fix: messages show again after their window was cleared

---
 sarwin/sarwin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 01bbd71..096b074 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -111,6 +111,7 @@ func Clearwin(g *gocui.Gui, win string) {
 			defer ViewMu.Unlock()
 			if v, err := g.View(win); err == nil {
 				v.Clear()
+				v.SetOrigin(0, 0) // It may have scrolled
 				v.SetCursor(0, 0)
 			}
 			return nil
-- 
2.43.0


From 50ad5958b007e5f7e6518c382a2d89f00f42122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 42/48] fix: the packet window scrolls to its last line,
 wrapped lines count

---
 sarwin/sarwin.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 096b074..01e7f00 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -375,12 +375,20 @@ func setCurrentViewOnTop(g *gocui.Gui, name string) (*gocui.View, error) {
 	}
 }
 
+// The rows of a view, a line that is wrapped has more than one
+func viewrows(v *gocui.View) int {
+	if v.Wrap {
+		return len(v.ViewBufferLines())
+	}
+	return len(v.BufferLines())
+}
+
 // Jump to the last row in a view
 func gotolastrow(g *gocui.Gui, v *gocui.View) {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
 
-	lines := len(v.BufferLines())
+	lines := viewrows(v)
 	ErrPrintf(g, "white_black", "gotolastrow ox=%d oy=%d cx=%d cy=%d blines=%d\n",
 		oy, oy, cx, cy, lines)
 	// Don't move down if we already are at the last line in current views Bufferlines
@@ -500,7 +508,7 @@ func CursorDown(g *gocui.Gui, v *gocui.View) error {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
 	// Don't move down if we are at the last line in current views Bufferlines
-	if oy+cy == len(v.BufferLines())-1 {
+	if oy+cy >= viewrows(v)-1 {
 		//ErrPrintf(g, "white_black", "%s Down oy=%d cy=%d lines=%d\n",
 		//	v.Name(), oy, cy, len(v.BufferLines()))
 		return nil
-- 
2.43.0


From 90d935684c4a2a81ebc0cb984f25e048435bc2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 43/48] fix: the command and error windows have space for a
 line on a small terminal

---
 sarwin/sarwin.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 01e7f00..2011b9c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -177,8 +177,6 @@ func Layout(g *gocui.Gui) error {
 	var msg *gocui.View
 	var packet *gocui.View
 
-	ratio := 4 // Ratio of cmd to msg views
-
 	// Maximum size of x and y
 	maxx, maxy := g.Size()
 	// On a terminal too small for the views they reach beyond its edges
@@ -188,8 +186,13 @@ func Layout(g *gocui.Gui) error {
 	if maxy < miny {
 		maxy = miny
 	}
+	// A quarter of the rows are for cmd and err, with their frames they need five
+	bottom := maxy / 4
+	if bottom < 5 {
+		bottom = 5
+	}
 	// This is the command line input view -- cli inputs and return messages go here
-	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
+	if cmd, err = g.SetView("cmd", 0, maxy-bottom+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -203,7 +206,7 @@ func Layout(g *gocui.Gui) error {
 		cmd.Autoscroll = true
 	}
 	// This is the error msg view -- errors go here
-	if cmd, err = g.SetView("err", maxx/2, maxy-(maxy/ratio)+1, maxx-1, maxy-1); err != nil {
+	if cmd, err = g.SetView("err", maxx/2, maxy-bottom+1, maxx-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -218,7 +221,7 @@ func Layout(g *gocui.Gui) error {
 	}
 	// This is the packet trace window - packet trace history goes here
 	// Toggles on/off with CtrlP
-	if packet, err = g.SetView("packet", maxx-maxx/4, 1, maxx-2, maxy-maxy/ratio-1); err != nil {
+	if packet, err = g.SetView("packet", maxx-maxx/4, 1, maxx-2, maxy-bottom-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -233,7 +236,7 @@ func Layout(g *gocui.Gui) error {
 	}
 
 	// This is the message view window - Status and command output messages go here
-	if msg, err = g.SetView("msg", 0, 0, maxx-1, maxy-maxy/ratio); err != nil {
+	if msg, err = g.SetView("msg", 0, 0, maxx-1, maxy-bottom); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
-- 
2.43.0


From ca112d432c02a4e313d2db3a9792c09cf44e375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 44/48] fix: windows show their text and the cursor stays on
 the command line when the terminal changes its size

---
 sarwin/sarwin.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2011b9c..5197d35 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -168,6 +168,43 @@ const (
 	miny = 12
 )
 
+// Set the size of a view, its cursor and what it shows fit the new size
+func setview(g *gocui.Gui, name string, x0, y0, x1, y1 int) (*gocui.View, error) {
+	var sx, sy int
+	if v, err := g.View(name); err == nil {
+		sx, sy = v.Size()
+	}
+	v, err := g.SetView(name, x0, y0, x1, y1)
+	if err != nil {
+		return v, err
+	}
+	nx, ny := v.Size()
+	if nx == sx && ny == sy {
+		return v, nil
+	}
+	if v.Wrap { // Its lines are on other rows now
+		v.SetOrigin(0, 0)
+		v.SetCursor(0, 0)
+		return v, nil
+	}
+	// Keep the cursor on its line
+	ox, oy := v.Origin()
+	cx, cy := v.Cursor()
+	x, y := ox+cx, oy+cy
+	oy = len(v.BufferLines()) - ny
+	if oy < 0 {
+		oy = 0
+	}
+	if cy = y - oy; cy < 0 {
+		cy = 0
+	} else if cy >= ny {
+		cy = ny - 1
+	}
+	v.SetOrigin(ox, oy)
+	setcolumn(v, x, cy)
+	return v, nil
+}
+
 // FirstPass -- First time around layout we don;t put \n at end of prompt
 var FirstPass = true
 
@@ -192,7 +229,7 @@ func Layout(g *gocui.Gui) error {
 		bottom = 5
 	}
 	// This is the command line input view -- cli inputs and return messages go here
-	if cmd, err = g.SetView("cmd", 0, maxy-bottom+1, maxx/2-1, maxy-1); err != nil {
+	if cmd, err = setview(g, "cmd", 0, maxy-bottom+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -206,7 +243,7 @@ func Layout(g *gocui.Gui) error {
 		cmd.Autoscroll = true
 	}
 	// This is the error msg view -- errors go here
-	if cmd, err = g.SetView("err", maxx/2, maxy-bottom+1, maxx-1, maxy-1); err != nil {
+	if cmd, err = setview(g, "err", maxx/2, maxy-bottom+1, maxx-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -221,7 +258,7 @@ func Layout(g *gocui.Gui) error {
 	}
 	// This is the packet trace window - packet trace history goes here
 	// Toggles on/off with CtrlP
-	if packet, err = g.SetView("packet", maxx-maxx/4, 1, maxx-2, maxy-bottom-1); err != nil {
+	if packet, err = setview(g, "packet", maxx-maxx/4, 1, maxx-2, maxy-bottom-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -236,7 +273,7 @@ func Layout(g *gocui.Gui) error {
 	}
 
 	// This is the message view window - Status and command output messages go here
-	if msg, err = g.SetView("msg", 0, 0, maxx-1, maxy-bottom); err != nil {
+	if msg, err = setview(g, "msg", 0, 0, maxx-1, maxy-bottom); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
-- 
2.43.0


From ce13f82c8c9af460844a61ecf1a8acfe88d1f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 45/48] fix: control characters in a text do not get to the
 terminal

---
 sarwin/sarwin.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5197d35..a758446 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode"
 
 	"github.com/jroimartin/gocui"
 
@@ -353,6 +354,19 @@ func setcolour(colour string) string {
 	}
 }
 
+// The text without characters that control the terminal or the view
+func printable(s string) string {
+	return strings.Map(func(r rune) rune {
+		switch {
+		case r == '\n' || unicode.IsGraphic(r):
+			return r
+		case r == '\t':
+			return ' '
+		}
+		return '?'
+	}, s)
+}
+
 // fprintf out an ANSII escape sequence in colour to view
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...interface{}) {
@@ -368,7 +382,7 @@ func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...i
 		// gotolastrow(g, v)
 
 		s := setcolour(colour)
-		s += fmt.Sprintf(format, args...)
+		s += printable(fmt.Sprintf(format, args...))
 		if colour != "" {
 			s += setcolour("off")
 		}
@@ -392,7 +406,7 @@ func fprintln(g *gocui.Gui, vname string, colour string, args ...interface{}) {
 		// gotolastrow(g, v)
 
 		s := setcolour(colour)
-		s += fmt.Sprint(args...)
+		s += printable(fmt.Sprint(args...))
 		if colour != "" {
 			s += setcolour("off")
 		}
-- 
2.43.0


From ddaea74c6a79575101bc620b8804f0d347036d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 46/48] fix: typing starts after the prompt in a command window
 narrower than the prompt

---
 sarwin/sarwin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a758446..adf547d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -621,19 +621,19 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	if oy+cy == Cinfo.Curline {
 		if FirstPass { // Just the prompt no precedin \n as we are the first line
 			CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-			v.SetCursor(promptlen(Cinfo), cy)
+			setcolumn(v, promptlen(Cinfo), cy)
 			return
 		}
 		// End the last command by going to new lin \n then put up the new prompt
 		Cinfo.Curline++
 		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
 		_, cy := v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy)
+		setcolumn(v, promptlen(Cinfo), cy)
 		if err := CursorDown(g, v); err != nil {
 			ErrPrintln(g, "red_black", "Cannot move to next line")
 		}
 		_, cy = v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy+1)
+		setcolumn(v, promptlen(Cinfo), cy+1)
 	}
 }
 
-- 
2.43.0


From 3c27f9fca88b9861b6bde4998959edf11a33c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 47/48] fix: a transfer that is removed gives back its
 connection and file

---
 sarwin/sarwin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index adf547d..95774af 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1344,7 +1344,15 @@ func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if Transfers[i].Direction == t.Direction && Transfers[i].Session == t.Session &&
 			Transfers[i].Peer.String() == t.Peer.String() {
+			x := Transfers[i]
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
+			// Give back its connection and file, nobody else does
+			if x.Conn != nil {
+				x.Conn.Close()
+			}
+			if x.Fp != nil {
+				fileio.FileClose(x.Fp)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 9287049f533683a5d515d49491ac48033ffb95e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 48/48] fix: getdir leaves the working directory of the node
 where it is

---
 fileio/fileio.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 1d6a889..f24b324 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -67,12 +67,8 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
+		// The working directory stays where it is, others use it and the directory may go again
 		err = os.Mkdir(fullname, os.ModeDir|0755)
-		if err == nil {
-			if err = os.Chdir(fullname); err != nil {
-				return nil, err
-			}
-		}
 		return nil, err
 	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
-- 
2.43.0

