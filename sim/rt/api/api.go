// Package api holds the types through which the harness drives either copy of
// the program under test.
package api

import (
	"fmt"
	"net"
	"time"

	"simmod/simrt"
	"simmod/third/gocui"
)

// Hole is a range of bytes.
type Hole struct{ Start, End int }

// TS is a timestamp.
type TS struct {
	Put   []byte
	Secs  uint64
	Print string
}

// Dirent is a directory entry.
type Dirent struct {
	Header       uint16
	Size         uint64
	Mtime, Ctime TS
	Path         string
}

// Frame is a frame of any kind.
type Frame struct {
	Kind    string
	Addr    net.UDPAddr
	Header  uint32
	Session uint32

	Freespace uint64
	Eid       string

	Fname string
	Auth  []byte

	Tstamp  TS
	Offset  uint64
	Payload []byte

	Progress, Inrespto uint64
	Holes              []Hole

	Checksum []byte
	Dir      Dirent
}

// Spec says how to make a frame: with New from flags, or with Make from a
// header when UseMake is set.
type Spec struct {
	Kind    string
	Flags   string
	UseMake bool
	Header  uint32
	Session uint32

	Freespace uint64
	Eid       string

	Fname string
	Auth  []byte

	Offset  uint64
	Payload []byte

	Progress, Inrespto uint64
	Holes              []Hole
}

// Built is a frame that was made.
type Built interface {
	Frame() Frame
	Encode() ([]byte, error)
	Send(c Conn, to *net.UDPAddr) error
	Print() string
	ShortPrint() string
}

// Conn is a socket of the node.
type Conn interface {
	Sock() *simrt.Sock
	Close() error
}

// Peer is an entry of the peer table.
type Peer struct {
	Addr                       string
	Freespace                  uint64
	Eid, Maxdesc, Canrx, Cantx string
	Created, Updated           TS
}

// RxTran is a transfer recorded for a received request.
type RxTran struct {
	Peer     string
	Session  uint32
	Ttype    string
	Filename string
}

// Timeouts are the timers and counters.
type Timeouts struct {
	Metadata, Request, Status, Transfer, Datacounter int
	Binterval                                        uint
}

// Cli are the settings.
type Cli struct {
	Global                   map[string]string
	V4Multicast, V6Multicast string
	Port                     int
	Timestamp                string
	Timeout                  Timeouts
	Timezone, Prompt         string
	Ppad                     int
	Sardir                   string
	Buffersize               int
	Bcount                   uint
}

// String is a canonical text of the settings.
func (c Cli) String() string { return fmt.Sprintf("%+v", c) }

// Flag is a header field.
type Flag struct {
	Frametypes []string
	Len, Msb   uint32
	Options    map[string]uint32
}

// Tables are the layouts and commands read from the configuration.
type Tables struct {
	Flags      map[string]Flag
	Dirent     map[string]Flag
	Timestamps Flag
	Frameflags map[string][]string
	Commands   map[string][2]string
}

// Tran is a transfer of an operator command.
type Tran interface {
	Direction() bool
	Session() uint32
	Peer() string
	Ttype() string
	Filename() string
	Conn() Conn
	HasConn() bool
	DropConn()
	Fp() File
	Cli() (Cli, bool)
	SetState(progress, inrespto uint64, fills []Hole)
	Progress() uint64
	WriteStatus(g *gocui.Gui, flags string) string
	Remove() error
	Change(g *gocui.Gui, md []byte) (Dirent, []byte, error)
	Dir() (Dirent, bool)
	Checksum() []byte
	Print() string
	Same(o Tran) bool
}

// File is an open file of the node.
type File interface {
	Nil() bool
	Name() string
	Sim() *simrt.OpenFD
	Seek(pos uint64) error
	Read(pos uint64, n int) ([]byte, error)
	Write(pos uint64, b []byte) (int, error)
	Close() error
	Delete() error
}

// Meta is the information about a file.
type Meta struct {
	Path, Origin                             string
	Size                                     int64
	ModTime                                  time.Time
	IsDir, IsRegular, IsNamedPipe, IsSymLink bool
}

// Fills are ranges received.
type Fills interface {
	Add(start, end int) Fills
	Holes() []Hole
	Len() int
	List() []Hole
}

// Bridge is one copy of the program. Except for Reset and Tables its
// functions are called from tasks of the node.
type Bridge interface {
	Reset()
	Main()

	Decode(v any) (Frame, bool)
	Make(s Spec) (Built, error)
	DecodeBytes(kind string, b []byte) (Frame, error)

	ReadConfig(path string) error
	SetMtu(n int)
	Mtu() int
	Cli() Cli
	CliRaw() Cli
	Tables() Tables
	Run(g *gocui.Gui, line string) bool

	Peers() []Peer
	RxTrans() []RxTran
	Trans() []Tran
	NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string) (Tran, error)
	Lookup(direction bool, session uint32, peer string) (Tran, bool)
	Match(peer string, session uint32) (Tran, bool)
	UDPAddress(s string) (*net.UDPAddr, error)

	DialUDP(to *net.UDPAddr) (Conn, error)
	ListenUDP(at *net.UDPAddr) (Conn, error)

	FileExists(name string) bool
	FileOpen(name, ttype string) (File, error)
	FileRm(name string) error
	FileMeta(name string) (Meta, error)
	Checksum(kind, name string) ([]byte, error)
	DirNew(flags, name string) (Dirent, []byte, error)
	DirDecode(b []byte) (Dirent, error)

	TimeNew(kind string, t time.Time) (TS, error)
	TimeNow(kind string) (TS, error)
	TimeGet(b []byte) (TS, error)

	NewFills() Fills

	Print(g *gocui.Gui, win string, ln bool, colour, format string, args ...any)
}
