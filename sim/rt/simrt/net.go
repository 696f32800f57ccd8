package simrt

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"syscall"
)

// Dgram is one datagram.
type Dgram struct {
	At   int64
	Node int // sending node, -1 for the harness
	Task int
	Tag  int
	Src  net.UDPAddr
	Dst  net.UDPAddr
	Data []byte
}

// NetCfg is the behaviour of the network; chances are in 1000.
type NetCfg struct {
	Loss, Dup, Corrupt, Trunc, WriteErr, DialErr int
	DelayMax                                     int64
}

// Net is the simulated network.
type Net struct {
	w     *World
	Cfg   NetCfg
	Cut   map[string]bool // addresses that are cut off
	Sent  []Dgram         // everything put on the network by nodes
	Fails []Dgram         // what could not be sent or dialled for an injected error
	Hosts map[string]func(d Dgram)
	socks []*Sock
	Last  int64 // when the last datagram under way arrives
	// OnDeliver sees each copy handed to a socket.
	OnDeliver func(s *Sock, d Dgram)
}

func newNet(w *World) *Net {
	return &Net{w: w, Cut: map[string]bool{}, Hosts: map[string]func(Dgram){}, Cfg: NetCfg{DelayMax: 1_000_000}}
}

// Sock is a UDP socket of a node.
type Sock struct {
	Node      *Node
	ID        int
	Net       string // udp, udp4 or udp6
	Local     net.UDPAddr
	Remote    *net.UDPAddr
	Group     net.IP
	Iface     string
	q         []Dgram
	w         []*Task
	closed    bool
	rdeadline int64 // simulated time, 0 none
	Delivered []Dgram
	Opts      map[[2]int]int
	readErr   error
}

// zone6 is the zone of the node's own IPv6 address.
func (n *Node) zone6() string {
	if n.IP6.IsLinkLocalUnicast() {
		return n.IfName
	}
	return ""
}

func isV4(ip net.IP) bool { return ip.To4() != nil }

// NewSock opens a socket on the current task's node.
func NewSock(network string, local, remote *net.UDPAddr, group net.IP) (*Sock, error) {
	n := Here()
	w := W
	if cur.dead {
		deadOp()
	}
	if n.full() {
		op := "listen"
		if remote != nil {
			op = "dial"
			w.Net.Fails = append(w.Net.Fails, Dgram{At: w.Now, Node: n.ID, Task: cur.ID, Tag: cur.Tag, Dst: *remote})
		}
		return nil, &net.OpError{Op: op, Net: network, Err: os.NewSyscallError("socket", syscall.EMFILE)}
	}
	s := &Sock{Node: n, Net: network, Opts: map[[2]int]int{}}
	v6 := network == "udp6"
	if remote != nil {
		v6 = !isV4(remote.IP)
		if (network == "udp4" && v6) || (network == "udp6" && !v6) || len(remote.IP) == 0 && remote.IP != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("no suitable address")}
		}
		if w.Net.Cfg.DialErr > 0 && w.Fault.Chance(w.Net.Cfg.DialErr, 1000) {
			w.Injected("dial error")
			w.Net.Fails = append(w.Net.Fails, Dgram{At: w.Now, Node: n.ID, Task: cur.ID, Tag: cur.Tag, Dst: *remote})
			return nil, &net.OpError{Op: "dial", Net: network, Addr: remote, Err: os.NewSyscallError("connect", syscall.ENETUNREACH)}
		}
		if remote.IP.IsLinkLocalUnicast() && v6 && remote.Zone == "" { // the kernel does not know the link
			return nil, &net.OpError{Op: "dial", Net: network, Addr: remote, Err: os.NewSyscallError("connect", syscall.EINVAL)}
		}
		r := *remote
		r.IP = append(net.IP(nil), remote.IP...)
		if len(r.IP) == 0 || r.IP.IsUnspecified() {
			r.IP = net.IPv4(127, 0, 0, 1)
		}
		s.Remote = &r
		if r.Port == 0 {
			return nil, &net.OpError{Op: "dial", Net: network, Addr: remote, Err: os.NewSyscallError("connect", syscall.EINVAL)}
		}
	}
	if local != nil {
		s.Local = *local
		s.Local.IP = append(net.IP(nil), local.IP...)
	}
	if s.Local.IP == nil {
		if s.Remote != nil {
			if v6 {
				s.Local.IP, s.Local.Zone = n.IP6, n.zone6()
			} else {
				s.Local.IP = n.IP4
			}
		} else if v6 || network == "udp" {
			s.Local.IP = net.IPv6unspecified
		} else {
			s.Local.IP = net.IPv4zero.To4()
		}
	}
	if group != nil {
		s.Group = append(net.IP(nil), group...)
		if v6 {
			s.Local.IP = net.IPv6unspecified
		} else {
			s.Local.IP = net.IPv4zero.To4()
		}
	}
	if s.Local.Port == 0 {
		n.eph++
		s.Local.Port = n.eph
	} else if group == nil {
		for _, o := range n.socks {
			if !o.closed && o.Local.Port == s.Local.Port && o.Group == nil && o.Net == network {
				return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
			}
		}
	}
	s.ID = len(w.Net.socks)
	w.Net.socks = append(w.Net.socks, s)
	n.socks = append(n.socks, s)
	w.Event("node %d socket %s %s", n.ID, s.Local.String(), network)
	return s, nil
}

// Socks lists the open sockets of the node.
func (n *Node) Socks() []*Sock {
	var o []*Sock
	for _, s := range n.socks {
		if !s.closed {
			o = append(o, s)
		}
	}
	return o
}

// Closed tells whether the socket was closed.
func (s *Sock) Closed() bool { return s.closed }

// Close closes the socket.
func (s *Sock) Close() error {
	if cur != nil && cur.dead {
		return nil
	}
	if s.closed {
		return net.ErrClosed
	}
	s.closed = true
	wakeAll(&s.w)
	return nil
}

// Pending is the number of queued datagrams.
func (s *Sock) Pending() int { return len(s.q) }

// SetReadDeadline sets the deadline in simulated time from now, <0 none.
func (s *Sock) SetReadDeadline(d int64, none bool) {
	if none {
		s.rdeadline = 0
		return
	}
	s.rdeadline = W.Now + d
	if s.rdeadline <= 0 {
		s.rdeadline = 1
	}
	W.At(d, func() { wakeAll(&s.w) })
}

// Read waits for a datagram.
func (s *Sock) Read(b []byte) (int, *net.UDPAddr, error) {
	if cur == nil || cur.dead {
		deadOp()
	}
	Point()
	for {
		if s.closed {
			return 0, nil, net.ErrClosed
		}
		if s.readErr != nil {
			err := s.readErr
			s.readErr = nil
			return 0, nil, err
		}
		if len(s.q) > 0 {
			d := s.q[0]
			s.q = s.q[1:]
			n := copy(b, d.Data)
			a := d.Src
			a.IP = append(net.IP(nil), d.Src.IP...)
			return n, &a, nil
		}
		if s.rdeadline != 0 && W.Now >= s.rdeadline {
			return 0, nil, os.ErrDeadlineExceeded
		}
		s.w = append(s.w, cur)
		park("socket read")
	}
}

// FailRead makes the next read of the socket fail.
func (s *Sock) FailRead(err syscall.Errno) {
	s.Node.W.Injected("receive error")
	s.readErr = &net.OpError{Op: "read", Net: s.Net, Source: &s.Local, Err: os.NewSyscallError("recvfrom", err)}
	wakeAll(&s.w)
}

// Write sends a datagram.
func (s *Sock) Write(b []byte, to *net.UDPAddr) (int, error) {
	if cur == nil || cur.dead {
		deadOp()
	}
	w := W
	Point()
	if s.closed {
		return 0, net.ErrClosed
	}
	if to != nil && s.Remote != nil {
		return 0, net.ErrWriteToConnected
	}
	if to == nil {
		if s.Remote == nil {
			return 0, os.NewSyscallError("write", syscall.EDESTADDRREQ)
		}
		to = s.Remote
	}
	if len(b) > 65507 {
		return 0, os.NewSyscallError("sendto", syscall.EMSGSIZE)
	}
	if to.IP.IsLinkLocalUnicast() && !isV4(to.IP) && to.Zone == "" { // the kernel does not know the link
		return 0, os.NewSyscallError("sendto", syscall.EINVAL)
	}
	if w.Net.Cfg.WriteErr > 0 && w.Fault.Chance(w.Net.Cfg.WriteErr, 1000) {
		w.Injected("send error")
		w.Net.Fails = append(w.Net.Fails, Dgram{At: w.Now, Node: s.Node.ID, Task: cur.ID, Tag: cur.Tag, Dst: *to, Data: append([]byte(nil), b...)})
		return 0, os.NewSyscallError("sendto", []error{syscall.ENOBUFS, syscall.ECONNREFUSED, syscall.ENETUNREACH, syscall.EPERM}[w.Fault.Intn(4)].(syscall.Errno))
	}
	src := s.Local
	if src.IP.IsUnspecified() {
		if isV4(to.IP) {
			src.IP = s.Node.IP4
		} else {
			src.IP, src.Zone = s.Node.IP6, s.Node.zone6()
		}
	}
	d := Dgram{At: w.Now, Node: s.Node.ID, Task: cur.ID, Tag: cur.Tag, Src: src, Dst: *to, Data: append([]byte(nil), b...)}
	w.Net.Sent = append(w.Net.Sent, d)
	w.Event("node %d sends %d bytes to %s", s.Node.ID, len(b), to.String())
	w.Net.transmit(d)
	Point()
	return len(b), nil
}

// Send puts a datagram on the network on behalf of the harness, subject to
// the network's faults.
func (n *Net) Send(src, dst net.UDPAddr, data []byte) {
	d := Dgram{At: n.w.Now, Node: -1, Src: src, Dst: dst, Data: append([]byte(nil), data...)}
	n.transmit(d)
}

func (n *Net) transmit(d Dgram) {
	w := n.w
	f := w.Fault
	if n.Cut[d.Src.IP.String()] || n.Cut[d.Dst.IP.String()] {
		w.Injected("partition drop")
		return
	}
	if n.Cfg.Loss > 0 && f.Chance(n.Cfg.Loss, 1000) {
		w.Injected("loss")
		return
	}
	copies := 1
	if n.Cfg.Dup > 0 && f.Chance(n.Cfg.Dup, 1000) {
		w.Injected("duplicate")
		copies += 1 + f.Intn(2)
	}
	for i := 0; i < copies; i++ {
		c := d
		c.Data = append([]byte(nil), d.Data...)
		if n.Cfg.Corrupt > 0 && len(c.Data) > 0 && f.Chance(n.Cfg.Corrupt, 1000) {
			w.Injected("corrupt")
			for k := 0; k <= f.Intn(3); k++ {
				c.Data[f.Intn(len(c.Data))] ^= byte(1 + f.Intn(255))
			}
		}
		if n.Cfg.Trunc > 0 && len(c.Data) > 0 && f.Chance(n.Cfg.Trunc, 1000) {
			w.Injected("truncate")
			c.Data = c.Data[:f.Intn(len(c.Data))]
		}
		delay := int64(1000)
		if n.Cfg.DelayMax > 0 {
			delay += int64(f.Intn(64)) * (n.Cfg.DelayMax / 64)
		}
		if w.Now+delay > n.Last {
			n.Last = w.Now + delay
		}
		w.At(delay, func() { n.deliver(c) })
	}
}

func (n *Net) deliver(d Dgram) {
	w := n.w
	if n.Cut[d.Src.IP.String()] || n.Cut[d.Dst.IP.String()] {
		w.Injected("partition drop")
		return
	}
	w.Event("deliver %d bytes %s > %s", len(d.Data), d.Src.String(), d.Dst.String())
	if d.Dst.IP.IsMulticast() {
		for _, s := range append([]*Sock(nil), n.socks...) {
			if !s.closed && s.Group != nil && s.Group.Equal(d.Dst.IP) && s.Local.Port == d.Dst.Port {
				s.push(d)
			}
		}
		for _, k := range MapKeysSorted(n.Hosts) {
			if k != d.Src.IP.String() {
				n.Hosts[k](d)
			}
		}
		return
	}
	if h := n.Hosts[d.Dst.IP.String()]; h != nil {
		h(d)
		return
	}
	// The socket connected to the sender is preferred, as in a real stack.
	var best *Sock
	for _, s := range n.socks {
		if s.closed || s.Local.Port != d.Dst.Port || !s.owns(d.Dst.IP) {
			continue
		}
		if s.Remote != nil {
			if s.Remote.IP.Equal(d.Src.IP) && s.Remote.Port == d.Src.Port {
				best = s
				break
			}
			continue
		}
		if best == nil {
			best = s
		}
	}
	if best != nil {
		best.push(d)
	}
}

// MapKeysSorted lists the keys of a map in order.
func MapKeysSorted[V any](m map[string]V) []string {
	old := cur
	cur = nil
	k := MapKeys(m)
	cur = old
	return k
}

func (s *Sock) owns(ip net.IP) bool {
	if isV4(ip) {
		return (s.Net != "udp6") && s.Node.IP4.Equal(ip)
	}
	return s.Net != "udp4" && s.Node.IP6.Equal(ip)
}

func (s *Sock) push(d Dgram) {
	if len(s.q) >= 4096 {
		s.Node.W.Injected("queue overflow")
		return
	}
	s.q = append(s.q, d)
	d.At = s.Node.W.Now
	s.Delivered = append(s.Delivered, d)
	if s.Node.W.Net.OnDeliver != nil {
		s.Node.W.Net.OnDeliver(s, d)
	}
	wakeAll(&s.w)
}

// String describes a datagram.
func (d Dgram) String() string {
	return fmt.Sprintf("%s>%s %x", d.Src.String(), d.Dst.String(), bytes.TrimSpace(d.Data))
}
