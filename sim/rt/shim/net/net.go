// Package net is the simulated network.
package net

import (
	"context"
	"errors"
	real "net"
	"net/netip"
	"strconv"
	"time"

	"simmod/shim/os"
	"simmod/simrt"
)

// UDPConn is a UDP socket.
type UDPConn struct {
	s *simrt.Sock
}

func (c *UDPConn) ok() bool { return c != nil && c.s != nil }

var errInval = errors.New("invalid argument")

func operr(op string, c *UDPConn, err error) error {
	if err == nil {
		return nil
	}
	l := c.s.Local
	e := &real.OpError{Op: op, Net: "udp", Source: &l, Err: err}
	if c.s.Remote != nil {
		e.Addr = c.s.Remote
	}
	return e
}

// Sock is the simulated socket.
func (c *UDPConn) Sock() *simrt.Sock { return c.s }

func (c *UDPConn) ReadFromUDP(b []byte) (int, *real.UDPAddr, error) {
	if !c.ok() {
		return 0, nil, errInval
	}
	n, a, err := c.s.Read(b)
	return n, a, operr("read", c, err)
}
func (c *UDPConn) ReadFrom(b []byte) (int, real.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *real.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return
}
func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}
func (c *UDPConn) Write(b []byte) (int, error) {
	if !c.ok() {
		return 0, errInval
	}
	n, err := c.s.Write(b, nil)
	return n, operr("write", c, err)
}
func (c *UDPConn) WriteToUDP(b []byte, a *real.UDPAddr) (int, error) {
	if !c.ok() {
		return 0, errInval
	}
	if a == nil {
		return 0, operr("write", c, errors.New("missing address"))
	}
	n, err := c.s.Write(b, a)
	return n, operr("write", c, err)
}
func (c *UDPConn) WriteTo(b []byte, a real.Addr) (int, error) {
	u, ok := a.(*real.UDPAddr)
	if !ok {
		return 0, operr("write", c, errInval)
	}
	return c.WriteToUDP(b, u)
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, real.UDPAddrFromAddrPort(a))
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *real.UDPAddr) (int, int, error) {
	var n int
	var err error
	if a == nil {
		n, err = c.Write(b)
	} else {
		n, err = c.WriteToUDP(b, a)
	}
	return n, 0, err
}
func (c *UDPConn) Close() error {
	if !c.ok() {
		return errInval
	}
	return operr("close", c, c.s.Close())
}
func (c *UDPConn) LocalAddr() real.Addr {
	if !c.ok() {
		return nil
	}
	a := c.s.Local
	return &a
}
func (c *UDPConn) RemoteAddr() real.Addr {
	if !c.ok() {
		return nil
	}
	if c.s.Remote == nil {
		return nil
	}
	a := *c.s.Remote
	return &a
}
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if !c.ok() {
		return errInval
	}
	if t.IsZero() {
		c.s.SetReadDeadline(0, true)
	} else {
		c.s.SetReadDeadline(int64(t.Sub(simrt.Here().Wall())), false)
	}
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }
func (c *UDPConn) File() (*os.File, error) {
	if !c.ok() {
		return nil, errInval
	}
	return os.SockFile(uintptr(100 + c.s.ID)), nil
}

func sock(network string, l, r *real.UDPAddr, group real.IP) (*UDPConn, error) {
	s, err := simrt.NewSock(network, l, r, group)
	if err != nil {
		return nil, err
	}
	return &UDPConn{s}, nil
}

func known(network string) error {
	switch network {
	case "udp", "udp4", "udp6":
		return nil
	}
	return real.UnknownNetworkError(network)
}

func DialUDP(network string, l, r *real.UDPAddr) (*UDPConn, error) {
	if err := known(network); err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	if r == nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	return sock(network, l, r, nil)
}
func ListenUDP(network string, l *real.UDPAddr) (*UDPConn, error) {
	if err := known(network); err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	return sock(network, l, nil, nil)
}
func ListenMulticastUDP(network string, ifi *Interface, g *real.UDPAddr) (*UDPConn, error) {
	if err := known(network); err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	if g == nil || g.IP == nil || !g.IP.IsMulticast() || network == "udp4" && g.IP.To4() == nil || network == "udp6" && g.IP.To4() != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: errors.New("missing address")}
	}
	if g.Port < 0 || g.Port > 65535 {
		return nil, &real.OpError{Op: "listen", Net: network, Err: errors.New("invalid port")}
	}
	return sock(network, &real.UDPAddr{Port: g.Port}, nil, g.IP)
}
func ListenPacket(network, address string) (real.PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, &real.OpError{Op: "listen", Net: network, Err: err}
	}
	c, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}
func Dial(network, address string) (real.Conn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	c, err := DialUDP(network, nil, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}
func DialTimeout(network, address string, d time.Duration) (real.Conn, error) {
	return Dial(network, address)
}

// ResolveUDPAddr knows no names: there is no name server.
func ResolveUDPAddr(network, address string) (*real.UDPAddr, error) {
	switch network {
	case "udp", "udp4", "udp6":
	case "":
		network = "udp"
	default:
		return nil, real.UnknownNetworkError(network)
	}
	host, port, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if _, err := strconv.Atoi(port); err != nil && port != "" {
		if _, err := real.LookupPort("udp", port); err != nil || port == "" {
			return nil, &real.DNSError{Err: "unknown port", Name: network + "/" + port}
		}
	}
	if host == "localhost" {
		host = "127.0.0.1"
		if network == "udp6" {
			host = "::1"
		}
	}
	if host != "" {
		h := host
		for i := range h {
			if h[i] == '%' {
				h = h[:i]
				break
			}
		}
		if real.ParseIP(h) == nil {
			return nil, &real.DNSError{Err: "no such host", Name: host, IsNotFound: true}
		}
	}
	return real.ResolveUDPAddr(network, real.JoinHostPort(host, port))
}
func ResolveIPAddr(network, address string) (*real.IPAddr, error) {
	if real.ParseIP(address) == nil {
		return nil, &real.DNSError{Err: "no such host", Name: address, IsNotFound: true}
	}
	return real.ResolveIPAddr(network, address)
}
func LookupIP(host string) ([]real.IP, error) {
	if ip := real.ParseIP(host); ip != nil {
		return []real.IP{ip}, nil
	}
	if host == "localhost" {
		return []real.IP{real.IPv4(127, 0, 0, 1), real.IPv6loopback}, nil
	}
	return nil, &real.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}
func LookupHost(host string) ([]string, error) {
	ip, err := LookupIP(host)
	var o []string
	for _, i := range ip {
		o = append(o, i.String())
	}
	return o, err
}
func LookupAddr(a string) ([]string, error) {
	return nil, &real.DNSError{Err: "no such host", Name: a, IsNotFound: true}
}

var _ = context.Background

// Interface is a network interface.
type Interface struct {
	Index        int
	MTU          int
	Name         string
	HardwareAddr real.HardwareAddr
	Flags        real.Flags
}

func (i *Interface) Addrs() ([]real.Addr, error) {
	n := simrt.Here()
	if i == nil {
		return nil, errInval
	}
	if i.Name == "lo" {
		return []real.Addr{&real.IPNet{IP: real.IPv4(127, 0, 0, 1), Mask: real.CIDRMask(8, 32)}}, nil
	}
	return []real.Addr{&real.IPNet{IP: n.IP4, Mask: real.CIDRMask(24, 32)}, &real.IPNet{IP: n.IP6, Mask: real.CIDRMask(64, 128)}}, nil
}
func (i *Interface) MulticastAddrs() ([]real.Addr, error) {
	return []real.Addr{&real.IPAddr{IP: real.IPv4(224, 0, 0, 1)}, &real.IPAddr{IP: real.ParseIP("ff02::1")}}, nil
}

func Interfaces() ([]Interface, error) {
	if simrt.Here().IfErr {
		simrt.Here().W.Injected("interfaces cannot be listed")
		return nil, &real.OpError{Op: "route", Net: "ip+net", Err: errors.New("netlinkrib: operation not permitted")}
	}
	return interfaces(), nil
}
func interfaces() []Interface {
	n := simrt.Here()
	return []Interface{
		{Index: 1, MTU: 65536, Name: "lo", Flags: real.FlagUp | real.FlagLoopback | real.FlagRunning},
		{Index: 2, MTU: n.MTU, Name: n.IfName, HardwareAddr: real.HardwareAddr{2, 0, 0, 0, 0, byte(n.ID)},
			Flags: real.FlagUp | real.FlagBroadcast | real.FlagMulticast | real.FlagRunning},
	}
}
func InterfaceByName(name string) (*Interface, error) {
	l := interfaces()
	for i := range l {
		if l[i].Name == name {
			return &l[i], nil
		}
	}
	return nil, &real.OpError{Op: "route", Net: "ip+net", Err: errors.New("no such network interface")}
}
func InterfaceByIndex(x int) (*Interface, error) {
	l := interfaces()
	for i := range l {
		if l[i].Index == x {
			return &l[i], nil
		}
	}
	return nil, &real.OpError{Op: "route", Net: "ip+net", Err: errors.New("no such network interface")}
}
func InterfaceAddrs() ([]real.Addr, error) {
	l := interfaces()
	return l[1].Addrs()
}
