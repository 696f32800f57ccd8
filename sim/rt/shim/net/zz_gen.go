// Code generated by shimgen. DO NOT EDIT.

package net

import (
	real "net"
	"simmod/simrt"
)

var _ = simrt.Cur

type Addr = real.Addr
type AddrError = real.AddrError
type Buffers = real.Buffers

var CIDRMask = real.CIDRMask

type Conn = real.Conn
type DNSConfigError = real.DNSConfigError
type DNSError = real.DNSError

var ErrClosed = real.ErrClosed
var ErrWriteToConnected = real.ErrWriteToConnected

type Error = real.Error

var FileConn = simrt.UnsupFunc(real.FileConn, "net.FileConn")
var FilePacketConn = simrt.UnsupFunc(real.FilePacketConn, "net.FilePacketConn")

const FlagBroadcast = real.FlagBroadcast
const FlagLoopback = real.FlagLoopback
const FlagMulticast = real.FlagMulticast
const FlagPointToPoint = real.FlagPointToPoint
const FlagRunning = real.FlagRunning
const FlagUp = real.FlagUp

type Flags = real.Flags
type HardwareAddr = real.HardwareAddr
type IP = real.IP
type IPAddr = real.IPAddr
type IPMask = real.IPMask
type IPNet = real.IPNet

var IPv4 = real.IPv4
var IPv4Mask = real.IPv4Mask
var IPv4allrouter = real.IPv4allrouter
var IPv4allsys = real.IPv4allsys
var IPv4bcast = real.IPv4bcast

const IPv4len = real.IPv4len

var IPv4zero = real.IPv4zero
var IPv6interfacelocalallnodes = real.IPv6interfacelocalallnodes

const IPv6len = real.IPv6len

var IPv6linklocalallnodes = real.IPv6linklocalallnodes
var IPv6linklocalallrouters = real.IPv6linklocalallrouters
var IPv6loopback = real.IPv6loopback
var IPv6unspecified = real.IPv6unspecified
var IPv6zero = real.IPv6zero

type InvalidAddrError = real.InvalidAddrError

var JoinHostPort = real.JoinHostPort

type KeepAliveConfig = real.KeepAliveConfig

var Listen = simrt.UnsupFunc(real.Listen, "net.Listen")

type Listener = real.Listener

var LookupCNAME = simrt.UnsupFunc(real.LookupCNAME, "net.LookupCNAME")
var LookupMX = simrt.UnsupFunc(real.LookupMX, "net.LookupMX")
var LookupNS = simrt.UnsupFunc(real.LookupNS, "net.LookupNS")
var LookupPort = simrt.UnsupFunc(real.LookupPort, "net.LookupPort")
var LookupSRV = simrt.UnsupFunc(real.LookupSRV, "net.LookupSRV")
var LookupTXT = simrt.UnsupFunc(real.LookupTXT, "net.LookupTXT")

type MX = real.MX
type NS = real.NS
type OpError = real.OpError
type PacketConn = real.PacketConn

var ParseCIDR = real.ParseCIDR

type ParseError = real.ParseError

var ParseIP = real.ParseIP
var ParseMAC = real.ParseMAC
var Pipe = simrt.UnsupFunc(real.Pipe, "net.Pipe")
var ResolveTCPAddr = simrt.UnsupFunc(real.ResolveTCPAddr, "net.ResolveTCPAddr")
var ResolveUnixAddr = simrt.UnsupFunc(real.ResolveUnixAddr, "net.ResolveUnixAddr")

type SRV = real.SRV

var SplitHostPort = real.SplitHostPort

type TCPAddr = real.TCPAddr

var TCPAddrFromAddrPort = real.TCPAddrFromAddrPort

type UDPAddr = real.UDPAddr

var UDPAddrFromAddrPort = real.UDPAddrFromAddrPort

type UnixAddr = real.UnixAddr
type UnknownNetworkError = real.UnknownNetworkError
