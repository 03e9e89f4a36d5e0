//go:build go1.21

// Package vnet listens in the modelled network.
package vnet

import (
	"net"
	"syscall"

	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/mcnet"
	"github.com/companyzero/zkc/zz/vfs"
)

// Lsn is a listening socket.
type Lsn struct {
	Network, Address string
	closed           bool
	q                []net.Conn
	id               uint64
}

// Lsns are the sockets somebody listens on.
var Lsns []*Lsn

// Busy is an address that is in use by somebody else.
var Busy string

type addr struct{ n, a string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.a }

// Listen opens a listening socket.
func Listen(network, address string) (net.Listener, error) {
	mc.Yield()
	fail := func() (net.Listener, error) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: addr{network, address}, Err: syscall.EADDRINUSE}
	}
	if address == Busy {
		return fail()
	}
	for _, l := range Lsns {
		if !l.closed && l.Address == address && l.Network == network {
			return fail()
		}
	}
	if network == "unix" {
		if vfs.Cur.Exists(address) {
			return fail()
		}
		if err := vfs.WriteFile(address, nil, 0755); err != nil {
			return nil, err
		}
	}
	l := &Lsn{Network: network, Address: address, id: mc.NewObj()}
	Lsns = append(Lsns, l)
	return l, nil
}

// TCPConn is an accepted connection.
type TCPConn struct{ *mcnet.Conn }

func (c *TCPConn) SetKeepAlive(bool) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error   { return nil }

// UnixConn is an accepted local connection.
type UnixConn struct{ *mcnet.Conn }

// Accept waits for a connection.
func (l *Lsn) Accept() (net.Conn, error) {
	mc.Block("accept", l.Address, l.id, func() bool { return l.closed || len(l.q) > 0 })
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: l.Network, Err: net.ErrClosed}
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}

func (l *Lsn) Close() error   { l.closed = true; return nil }
func (l *Lsn) Addr() net.Addr { return addr{l.Network, l.Address} }

// Dial connects to whoever listens on an address.
func Dial(network, address string) (net.Conn, error) {
	c := Connect(network, address, "dial")
	if c == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr{network, address}, Err: syscall.ECONNREFUSED}
	}
	return c, nil
}

// Connect connects to whoever listens on an address.
func Connect(network, address, name string) *mcnet.Conn {
	for _, l := range Lsns {
		if !l.closed && l.Network == network && l.Address == address {
			a, b := mcnet.Pair(name, name+"-srv", 0)
			if network == "unix" {
				l.q = append(l.q, &UnixConn{b})
			} else {
				l.q = append(l.q, &TCPConn{b})
			}
			return a
		}
	}
	return nil
}
