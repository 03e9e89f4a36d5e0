//go:build go1.21

// Package mcnet is an in-memory network under the scheduler.
package mcnet

import (
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/companyzero/zkc/zz/mc"
)

type half struct {
	id     uint64
	buf    []byte
	eof    bool // writer closed
	shut   bool // reader closed
	cap    int
	Total  int
	cutAt  int // stop accepting bytes after this many (connection breaks)
	record func([]byte)
	vc     mc.VC
}

// Conn is one end.
type Conn struct {
	name   string
	in     *half
	out    *half
	closed bool
	ridx   uint64
	dl     int64
	dlHit  bool
	timer  interface{ Stop() bool }
	Peer   *Conn
	// UseDeadlines makes read deadlines fire when nothing else can happen.
	UseDeadlines bool
	NReads       int
}

type addr string

func (a addr) Network() string { return "mc" }
func (a addr) String() string  { return string(a) }

// Pair returns two connected ends.  cap is the number of bytes that may be in
// flight per direction (0: unlimited).
func Pair(a, b string, cap int) (*Conn, *Conn) {
	x := &half{id: mc.NewObj(), cap: cap, cutAt: -1}
	y := &half{id: mc.NewObj(), cap: cap, cutAt: -1}
	ca := &Conn{name: a, in: x, out: y}
	cb := &Conn{name: b, in: y, out: x}
	ca.Peer, cb.Peer = cb, ca
	return ca, cb
}

// SetCap changes the capacity of the outgoing direction.
func (c *Conn) SetCap(n int) { c.out.cap = n }

// Record installs a tap on outgoing bytes.
func (c *Conn) Record(f func([]byte)) { c.out.record = f }

// Pending returns the bytes waiting to be read by this end.
func (c *Conn) Pending() int { return len(c.in.buf) }

// PeerClosed tells whether the other side closed.
func (c *Conn) PeerClosed() bool { return c.in.eof || c.out.shut }

// IsClosed tells whether this side closed.
func (c *Conn) IsClosed() bool { return c.closed }

// Read reads.
func (c *Conn) Read(p []byte) (int, error) {
	h := c.in
	if len(p) == 0 {
		return 0, nil
	}
	c.NReads++
	mc.Block("netread", c.name, h.id, func() bool {
		return c.closed || len(h.buf) > 0 || h.eof || c.dlHit
	})
	if c.closed {
		mc.Acquire(h.vc)
		return 0, &net.OpError{Op: "read", Net: "mc", Err: net.ErrClosed}
	}
	if len(h.buf) > 0 {
		n := copy(p, h.buf)
		mc.Acquire(h.vc)
		h.buf = h.buf[n:]
		return n, nil
	}
	if h.eof {
		mc.Acquire(h.vc)
		return 0, io.EOF
	}
	return 0, &net.OpError{Op: "read", Net: "mc", Err: os.ErrDeadlineExceeded}
}

// ErrReset is returned when writing to a connection closed by the peer.
var ErrReset = errors.New("connection reset by peer")

// OnWrite is called before a write.
var OnWrite func(name string)

// Write writes.
func (c *Conn) Write(p []byte) (int, error) {
	if OnWrite != nil {
		OnWrite(c.name)
	}
	h := c.out
	n := 0
	for {
		mc.Block("netwrite", c.name, h.id, func() bool {
			return c.closed || h.shut || h.cap == 0 || len(h.buf) < h.cap
		})
		if c.closed || h.shut {
			mc.Acquire(h.vc)
		}
		if c.closed {
			return n, &net.OpError{Op: "write", Net: "mc", Err: net.ErrClosed}
		}
		if h.shut {
			return n, &net.OpError{Op: "write", Net: "mc", Err: ErrReset}
		}
		q := p[n:]
		if h.cap > 0 && len(h.buf)+len(q) > h.cap {
			q = q[:h.cap-len(h.buf)]
		}
		if h.cutAt >= 0 && h.Total+len(q) >= h.cutAt {
			q = q[:h.cutAt-h.Total]
			h.buf = append(h.buf, q...)
			h.Total += len(q)
			h.eof = true
			h.shut = true
			c.Peer.closed = c.Peer.closed || false
			return n + len(q), &net.OpError{Op: "write", Net: "mc", Err: ErrReset}
		}
		h.buf = append(h.buf, q...)
		mc.Release(&h.vc)
		h.Total += len(q)
		if h.record != nil {
			h.record(q)
		}
		n += len(q)
		if n == len(p) {
			return n, nil
		}
	}
}

// CutAfter breaks the outgoing direction after n bytes in total.
func (c *Conn) CutAfter(n int) { c.out.cutAt = n }

// Close closes.
func (c *Conn) Close() error {
	mc.Point("netclose", c.name, mc.Access{Obj: c.in.id, Write: true}, mc.Access{Obj: c.out.id, Write: true})
	if c.closed {
		return &net.OpError{Op: "close", Net: "mc", Err: net.ErrClosed}
	}
	c.closed = true
	mc.Release(&c.out.vc)
	mc.Release(&c.in.vc)
	c.out.eof = true
	c.in.shut = true
	return nil
}

// CloseWrite closes the outgoing direction.
func (c *Conn) CloseWrite() { c.out.eof = true }

func (c *Conn) LocalAddr() net.Addr  { return addr(c.name) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Peer.name) }

func (c *Conn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

// SetReadDeadline arms the read deadline.
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.timer != nil {
		c.timer.Stop()
	}
	c.dlHit = false
	if t.IsZero() || !c.UseDeadlines || mc.Active() == nil {
		return nil
	}
	c.timer = mc.AfterNano(t.UnixNano()-mc.PeekNano(), func() { c.dlHit = true })
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
