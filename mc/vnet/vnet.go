// Package vnet replaces the connection-making parts of package net by an
// in-memory network in virtual time.
package vnet

import (
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/vcontext"
	"verif.local/mc/vrt"
	"verif.local/mc/vtime"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type network struct {
	ep        uint32
	listeners map[string]*listener
	nextPort  int
	dials     []Dialed
	onDial    func(address string) error
}

// Dialed is one connection attempt.
type Dialed struct {
	At      time.Duration
	Address string
	Err     error
}

var nw network

func chk() *network {
	if nw.ep != vrt.Epoch() {
		nw = network{ep: vrt.Epoch(), listeners: map[string]*listener{}, nextPort: 40000}
	}
	return &nw
}

// Dials lists the connection attempts of this execution.
func Dials() []Dialed { return chk().dials }

// OnDial installs a hook that can refuse dials.
func OnDial(f func(string) error) { chk().onDial = f }

// Listening reports whether someone listens on address.
func Listening(address string) bool { _, ok := chk().listeners[address]; return ok }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

// ---- listener

type listener struct {
	a       addr
	backlog []*Conn
	closed  bool
	q       []*vrt.T
	dl      time.Time
}

// Listen replaces net.Listen.
func Listen(nk, address string) (net.Listener, error) {
	vrt.Point()
	n := chk()
	if strings.HasSuffix(address, ":0") {
		n.nextPort++
		address = address[:len(address)-1] + strconv.Itoa(n.nextPort)
	}
	if _, ok := n.listeners[address]; ok {
		return nil, opErr("listen", os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &listener{a: addr(address)}
	n.listeners[address] = l
	return l, nil
}

func (l *listener) Accept() (net.Conn, error) {
	for {
		vrt.Point()
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			return c, nil
		}
		if vrt.Dying() {
			return nil, opErr("accept", net.ErrClosed)
		}
		l.q = append(l.q, vrt.Cur())
		vrt.Park("accept " + string(l.a))
	}
}

func (l *listener) Close() error {
	vrt.Point()
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	if chk().listeners[string(l.a)] == l {
		delete(chk().listeners, string(l.a))
	}
	for _, c := range l.backlog {
		c.abort()
	}
	l.backlog = nil
	wake(&l.q)
	return nil
}

func (l *listener) Addr() net.Addr { return l.a }

func wake(q *[]*vrt.T) {
	ts := *q
	*q = nil
	for _, t := range ts {
		vrt.Ready(t)
	}
}

// ---- dial

func dial(address string) (net.Conn, error) {
	vrt.Point()
	n := chk()
	rec := Dialed{At: vrt.Now(), Address: address}
	if n.onDial != nil {
		if err := n.onDial(address); err != nil {
			rec.Err = opErr("dial", err)
			n.dials = append(n.dials, rec)
			return nil, rec.Err
		}
	}
	l, ok := n.listeners[address]
	if !ok {
		rec.Err = opErr("dial", os.NewSyscallError("connect", syscall.ECONNREFUSED))
		n.dials = append(n.dials, rec)
		return nil, rec.Err
	}
	n.nextPort++
	a, b := Pipe(addr("127.0.0.1:"+strconv.Itoa(n.nextPort)), l.a)
	l.backlog = append(l.backlog, b)
	wake(&l.q)
	n.dials = append(n.dials, rec)
	return a, nil
}

// Dial replaces net.Dial.
func Dial(nk, address string) (net.Conn, error) { return dial(address) }

// DialTimeout replaces net.DialTimeout.
func DialTimeout(nk, address string, d time.Duration) (net.Conn, error) { return dial(address) }

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr net.Addr
}

func (d *Dialer) Dial(nk, address string) (net.Conn, error) { return dial(address) }
func (d *Dialer) DialContext(ctx vcontext.Context, nk, address string) (net.Conn, error) {
	return dial(address)
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct{ KeepAlive time.Duration }

// Listen is as in net.
func (l *ListenConfig) Listen(ctx vcontext.Context, nk, address string) (net.Listener, error) {
	return Listen(nk, address)
}

// ---- connections

type half struct { // one direction
	buf    []byte
	eof    bool // writer closed
	reset  bool
	rq, wq []*vrt.T
	total  []byte // everything ever written
	marks  []Mark
	limit  int // 0: unbounded
}

// Mark records a Write call.
type Mark struct {
	At  time.Duration
	Off int
	Len int
}

// Conn is an end of an in-memory connection.
type Conn struct {
	in, out    *half
	peer       *Conn
	local      net.Addr
	remote     net.Addr
	closed     bool
	rdl, wdl   time.Time
	rt, wt     *vrt.Timer
	ReadChunks func() int // size limit of the next read (0: none)
	CloseCount int
}

// Pipe makes a connected pair.
func Pipe(la, lb net.Addr) (*Conn, *Conn) {
	x, y := &half{}, &half{}
	a := &Conn{in: x, out: y, local: la, remote: lb}
	b := &Conn{in: y, out: x, local: lb, remote: la}
	a.peer, b.peer = b, a
	return a, b
}

// NewPipe makes a connected pair with default addresses.
func NewPipe() (*Conn, *Conn) { return Pipe(addr("a"), addr("b")) }

func (c *Conn) Read(p []byte) (int, error) {
	for {
		vrt.Point()
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if !c.rdl.IsZero() && !vtime.Now().Before(c.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if c.in.reset {
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			n := len(c.in.buf)
			if c.ReadChunks != nil {
				if k := c.ReadChunks(); k > 0 && k < n {
					n = k
				}
			}
			if n > len(p) {
				n = len(p)
			}
			copy(p, c.in.buf[:n])
			c.in.buf = append([]byte(nil), c.in.buf[n:]...)
			wake(&c.in.wq)
			return n, nil
		}
		if c.in.eof {
			return 0, io.EOF
		}
		if vrt.Dying() {
			return 0, io.EOF
		}
		c.in.rq = append(c.in.rq, vrt.Cur())
		vrt.Park("read")
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	vrt.Point()
	done := 0
	for {
		if c.closed {
			return done, opErr("write", net.ErrClosed)
		}
		if !c.wdl.IsZero() && !vtime.Now().Before(c.wdl) {
			return done, opErr("write", os.ErrDeadlineExceeded)
		}
		if c.out.reset || c.in.reset || c.peer.closed {
			return done, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		n := len(p) - done
		if c.out.limit > 0 {
			if room := c.out.limit - len(c.out.buf); room < n {
				n = room
			}
		}
		if n > 0 || len(p) == 0 {
			c.out.marks = append(c.out.marks, Mark{vrt.Now(), len(c.out.total), n})
			c.out.buf = append(c.out.buf, p[done:done+n]...)
			c.out.total = append(c.out.total, p[done:done+n]...)
			done += n
			wake(&c.out.rq)
		}
		if done == len(p) || vrt.Dying() {
			return done, nil
		}
		c.out.wq = append(c.out.wq, vrt.Cur())
		vrt.Park("write")
		vrt.Point()
	}
}

func (c *Conn) Close() error {
	vrt.Point()
	c.CloseCount++
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.out.eof = true
	vrt.DelTimer(c.rt)
	vrt.DelTimer(c.wt)
	for _, h := range []*half{c.in, c.out} {
		wake(&h.rq)
		wake(&h.wq)
	}
	return nil
}

func (c *Conn) abort() {
	c.closed = true
	c.out.reset = true
	wake(&c.out.rq)
	wake(&c.out.wq)
	wake(&c.in.rq)
	wake(&c.in.wq)
}

// Abort resets the connection: the other end reads ECONNRESET at once.
func (c *Conn) Abort() { vrt.Point(); c.abort() }

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	vrt.Point()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	vrt.DelTimer(c.rt)
	c.rt = nil
	c.rdl = t
	if !t.IsZero() {
		c.rt = vrt.AddTimer(vtime.Until(t), func() { wake(&c.in.rq) })
	}
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	vrt.Point()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	vrt.DelTimer(c.wt)
	c.wt = nil
	c.wdl = t
	if !t.IsZero() {
		c.wt = vrt.AddTimer(vtime.Until(t), func() { wake(&c.out.wq) })
	}
	return nil
}

// Harness access, without scheduling points.

// Available is what has arrived and not been read.
func (c *Conn) Available() []byte { return c.in.buf }

// Take removes n bytes of what has arrived.
func (c *Conn) Take(n int) []byte {
	b := append([]byte(nil), c.in.buf[:n]...)
	c.in.buf = append([]byte(nil), c.in.buf[n:]...)
	wake(&c.in.wq)
	return b
}

// PeerClosed reports whether the other end closed or reset.
func (c *Conn) PeerClosed() bool { return c.in.eof || c.in.reset }

// IsClosed reports whether this end closed.
func (c *Conn) IsClosed() bool { return c.closed }

// Written is everything this end ever wrote.
func (c *Conn) Written() []byte { return c.out.total }

// Writes lists the Write calls of this end.
func (c *Conn) Writes() []Mark { return c.out.marks }

// Inject makes bytes arrive at the other end without a scheduling point.
func (c *Conn) Inject(b []byte) {
	c.out.buf = append(c.out.buf, b...)
	c.out.total = append(c.out.total, b...)
	wake(&c.out.rq)
}

// LimitIn bounds the receive buffer of this end (writers block beyond it).
func (c *Conn) LimitIn(n int) { c.in.limit = n }

var _ = errors.New

// TryAccept takes a waiting connection from a listener of this package, or
// returns nil.
func TryAccept(l net.Listener) *Conn {
	x := l.(*listener)
	if len(x.backlog) == 0 {
		return nil
	}
	c := x.backlog[0]
	x.backlog = x.backlog[1:]
	return c
}

// DialNow connects to address without a scheduling point, or returns nil.
func DialNow(address string) *Conn {
	n := chk()
	l, ok := n.listeners[address]
	if !ok {
		return nil
	}
	n.nextPort++
	a, b := Pipe(addr("127.0.0.1:"+strconv.Itoa(n.nextPort)), l.a)
	l.backlog = append(l.backlog, b)
	wake(&l.q)
	return a
}

// Shut closes this end without a scheduling point (reset: abruptly).
func (c *Conn) Shut(reset bool) {
	if c.closed {
		return
	}
	c.closed = true
	if reset {
		c.out.reset = true
	} else {
		c.out.eof = true
	}
	for _, h := range []*half{c.in, c.out} {
		wake(&h.rq)
		wake(&h.wq)
	}
}
