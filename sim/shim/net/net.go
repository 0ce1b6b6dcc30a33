// Package net stands in for the network: listeners and connections in memory,
// with delays, stalls and resets decided by the scenario.
package net

import (
	"context"
	"errors"
	"fmt"
	"io"
	real "net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Types of the package.
type (
	Addr     = real.Addr
	Conn     = real.Conn
	Error    = real.Error
	IP       = real.IP
	Listener = real.Listener
	OpError  = real.OpError
	TCPAddr  = real.TCPAddr
)

// Errors and functions of the package.
var (
	ErrClosed     = real.ErrClosed
	JoinHostPort  = real.JoinHostPort
	SplitHostPort = real.SplitHostPort
	ParseIP       = real.ParseIP
)

var (
	mtx       sync.Mutex
	listeners map[string]*Lis
	conns     []*End
	seq       int
	// ListenErr may return an error for Listen.
	ListenErr func(addr string) error
	// AcceptErr may return an error for Accept.
	AcceptErr func() error
	// Delay returns how long a piece of data is under way.
	Delay func() time.Duration
	// Piece returns how much of n bytes is read at once.
	Piece func(n int) int
	// Window is the number of bytes which may be under way.
	Window int
)

// Reset forgets everything.
func Reset() {
	listeners, conns, seq = map[string]*Lis{}, nil, 0
	ListenErr, AcceptErr, Delay, Piece, Window = nil, nil, nil, nil, 1<<16
}

// Listening returns the addresses which are listened on.
func Listening() int {
	mtx.Lock()
	defer mtx.Unlock()
	return len(listeners)
}

// Conns returns the ends of the connections, in the order of dialing: the
// client end of each, and its Peer.
func Conns() []*End {
	mtx.Lock()
	defer mtx.Unlock()
	return append([]*End(nil), conns...)
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Lis is a listener.
type Lis struct {
	addr   string
	queue  []*End
	wake   chan struct{}
	closed bool
}

// Listen listens on an address.
func Listen(network, address string) (Listener, error) {
	if ListenErr != nil {
		if err := ListenErr(address); err != nil {
			return nil, err
		}
	}
	mtx.Lock()
	defer mtx.Unlock()
	if listeners[address] != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Lis{addr: address, wake: make(chan struct{})}
	listeners[address] = l
	return l, nil
}

// ListenConfig contains options for listening.
type ListenConfig struct {
	KeepAlive time.Duration
}

// Listen listens on an address.
func (*ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Listen(network, address)
}

// Accept waits for a connection.
func (l *Lis) Accept() (Conn, error) {
	for {
		mtx.Lock()
		if l.closed {
			mtx.Unlock()
			return nil, &OpError{Op: "accept", Net: "tcp", Err: ErrClosed}
		}
		if len(l.queue) != 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			mtx.Unlock()
			if AcceptErr != nil {
				if err := AcceptErr(); err != nil {
					c.Break()
					return nil, err
				}
			}
			return c, nil
		}
		wake := l.wake
		mtx.Unlock()
		<-wake
	}
}

// Close closes the listener.
func (l *Lis) Close() error {
	mtx.Lock()
	defer mtx.Unlock()
	if l.closed {
		return &OpError{Op: "close", Net: "tcp", Err: ErrClosed}
	}
	l.closed = true
	delete(listeners, l.addr)
	for _, c := range l.queue {
		c.resetLocked()
	}
	l.queue = nil
	close(l.wake)
	return nil
}

// Addr returns the address.
func (l *Lis) Addr() Addr { return addr(l.addr) }

// Dialer contains options for dialing.
type Dialer struct {
	Timeout time.Duration
}

// DialContext connects to an address.
func (*Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Dial(network, address)
}

// Dial connects to an address.
func Dial(network, address string) (Conn, error) {
	mtx.Lock()
	defer mtx.Unlock()
	// "addr#name" names the connection
	name := address
	address, _, named := strings.Cut(address, "#")
	l := listeners[address]
	if l == nil {
		return nil, &OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if !named {
		seq++
		name = fmt.Sprintf("client:%d", seq)
	}
	a, b := newEnd(name), newEnd(address)
	a.Peer, b.Peer = b, a
	conns = append(conns, a)
	l.queue = append(l.queue, b)
	close(l.wake)
	l.wake = make(chan struct{})
	return a, nil
}

type piece struct {
	at  time.Time
	dat []byte
}

// End is one end of a connection.
type End struct {
	Peer *End
	name string

	// in are the data under way to this end
	in     []piece
	size   int
	last   time.Time
	eof    bool // the peer closed
	closed bool
	reset  bool
	stall  bool
	rd, wr time.Time
	wake   chan struct{}
}

func newEnd(name string) *End {
	return &End{name: name, wake: make(chan struct{})}
}

func (c *End) wakeLocked() {
	close(c.wake)
	c.wake = make(chan struct{})
}

func (c *End) changedLocked() {
	c.wakeLocked()
	c.Peer.wakeLocked()
}

// wait waits for a change or a point in time.
func wait(wake <-chan struct{}, until ...time.Time) {
	var first time.Time
	for _, t := range until {
		if !t.IsZero() && (first.IsZero() || t.Before(first)) {
			first = t
		}
	}
	if first.IsZero() {
		<-wake
		return
	}
	t := time.NewTimer(time.Until(first))
	defer t.Stop()
	select {
	case <-wake:
	case <-t.C:
	}
}

func (c *End) err(op string, err error) error {
	return &OpError{Op: op, Net: "tcp", Err: err}
}

func passed(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// Read reads data.
func (c *End) Read(p []byte) (int, error) {
	for {
		mtx.Lock()
		switch {
		case c.closed:
			mtx.Unlock()
			return 0, c.err("read", ErrClosed)
		case c.reset:
			mtx.Unlock()
			return 0, c.err("read", syscall.ECONNRESET)
		case passed(c.rd):
			mtx.Unlock()
			return 0, c.err("read", os.ErrDeadlineExceeded)
		case len(p) == 0:
			mtx.Unlock()
			return 0, nil
		}
		var at time.Time
		if !c.stall && len(c.in) != 0 {
			if at = c.in[0].at; passed(at) {
				n := min(len(p), len(c.in[0].dat))
				if Piece != nil && n > 1 {
					n = max(1, min(n, Piece(n)))
				}
				copy(p, c.in[0].dat[:n])
				if c.in[0].dat = c.in[0].dat[n:]; len(c.in[0].dat) == 0 {
					c.in = c.in[1:]
				}
				c.size -= n
				c.changedLocked()
				mtx.Unlock()
				return n, nil
			}
		} else if c.eof && !c.stall {
			mtx.Unlock()
			return 0, io.EOF
		}
		wake, rd := c.wake, c.rd
		mtx.Unlock()
		wait(wake, at, rd)
	}
}

// Write writes data.
func (c *End) Write(p []byte) (int, error) {
	done := 0
	for {
		mtx.Lock()
		switch {
		case c.closed:
			mtx.Unlock()
			return done, c.err("write", ErrClosed)
		case c.reset:
			mtx.Unlock()
			return done, c.err("write", syscall.ECONNRESET)
		case c.eof && c.Peer.closed:
			c.resetLocked()
			mtx.Unlock()
			return done, c.err("write", syscall.EPIPE)
		case passed(c.wr):
			mtx.Unlock()
			return done, c.err("write", os.ErrDeadlineExceeded)
		case len(p) == 0:
			mtx.Unlock()
			return done, nil
		}
		if n := min(len(p), Window-c.Peer.size); n > 0 {
			at := time.Now()
			if Delay != nil {
				at = at.Add(Delay())
			}
			if at.Before(c.Peer.last) {
				at = c.Peer.last
			}
			c.Peer.last = at
			c.Peer.in = append(c.Peer.in, piece{at, append([]byte(nil), p[:n]...)})
			c.Peer.size += n
			p = p[n:]
			done += n
			c.changedLocked()
			mtx.Unlock()
			continue
		}
		wake, wr := c.wake, c.wr
		mtx.Unlock()
		wait(wake, wr)
	}
}

// Close closes this end.
func (c *End) Close() error {
	mtx.Lock()
	defer mtx.Unlock()
	if c.closed {
		return c.err("close", ErrClosed)
	}
	c.closed = true
	c.Peer.eof = true
	c.in, c.size = nil, 0
	c.changedLocked()
	return nil
}

func (c *End) resetLocked() {
	c.reset, c.Peer.reset = true, true
	c.changedLocked()
}

// Break resets the connection at both ends.
func (c *End) Break() {
	mtx.Lock()
	defer mtx.Unlock()
	c.resetLocked()
}

// Stall stops or continues the delivery to both ends.
func (c *End) Stall(on bool) {
	mtx.Lock()
	defer mtx.Unlock()
	c.stall, c.Peer.stall = on, on
	c.changedLocked()
}

// Dead reports whether this end was closed, or the connection was reset.
func (c *End) Dead() bool {
	mtx.Lock()
	defer mtx.Unlock()
	return c.closed || c.reset
}

// LocalAddr returns the local address.
func (c *End) LocalAddr() Addr { return addr(c.name) }

// RemoteAddr returns the remote address.
func (c *End) RemoteAddr() Addr { return addr(c.Peer.name) }

// SetDeadline sets both deadlines.
func (c *End) SetDeadline(t time.Time) error {
	return errors.Join(c.SetReadDeadline(t), c.SetWriteDeadline(t))
}

// SetReadDeadline sets the deadline for reading.
func (c *End) SetReadDeadline(t time.Time) error {
	mtx.Lock()
	defer mtx.Unlock()
	c.rd = t
	c.wakeLocked()
	return nil
}

// SetWriteDeadline sets the deadline for writing.
func (c *End) SetWriteDeadline(t time.Time) error {
	mtx.Lock()
	defer mtx.Unlock()
	c.wr = t
	c.wakeLocked()
	return nil
}
