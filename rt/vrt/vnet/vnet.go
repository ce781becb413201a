// Package vnet is an in-memory network for rewritten code: stream listeners,
// dials and connections with the observable semantics of TCP and Unix sockets.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"ustack/vrt"
)

// DialRec records one dial attempt.
type DialRec struct {
	At   int64
	Addr string
	OK   bool
}

// Net is the network of one execution.
type Net struct {
	tcp       map[string]*Lis
	files     map[string]*Lis
	Listeners []*Lis
	Conns     []*VConn // every connection end ever made
	Dials     []DialRec
	nport     int
	o         vrt.HObj
	// Seg > 0: a read may deliver fewer bytes than available (environment choice)
	Seg bool
	// WriteLag: the first write after the peer closed succeeds silently
	BlockWrites bool
	// ListenFails makes the next Listen calls fail.
	ListenFails int
	// AcceptFails makes the next Accept calls fail.
	AcceptFails int
	// Blackhole: dials get no answer and time out.
	Blackhole bool
}

// N returns the network of the running execution.
func N() *Net {
	return vrt.Ext("net", func() any {
		return &Net{tcp: map[string]*Lis{}, files: map[string]*Lis{}, nport: 40000}
	}).(*Net)
}

type addr struct{ n, s string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.s }

func mkaddr(network, s string) net.Addr {
	if strings.HasPrefix(network, "unix") {
		return &net.UnixAddr{Name: s, Net: network}
	}
	h, p, err := net.SplitHostPort(s)
	if err != nil {
		return addr{network, s}
	}
	n := 0
	fmt.Sscanf(p, "%d", &n)
	ip := net.ParseIP(h)
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	return &net.TCPAddr{IP: ip, Port: n}
}

func opErr(op, network string, a net.Addr, e error) error {
	return &net.OpError{Op: op, Net: network, Addr: a, Err: e}
}

func sysErr(op, network string, a net.Addr, call string, e syscall.Errno) error {
	return opErr(op, network, a, os.NewSyscallError(call, e))
}

func key(address string) (string, error) {
	_, p, err := net.SplitHostPort(address)
	if err != nil {
		return "", &net.AddrError{Err: err.Error(), Addr: address}
	}
	return p, nil
}

// Lis is a listener.
type Lis struct {
	network, name string
	port          string
	unlink        bool
	backlog       []*VConn
	closed        bool
	o             vrt.HObj
}

// Listen models net.Listen for tcp and unix.
func Listen(network, address string) (net.Listener, error) {
	l, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(network, address string) (*Lis, error) {
	if !vrt.Active() {
		return nil, errors.New("torn down")
	}
	vrt.Point("listen " + address)
	n := N()
	n.o.AcqRel()
	if n.ListenFails > 0 {
		n.ListenFails--
		return nil, sysErr("listen", network, mkaddr(network, address), "bind", syscall.EADDRINUSE)
	}
	l := &Lis{network: network, name: address, unlink: true}
	if strings.HasPrefix(network, "unix") {
		if _, ok := n.files[address]; ok {
			return nil, sysErr("listen", network, mkaddr(network, address), "bind", syscall.EADDRINUSE)
		}
		if address == "" {
			return nil, sysErr("listen", network, mkaddr(network, address), "bind", syscall.EINVAL)
		}
		n.files[address] = l
	} else {
		k, err := key(address)
		if err != nil {
			return nil, opErr("listen", network, nil, err)
		}
		if k == "0" || k == "" {
			n.nport++
			k = fmt.Sprint(n.nport)
			l.name = "127.0.0.1:" + k
		}
		if o := n.tcp[k]; o != nil && !o.closed {
			return nil, sysErr("listen", network, mkaddr(network, address), "bind", syscall.EADDRINUSE)
		}
		l.port = k
		n.tcp[k] = l
	}
	n.Listeners = append(n.Listeners, l)
	return l, nil
}

// Addr of the listener.
func (l *Lis) Addr() net.Addr { return mkaddr(l.network, l.name) }

// SetUnlinkOnClose models UnixListener.SetUnlinkOnClose.
func (l *Lis) SetUnlinkOnClose(b bool) { l.unlink = b }

// SetDeadline is accepted and ignored.
func (l *Lis) SetDeadline(t time.Time) error { return nil }

// Open reports whether the listener still listens.
func (l *Lis) Open() bool { return !l.closed }

// Accept waits for a connection.
func (l *Lis) Accept() (net.Conn, error) {
	if !vrt.Active() {
		return nil, net.ErrClosed
	}
	vrt.Point("accept")
	vrt.Block("accept", func() bool { return l.closed || len(l.backlog) > 0 })
	l.o.AcqRel()
	if l.closed {
		return nil, opErr("accept", l.network, l.Addr(), net.ErrClosed)
	}
	if n := N(); n.AcceptFails > 0 {
		n.AcceptFails--
		return nil, sysErr("accept", l.network, l.Addr(), "accept", syscall.ECONNABORTED)
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	c.accepted = true
	return c, nil
}

// AcceptTCP models TCPListener.AcceptTCP.
func (l *Lis) AcceptTCP() (*VConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*VConn), nil
}

// AcceptUnix models UnixListener.AcceptUnix.
func (l *Lis) AcceptUnix() (*VConn, error) { return l.AcceptTCP() }

// Close closes the listener.
func (l *Lis) Close() error {
	if !vrt.Active() {
		return nil
	}
	vrt.Point("listener.close")
	n := N()
	n.o.AcqRel()
	l.o.AcqRel()
	if l.closed {
		return opErr("close", l.network, l.Addr(), net.ErrClosed)
	}
	l.closed = true
	if strings.HasPrefix(l.network, "unix") {
		if l.unlink {
			delete(n.files, l.name) // by name, whoever owns it now
		}
	} else if n.tcp[l.port] == l {
		delete(n.tcp, l.port)
	}
	for _, c := range l.backlog {
		c.shut()
	}
	l.backlog = nil
	return nil
}

// Unlink removes a socket file.
func Unlink(path string) bool {
	if !vrt.Active() {
		return false
	}
	vrt.Point("unlink " + path)
	n := N()
	n.o.AcqRel()
	_, ok := n.files[path]
	delete(n.files, path)
	return ok
}

// FileExists reports whether a socket file exists.
func FileExists(path string) bool {
	if !vrt.Active() {
		return false
	}
	vrt.Point("stat " + path)
	n := N()
	n.o.AcqRel()
	_, ok := n.files[path]
	return ok
}

// PutFile creates a stale socket file (harness).
func PutFile(path string) { N().files[path] = &Lis{closed: true, network: "unix", name: path} }

type half struct {
	buf    []byte
	eof    bool // writer closed
	rclose bool // reader closed
	limit  int
	o      vrt.HObj
}

// VConn is one end of a connection.
type VConn struct {
	ID            int
	network       string
	local, remote string
	in, out       *half
	closed        bool
	accepted      bool
	Server        bool
	Peer          *VConn
	// Wrote and Got hold all bytes written by and delivered to this end.
	Wrote, Got []byte
	// FailWriteAfter >= 0: writes fail after so many more bytes.
	FailWriteAfter int
	// FailRead makes reads fail once the buffer is drained.
	FailRead bool
	rdl, wdl time.Time
	timed    bool
	// Writes and Reads log the sizes.
	Writes, Reads []int
}

// Dial models net.Dial.
func Dial(network, address string) (net.Conn, error) {
	c, err := dial(network, address, 0)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// DialTimeout models net.DialTimeout.
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	c, err := dial(network, address, d)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func dial(network, address string, limit time.Duration) (*VConn, error) {
	if !vrt.Active() {
		return nil, errors.New("torn down")
	}
	vrt.Point("dial " + address)
	n := N()
	n.o.AcqRel()
	if n.Blackhole {
		if limit <= 0 {
			limit = 127 * time.Second
		}
		n.Dials = append(n.Dials, DialRec{vrt.Now(), address, false})
		vrt.Sleep(int64(limit))
		n.o.AcqRel()
		return nil, opErr("dial", network, mkaddr(network, address), timeoutErr{})
	}
	var l *Lis
	var e syscall.Errno = syscall.ECONNREFUSED
	if strings.HasPrefix(network, "unix") {
		l = n.files[address]
		if l == nil {
			e = syscall.ENOENT
		}
	} else {
		k, err := key(address)
		if err != nil {
			return nil, opErr("dial", network, nil, err)
		}
		l = n.tcp[k]
	}
	if l == nil || l.closed {
		n.Dials = append(n.Dials, DialRec{vrt.Now(), address, false})
		return nil, sysErr("dial", network, mkaddr(network, address), "connect", e)
	}
	n.Dials = append(n.Dials, DialRec{vrt.Now(), address, true})
	a, b := &half{}, &half{}
	n.nport++
	la := fmt.Sprintf("127.0.0.1:%d", n.nport)
	if strings.HasPrefix(network, "unix") {
		la = ""
	}
	c := &VConn{ID: len(n.Conns), network: network, local: la, remote: address, in: a, out: b, FailWriteAfter: -1}
	s := &VConn{ID: len(n.Conns) + 1, network: network, local: l.name, remote: la, in: b, out: a, Server: true, FailWriteAfter: -1}
	c.Peer, s.Peer = s, c
	n.Conns = append(n.Conns, c, s)
	l.backlog = append(l.backlog, s)
	l.o.AcqRel()
	return c, nil
}

// Pipe makes a connected pair without a listener (harness).
func HPipe() (*VConn, *VConn) {
	n := N()
	a, b := &half{}, &half{}
	c := &VConn{ID: len(n.Conns), network: "tcp", local: "127.0.0.1:1", remote: "127.0.0.1:2", in: a, out: b, FailWriteAfter: -1}
	s := &VConn{ID: len(n.Conns) + 1, network: "tcp", local: "127.0.0.1:2", remote: "127.0.0.1:1", in: b, out: a, Server: true, FailWriteAfter: -1}
	c.Peer, s.Peer = s, c
	n.Conns = append(n.Conns, c, s)
	return c, s
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(e error) bool { return e == os.ErrDeadlineExceeded }

func (c *VConn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: c.network, Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: e}
}

// Read reads what is available, at least one byte.
func (c *VConn) Read(p []byte) (int, error) {
	if !vrt.Active() {
		return 0, net.ErrClosed
	}
	vrt.Point("conn.read")
	h := c.in
	expired := func() bool {
		return c.timed && !c.rdl.IsZero() && !now().Before(c.rdl)
	}
	if len(p) == 0 {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		return 0, nil
	}
	vrt.Block("conn.read", func() bool {
		return c.closed || len(h.buf) > 0 || h.eof || c.FailRead || expired()
	})
	h.o.AcqRel()
	if c.closed || h.rclose {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if len(h.buf) == 0 {
		if c.FailRead {
			return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if h.eof {
			return 0, io.EOF
		}
		return 0, c.opErr("read", timeoutErr{})
	}
	k := len(h.buf)
	if k > len(p) {
		k = len(p)
	}
	if N().Seg && k > 1 {
		switch vrt.Deviate(3) {
		case 1:
			k = 1
		case 2:
			if k > 2 {
				k--
			}
		}
	}
	copy(p, h.buf[:k])
	c.Got = append(c.Got, h.buf[:k]...)
	c.Reads = append(c.Reads, k)
	h.buf = h.buf[k:]
	return k, nil
}

// Write writes p.
func (c *VConn) Write(p []byte) (int, error) {
	if !vrt.Active() {
		return 0, net.ErrClosed
	}
	vrt.Point("conn.write")
	h := c.out
	if N().BlockWrites {
		vrt.Block("conn.write", func() bool { return c.closed || !N().BlockWrites })
	}
	h.o.AcqRel()
	if c.closed || h.eof {
		return 0, c.opErr("write", net.ErrClosed)
	}
	if h.rclose {
		return 0, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	k := len(p)
	var err error
	if c.FailWriteAfter >= 0 {
		if k > c.FailWriteAfter {
			k = c.FailWriteAfter
			err = c.opErr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		c.FailWriteAfter -= k
	}
	h.buf = append(h.buf, p[:k]...)
	c.Wrote = append(c.Wrote, p[:k]...)
	c.Writes = append(c.Writes, k)
	return k, err
}

func (c *VConn) shut() {
	c.closed = true
	c.in.rclose = true
	c.in.buf = nil
	c.out.eof = true
}

// Close closes this end.
func (c *VConn) Close() error {
	if !vrt.Active() {
		return nil
	}
	vrt.Point("conn.close")
	c.in.o.AcqRel()
	c.out.o.AcqRel()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.shut()
	return nil
}

// CloseWrite shuts down the sending half.
func (c *VConn) CloseWrite() error {
	vrt.Point("conn.closewrite")
	c.out.o.AcqRel()
	c.out.eof = true
	return nil
}

// CloseRead shuts down the receiving half.
func (c *VConn) CloseRead() error {
	vrt.Point("conn.closeread")
	c.in.o.AcqRel()
	c.in.rclose = true
	return nil
}

// IsClosed reports (harness) whether this end was closed.
func (c *VConn) IsClosed() bool { return c.closed }

// Accepted reports (harness) whether a server end was taken from the backlog.
func (c *VConn) Accepted() bool { return c.accepted }

// Pending returns (harness) the bytes not yet read by this end.
func (c *VConn) Pending() []byte { return c.in.buf }

// Break (harness) makes both ends fail like a reset.
func (c *VConn) Break() {
	vrt.Point("conn.break")
	c.in.o.AcqRel()
	c.out.o.AcqRel()
	c.FailRead, c.Peer.FailRead = true, true
	c.FailWriteAfter, c.Peer.FailWriteAfter = 0, 0
}

func (c *VConn) LocalAddr() net.Addr  { return mkaddr(c.network, c.local) }
func (c *VConn) RemoteAddr() net.Addr { return mkaddr(c.network, c.remote) }

func now() time.Time {
	return time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(vrt.Now()))
}

func (c *VConn) wakeAt(t time.Time) {
	if !t.IsZero() && vrt.Active() {
		c.timed = true
		vrt.AddTimer(int64(t.Sub(now())), func() {})
	}
}

func (c *VConn) SetDeadline(t time.Time) error      { c.rdl, c.wdl = t, t; c.wakeAt(t); return nil }
func (c *VConn) SetReadDeadline(t time.Time) error  { c.rdl = t; c.wakeAt(t); return nil }
func (c *VConn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }
func (c *VConn) SetNoDelay(bool) error              { return nil }
func (c *VConn) SetKeepAlive(bool) error            { return nil }
func (c *VConn) SetKeepAlivePeriod(time.Duration) error {
	return nil
}
func (c *VConn) SetLinger(int) error      { return nil }
func (c *VConn) SetReadBuffer(int) error  { return nil }
func (c *VConn) SetWriteBuffer(int) error { return nil }

type TCPConn = VConn
type UnixConn = VConn
type TCPListener = Lis
type UnixListener = Lis

func ListenTCP(network string, a *net.TCPAddr) (*Lis, error)   { return listen(network, a.String()) }
func ListenUnix(network string, a *net.UnixAddr) (*Lis, error) { return listen(network, a.Name) }
func DialTCP(network string, l, a *net.TCPAddr) (*VConn, error) { return dial(network, a.String(), 0) }
func DialUnix(network string, l, a *net.UnixAddr) (*VConn, error) {
	return dial(network, a.Name, 0)
}

// Dialer models net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if ctx.Err() != nil {
		return nil, opErr("dial", network, nil, ctx.Err())
	}
	return DialTimeout(network, address, d.Timeout)
}

// ListenConfig models net.ListenConfig.
type ListenConfig struct{ KeepAlive time.Duration }

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

// Waiting is the number of connections not yet accepted (harness).
func (l *Lis) Waiting() int { return len(l.backlog) }
