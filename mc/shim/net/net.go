// Package net mirrors the standard package on a virtual network with scripted
// or threaded peers, virtual-time deadlines and the error values of the
// original.
package net

import (
	"io"
	rnet "net"
	"os"
	"strconv"
	"strings"
	"syscall"
	rtime "time"
	"unsafe"

	"verifmc/shim/context"
	"verifmc/vrt"
)

type seg struct {
	at int64
	b  []byte
}

// TCPConn is one endpoint of a virtual connection.
type TCPConn struct {
	ID     int
	Net    *Network
	Peer   *TCPConn
	Lib    bool // endpoint held by the code under test
	Target string
	TLS    bool
	TLSCfg interface{}

	in       []seg
	finAt    int64
	rstAt    int64
	rstErr   syscall.Errno // what the loss is reported as
	rstSeen  bool
	unread   int
	Window   int   // unread bytes this endpoint accepts (0: no limit)
	Latency  int64 // delay of bytes written by this endpoint
	rdl, wdl int64
	shutW    bool
	linger0  bool
	Closed   bool
	CloseErr error // what closing reports, closed as it is then
	ClosedAt int64
	OpenedAt int64
	LastIO   int64
	laddr    *rnet.TCPAddr
	raddr    *rnet.TCPAddr

	// passive peer: called (without scheduling points) on this endpoint when
	// the other one writes or closes
	OnData  func(c *TCPConn, b []byte)
	OnClose func(c *TCPConn)
	Got     []byte // bytes a passive peer received so far
	Sent    int
	obj     vrt.Obj
	tok     uint64
}

// VrtOrder tells connections apart by the order they came to be.
func (c *TCPConn) VrtOrder() int { return c.ID }

// DialReq is one dial attempt by the code under test.
type DialReq struct {
	N       int
	Network string
	Addr    string
	At      int64
	TLS     bool
	TLSCfg  interface{}
	Timeout int64
	Conn    *TCPConn // the endpoint handed out, if any
	Failed  bool
	DoneAt  int64
}

// DialPlan is the answer to a dial attempt.
type DialPlan struct {
	Delay rtime.Duration
	Err   error
	Setup func(peer *TCPConn) // configure the passive peer
}

// Network is the virtual network of one execution.
type Network struct {
	listeners []*TCPListener
	Conns     []*TCPConn // endpoints held by the code under test
	Dials     []*DialReq
	OnDial    func(r *DialReq) DialPlan
	OnListen  func(addr string) error
	ids       int
	port      int
}

// TheNet is the network of the current execution.
var TheNet *Network

// NewNetwork installs a fresh network.
func NewNetwork() *Network {
	TheNet = &Network{port: 40000}
	return TheNet
}

func portOf(addr string) int {
	i := strings.LastIndex(addr, ":")
	if i < 0 {
		return -1
	}
	p, err := strconv.Atoi(addr[i+1:])
	if err != nil {
		return -1
	}
	return p
}

func (n *Network) pair(target string) (client, server *TCPConn) {
	n.ids++
	n.port++
	a := &rnet.TCPAddr{IP: rnet.IPv4(127, 0, 0, 1), Port: n.port}
	b := &rnet.TCPAddr{IP: rnet.IPv4(127, 0, 0, 1), Port: portOf(target)}
	now := vrt.Now()
	client = &TCPConn{ID: n.ids, Net: n, finAt: -1, rstAt: -1, laddr: a, raddr: b, Target: target, OpenedAt: now, LastIO: now}
	server = &TCPConn{ID: n.ids, Net: n, finAt: -1, rstAt: -1, laddr: b, raddr: a, Target: target, OpenedAt: now, LastIO: now}
	client.Peer, server.Peer = server, client
	return
}

func (n *Network) find(port int) *TCPListener {
	for _, l := range n.listeners {
		if !l.closed && l.port == port {
			return l
		}
	}
	return nil
}

// Connect is a harness-side dial to a listener of the code under test.
func (n *Network) Connect(addr string) (*TCPConn, error) {
	vrt.Point(nil, "connect")
	l := n.find(portOf(addr))
	if l == nil {
		return nil, &OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	c, s := n.pair(addr)
	s.Lib = true
	n.Conns = append(n.Conns, s)
	l.queue = append(l.queue, s)
	return c, nil
}

func (c *TCPConn) err(op string, e error) error {
	return &OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: e}
}

func (c *TCPConn) bytesReady() bool { return len(c.in) > 0 && c.in[0].at <= vrt.Now() }
func (c *TCPConn) finReady() bool {
	return len(c.in) == 0 && c.finAt >= 0 && c.finAt <= vrt.Now()
}
func (c *TCPConn) lossErr() syscall.Errno {
	if c.rstErr != 0 {
		return c.rstErr
	}
	return syscall.ECONNRESET
}
func (c *TCPConn) rstReady() bool { return c.rstAt >= 0 && c.rstAt <= vrt.Now() }

func expired(dl int64) bool { return dl != 0 && vrt.Now() >= dl }

// Read implements Conn.
func (c *TCPConn) Read(b []byte) (int, error) {
	if vrt.Active() && vrt.Dead() {
		return 0, io.EOF
	}
	vrt.Point(&c.obj, "conn.read")
	if c.Closed {
		return 0, c.err("read", ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if expired(c.rdl) {
		return 0, c.err("read", os.ErrDeadlineExceeded)
	}
	vrt.Block(func() bool {
		return c.Closed || c.bytesReady() || c.finReady() || c.rstReady() || expired(c.rdl)
	}, func() int64 {
		best := int64(-1)
		min := func(v int64) {
			if v > vrt.Now() && (best < 0 || v < best) {
				best = v
			}
		}
		if len(c.in) > 0 {
			min(c.in[0].at)
		} else if c.finAt >= 0 {
			min(c.finAt)
		}
		if c.rstAt >= 0 {
			min(c.rstAt)
		}
		if c.rdl != 0 {
			min(c.rdl)
		}
		return best
	})
	vrt.Touch(&c.obj, "conn.read.end")
	c.LastIO = vrt.Now()
	switch {
	case c.Closed:
		return 0, c.err("read", ErrClosed)
	case c.bytesReady():
		n := copy(b, c.in[0].b)
		c.in[0].b = c.in[0].b[n:]
		if len(c.in[0].b) == 0 {
			c.in = c.in[1:]
		}
		c.unread -= n
		vrt.RaceAcquire(unsafe.Pointer(&c.tok))
		vrt.RaceWriteBuf(b[:n])
		if vrt.Tracing() {
			vrt.Tracef("conn%d lib=%v read % x", c.ID, c.Lib, b[:n])
		}
		return n, nil
	case c.finReady():
		return 0, io.EOF
	case c.rstReady():
		if c.rstSeen {
			return 0, io.EOF
		}
		c.rstSeen = true
		return 0, c.err("read", os.NewSyscallError("read", c.lossErr()))
	}
	return 0, c.err("read", os.ErrDeadlineExceeded)
}

// Write implements Conn.
func (c *TCPConn) Write(b []byte) (int, error) {
	if vrt.Active() && vrt.Dead() {
		return len(b), nil
	}
	vrt.Point(&c.obj, "conn.write")
	vrt.RaceReadBuf(b)
	n := 0
	for first := true; first || n < len(b); first = false {
		if c.Closed {
			return n, c.err("write", ErrClosed)
		}
		if c.shutW {
			return n, c.err("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if expired(c.wdl) {
			return n, c.err("write", os.ErrDeadlineExceeded)
		}
		if c.rstReady() {
			if !c.rstSeen && c.finAt < 0 {
				c.rstSeen = true
				return n, c.err("write", os.NewSyscallError("write", c.lossErr()))
			}
			return n, c.err("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(b) == 0 {
			return 0, nil
		}
		p := c.Peer
		if p.Closed {
			// the peer's kernel answers with a reset
			if c.rstAt < 0 {
				c.rstAt = vrt.Now()
			}
			c.LastIO = vrt.Now()
			return len(b), nil
		}
		room := len(b) - n
		if p.Window > 0 {
			if r := p.Window - p.unread; r < room {
				room = r
			}
		}
		if room <= 0 {
			vrt.Block(func() bool {
				return c.Closed || c.rstReady() || expired(c.wdl) || p.Closed || p.Window == 0 || p.Window > p.unread
			}, func() int64 {
				if c.rstAt > vrt.Now() && (c.wdl == 0 || c.rstAt < c.wdl) {
					return c.rstAt
				}
				if c.wdl != 0 {
					return c.wdl
				}
				return -1
			})
			continue
		}
		chunk := append([]byte(nil), b[n:n+room]...)
		n += room
		c.LastIO = vrt.Now()
		c.Sent += room
		if vrt.Tracing() {
			vrt.Tracef("conn%d lib=%v write % x", c.ID, c.Lib, chunk)
		}
		vrt.RaceReleaseMerge(unsafe.Pointer(&p.tok))
		if p.OnData != nil {
			p.Got = append(p.Got, chunk...)
			vrt.Atomic(func() { p.OnData(p, chunk) })
		} else {
			p.unread += room
			p.in = append(p.in, seg{vrt.Now() + c.Latency, chunk})
		}
	}
	vrt.Point(&c.obj, "conn.written")
	return n, nil
}

// Close implements Conn.
func (c *TCPConn) Close() error {
	if vrt.Active() && vrt.Dead() {
		return nil
	}
	vrt.Point(&c.obj, "conn.close")
	if c.Closed {
		return c.err("close", ErrClosed)
	}
	c.shut()
	vrt.Point(&c.obj, "conn.closed")
	if c.CloseErr != nil {
		return c.err("close", c.CloseErr)
	}
	return nil
}

func (c *TCPConn) shut() {
	c.Closed, c.ClosedAt = true, vrt.Now()
	vrt.RaceReleaseMerge(unsafe.Pointer(&c.Peer.tok))
	if c.linger0 || c.bytesReady() {
		if c.Peer.rstAt < 0 {
			c.Peer.rstAt = vrt.Now()
		}
	} else if c.Peer.finAt < 0 {
		c.Peer.finAt = vrt.Now()
	}
	if vrt.Tracing() {
		vrt.Tracef("conn%d lib=%v closed", c.ID, c.Lib)
	}
	if c.Peer.OnClose != nil {
		vrt.Atomic(func() { c.Peer.OnClose(c.Peer) })
	}
}

// CloseWrite half-closes.
func (c *TCPConn) CloseWrite() error {
	if vrt.Active() && vrt.Dead() {
		return nil
	}
	vrt.Point(&c.obj, "conn.closewrite")
	if c.Closed {
		return c.err("close", ErrClosed)
	}
	c.shutW = true
	if c.Peer.finAt < 0 {
		c.Peer.finAt = vrt.Now()
	}
	return nil
}

// CloseRead half-closes.
func (c *TCPConn) CloseRead() error {
	c.finAt = vrt.Now()
	c.in = nil
	return nil
}

// Abort closes with a reset (harness side).
func (c *TCPConn) Abort() {
	vrt.Point(&c.obj, "conn.abort")
	c.linger0 = true
	if !c.Closed {
		c.shut()
	}
}

func (c *TCPConn) LocalAddr() Addr  { return c.laddr }
func (c *TCPConn) RemoteAddr() Addr { return c.raddr }

func dlOf(t rtime.Time) int64 {
	if t.IsZero() {
		return 0
	}
	v := t.UnixNano()
	if v == 0 {
		v = 1
	}
	return v
}

func (c *TCPConn) setDl(r, w bool, t rtime.Time) error {
	if vrt.Active() && vrt.Dead() {
		return nil
	}
	vrt.Touch(&c.obj, "conn.deadline")
	if c.Closed {
		return c.err("set", ErrClosed)
	}
	if r {
		c.rdl = dlOf(t)
	}
	if w {
		c.wdl = dlOf(t)
	}
	return nil
}

func (c *TCPConn) SetDeadline(t rtime.Time) error      { return c.setDl(true, true, t) }
func (c *TCPConn) SetReadDeadline(t rtime.Time) error  { return c.setDl(true, false, t) }
func (c *TCPConn) SetWriteDeadline(t rtime.Time) error { return c.setDl(false, true, t) }

func (c *TCPConn) SetNoDelay(bool) error                    { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlivePeriod(rtime.Duration) error  { return nil }
func (c *TCPConn) SetReadBuffer(int) error                  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                 { return nil }
func (c *TCPConn) SetKeepAliveConfig(KeepAliveConfig) error { return nil }
func (c *TCPConn) SetLinger(sec int) error {
	c.linger0 = sec == 0
	return nil
}

// Inject makes bytes arrive at this endpoint's peer after d (harness side).
func (c *TCPConn) Inject(d rtime.Duration, b []byte) {
	p := c.Peer
	if p.Closed || len(b) == 0 {
		return
	}
	vrt.RaceReleaseMerge(unsafe.Pointer(&p.tok))
	p.unread += len(b)
	p.in = append(p.in, seg{vrt.Now() + int64(d), append([]byte(nil), b...)})
}

// InjectFIN closes the stream towards the peer after d.
func (c *TCPConn) InjectFIN(d rtime.Duration) {
	if c.Peer.finAt < 0 {
		c.Peer.finAt = vrt.Now() + int64(d)
	}
}

// InjectRST resets the peer after d.
func (c *TCPConn) InjectRST(d rtime.Duration) {
	if c.Peer.rstAt < 0 {
		c.Peer.rstAt = vrt.Now() + int64(d)
	}
}

// InjectLoss is a loss of the connection its peer learns of by another error.
func (c *TCPConn) InjectLoss(d rtime.Duration, e syscall.Errno) {
	if c.Peer.rstAt < 0 {
		c.Peer.rstErr = e
	}
	c.InjectRST(d)
}

// Vanish: a passive peer closes at once: data to it is answered with a reset.
func (c *TCPConn) Vanish() {
	c.InjectFIN(0)
	c.Closed = true
	c.ClosedAt = vrt.Now()
}

// Unread counts bytes queued at this endpoint.
func (c *TCPConn) Unread() int { return c.unread }

// Take removes and returns what has arrived (passive peers without OnData).
func (c *TCPConn) Take() []byte {
	var b []byte
	for len(c.in) > 0 && c.in[0].at <= vrt.Now() {
		b = append(b, c.in[0].b...)
		c.unread -= len(c.in[0].b)
		c.in = c.in[1:]
	}
	return b
}

// EOF reports that the other side has closed (or reset) and all bytes that had
// arrived before were taken.
func (c *TCPConn) EOF() bool { return !c.bytesReady() && (c.finReady() || c.rstReady()) }

// OpenLib counts connections of the code under test that are still open.
func (n *Network) OpenLib() int {
	k := 0
	for _, c := range n.Conns {
		if !c.Closed {
			k++
		}
	}
	return k
}

// TCPListener is a virtual listener.
type TCPListener struct {
	n        *Network
	addr     *rnet.TCPAddr
	port     int
	queue    []*TCPConn
	Errs     []error // accept errors to report first
	closed   bool
	ClosedAt int64
	Accepts  int
	dl       int64
	obj      vrt.Obj
	tok      uint64
}

// Listener returns the open listener on a port, if any (harness side).
func (n *Network) Listener(addr string) *TCPListener { return n.find(portOf(addr)) }

// Listeners returns every listener ever opened.
func (n *Network) Listeners() []*TCPListener { return n.listeners }

// IsClosed reports whether the listener was closed.
func (l *TCPListener) IsClosed() bool { return l.closed }

// InjectErr makes the next Accept fail.
func (l *TCPListener) InjectErr(e error) { l.Errs = append(l.Errs, e) }

// Backlog counts connections not accepted yet.
func (l *TCPListener) Backlog() int { return len(l.queue) }

func (l *TCPListener) err(op string, e error) error {
	return &OpError{Op: op, Net: "tcp", Addr: l.addr, Err: e}
}

// Accept implements Listener.
func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

// AcceptTCP accepts a connection.
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if vrt.Active() && vrt.Dead() {
		return nil, l.err("accept", ErrClosed)
	}
	vrt.Point(&l.obj, "accept")
	vrt.Block(func() bool {
		return l.closed || len(l.Errs) > 0 || len(l.queue) > 0 || expired(l.dl)
	}, func() int64 {
		if l.dl != 0 {
			return l.dl
		}
		return -1
	})
	vrt.Touch(&l.obj, "accepted")
	l.Accepts++
	switch {
	case l.closed:
		return nil, l.err("accept", ErrClosed)
	case expired(l.dl):
		return nil, l.err("accept", os.ErrDeadlineExceeded)
	case len(l.Errs) > 0:
		e := l.Errs[0]
		l.Errs = l.Errs[1:]
		return nil, l.err("accept", e)
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	vrt.Point(&l.obj, "accept.done")
	return c, nil
}

// Close implements Listener.
func (l *TCPListener) Close() error {
	if vrt.Active() && vrt.Dead() {
		return nil
	}
	vrt.Point(&l.obj, "listener.close")
	if l.closed {
		return l.err("close", ErrClosed)
	}
	l.closed, l.ClosedAt = true, vrt.Now()
	for _, c := range l.queue {
		// never accepted: the kernel resets them
		c.linger0 = true
		c.shut()
	}
	l.queue = nil
	vrt.Point(&l.obj, "listener.closed")
	return nil
}

// Addr implements Listener.
func (l *TCPListener) Addr() Addr { return l.addr }

// SetDeadline bounds Accept.
func (l *TCPListener) SetDeadline(t rtime.Time) error {
	l.dl = dlOf(t)
	return nil
}

// Listen announces on an address.
func Listen(network, address string) (Listener, error) {
	l, err := listen(network, address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(network, address string) (*TCPListener, error) {
	if vrt.Active() && vrt.Dead() {
		return nil, ErrClosed
	}
	vrt.Point(nil, "listen")
	n := TheNet
	if network != "tcp" && network != "tcp4" && network != "tcp6" {
		return nil, &OpError{Op: "listen", Net: network, Err: rnet.UnknownNetworkError(network)}
	}
	p := portOf(address)
	if n == nil || p < 0 {
		return nil, &OpError{Op: "listen", Net: network, Err: &AddrError{Err: "missing port in address", Addr: address}}
	}
	if n.OnListen != nil {
		if err := n.OnListen(address); err != nil {
			return nil, &OpError{Op: "listen", Net: network, Err: err}
		}
	}
	if n.find(p) != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &TCPListener{n: n, port: p, addr: &rnet.TCPAddr{IP: rnet.IPv4(127, 0, 0, 1), Port: p}}
	n.listeners = append(n.listeners, l)
	vrt.Point(&l.obj, "listening")
	return l, nil
}

// ListenTCP listens on a TCP address.
func ListenTCP(network string, laddr *TCPAddr) (*TCPListener, error) {
	return listen(network, laddr.String())
}

// ListenConfig mirrors the original.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       rtime.Duration
	KeepAliveConfig KeepAliveConfig
}

// Listen announces.
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	return Listen(network, address)
}

// Dialer mirrors the original.
type Dialer struct {
	Timeout         rtime.Duration
	Deadline        rtime.Time
	LocalAddr       Addr
	DualStack       bool
	FallbackDelay   rtime.Duration
	KeepAlive       rtime.Duration
	KeepAliveConfig KeepAliveConfig
	Resolver        *Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

// Dial connects.
func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

// DialContext connects.
func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	c, err := d.DialX(ctx, network, address, false, nil)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// Dial connects.
func Dial(network, address string) (Conn, error) { return (&Dialer{}).Dial(network, address) }

// DialTimeout connects.
func DialTimeout(network, address string, t rtime.Duration) (Conn, error) {
	return (&Dialer{Timeout: t}).Dial(network, address)
}

// DialTCP connects.
func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	return (&Dialer{}).DialX(context.Background(), network, raddr.String(), false, nil)
}

// DialX is the common implementation (also used by the tls shim).
func (d *Dialer) DialX(ctx context.Context, network, address string, tls bool, cfg interface{}) (*TCPConn, error) {
	oe := func(e error) error { return &OpError{Op: "dial", Net: network, Err: e} }
	if vrt.Active() && vrt.Dead() {
		return nil, oe(ErrClosed)
	}
	vrt.Point(nil, "dial")
	n := TheNet
	if n == nil {
		return nil, oe(os.NewSyscallError("connect", syscall.ENETUNREACH))
	}
	if network != "tcp" && network != "tcp4" && network != "tcp6" {
		return nil, oe(rnet.UnknownNetworkError(network))
	}
	now := vrt.Now()
	deadline := int64(0)
	if d.Timeout != 0 {
		deadline = now + int64(d.Timeout)
	}
	if !d.Deadline.IsZero() {
		if v := d.Deadline.UnixNano(); deadline == 0 || v < deadline {
			deadline = v
		}
	}
	if t, ok := ctx.Deadline(); ok {
		if v := t.UnixNano(); deadline == 0 || v < deadline {
			deadline = v
		}
	}
	req := &DialReq{N: len(n.Dials) + 1, Network: network, Addr: address, At: now, TLS: tls, TLSCfg: cfg, Timeout: int64(d.Timeout)}
	n.Dials = append(n.Dials, req)
	fail := func(e error) (*TCPConn, error) {
		req.Failed, req.DoneAt = true, vrt.Now()
		return nil, oe(e)
	}
	var plan DialPlan
	if n.OnDial != nil {
		vrt.Atomic(func() { plan = n.OnDial(req) })
	}
	if _, _, err := rnet.SplitHostPort(address); err != nil {
		return fail(err)
	}
	var done <-chan struct{}
	if ctx.Done() != nil {
		done = ctx.Done()
	}
	at := now + int64(plan.Delay)
	cancelled := func() bool { return done != nil && ctxErr(ctx) != nil }
	if plan.Delay > 0 || cancelled() {
		vrt.Block(func() bool {
			return vrt.Now() >= at || deadline != 0 && vrt.Now() >= deadline || cancelled()
		}, func() int64 {
			if deadline != 0 && deadline < at {
				return deadline
			}
			return at
		})
		if cancelled() && (vrt.Now() < at || plan.Delay <= 0) {
			return fail(mapErr(ctxErr(ctx)))
		}
	}
	if deadline != 0 && vrt.Now() >= deadline {
		return fail(timeoutError{})
	}
	if plan.Err != nil {
		return fail(plan.Err)
	}
	var c, s *TCPConn
	if n.OnDial == nil {
		l := n.find(portOf(address))
		if l == nil {
			return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
		}
		c, s = n.pair(address)
		s.Lib = true
		n.Conns = append(n.Conns, s)
		l.queue = append(l.queue, s)
	} else {
		c, s = n.pair(address)
		if plan.Setup != nil {
			vrt.Atomic(func() { plan.Setup(s) })
		}
	}
	c.Lib = true
	c.TLS, c.TLSCfg = tls, cfg
	n.Conns = append(n.Conns, c)
	req.Conn, req.DoneAt = c, vrt.Now()
	vrt.Point(&c.obj, "dialled")
	return c, nil
}

// timeoutError and canceledError are the dial errors of the net package.
type timeoutError struct{}

func (timeoutError) Error() string        { return "i/o timeout" }
func (timeoutError) Timeout() bool        { return true }
func (timeoutError) Temporary() bool      { return true }
func (timeoutError) Is(target error) bool { return target == context.DeadlineExceeded }

type canceledError struct{}

func (canceledError) Error() string        { return "operation was canceled" }
func (canceledError) Is(target error) bool { return target == context.Canceled }

func mapErr(e error) error {
	switch e {
	case context.Canceled:
		return canceledError{}
	case context.DeadlineExceeded:
		return timeoutError{}
	}
	return e
}

// ctxErr peeks at a context without a scheduling point.
func ctxErr(ctx context.Context) (e error) {
	vrt.Atomic(func() { e = ctx.Err() })
	return
}

// Pipe is an in-memory connection pair.
func Pipe() (Conn, Conn) {
	n := TheNet
	if n == nil {
		n = NewNetwork()
	}
	return n.pair("pipe:0")
}

// Refused is the error of a dial nobody listens for.
func Refused() error { return os.NewSyscallError("connect", syscall.ECONNREFUSED) }

// TempErr is a temporary accept error.
func TempErr() error { return os.NewSyscallError("accept", syscall.EMFILE) }
