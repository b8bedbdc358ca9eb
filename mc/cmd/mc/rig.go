package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	vserial "verifmc/shim/serial"
	"verifmc/vrt"
)

const ms = rtime.Millisecond
const sec = rtime.Second

// ---- listening server ----

type server struct {
	s    *modbus.TCPServer
	n    *vnet.Network
	addr string
	th   *vrt.Thread
	ret  bool
	err  error
}

// startServer serves in a thread of its own and returns once it listens.
func startServer(conf func(s *modbus.TCPServer), nodes ...*modbus.NodeRegister) *server {
	sv := &server{s: modbus.NewTCPServer(), n: vnet.NewNetwork(), addr: "127.0.0.1:1502"}
	if conf != nil {
		conf(sv.s)
	}
	sv.s.AddNodes(nodes...)
	sv.serve()
	return sv
}

func (sv *server) serve() {
	sv.ret, sv.err = false, nil
	sv.th = vrt.GoNamed("serve", func() {
		sv.err = sv.s.ListenAndServe(sv.addr)
		sv.ret = true
	})
	vrt.Block(func() bool { return sv.n.Listener(sv.addr) != nil || sv.ret }, nil)
}

func (sv *server) connect() *vnet.TCPConn {
	c, err := sv.n.Connect(sv.addr)
	if err != nil {
		vrt.Fail("cannot connect to the running server: %v", err)
	}
	return c
}

// ask sends raw bytes in one segment and returns all that comes back without
// the clock moving.
func ask(c *vnet.TCPConn, raw []byte) []byte {
	vrt.Tick()
	_, _ = c.Write(raw)
	vrt.Settle()
	return c.Take()
}

// recvFrame blocks until one whole frame (or the end of the stream) arrives.
func recvFrame(c *vnet.TCPConn) ([]byte, error) {
	h := make([]byte, 7)
	if err := readFull(c, h); err != nil {
		return nil, err
	}
	n := u16(h[4:])
	if n < 1 {
		return h, nil
	}
	b := make([]byte, n-1)
	if err := readFull(c, b); err != nil {
		return nil, err
	}
	return append(h, b...), nil
}

func readFull(c *vnet.TCPConn, b []byte) error {
	for k := 0; k < len(b); {
		n, err := c.Read(b[k:])
		k += n
		if err != nil {
			return err
		}
	}
	return nil
}

// ---- clients on a scripted device ----

type xport int

const (
	xTCP xport = iota
	xRTU
	xASCII
)

var xports = []xport{xTCP, xRTU, xASCII}

func (x xport) String() string { return [...]string{"tcp", "rtu", "ascii"}[x] }

// exch is one request as seen by the device.
type exch struct {
	n    int // request number, from 0
	raw  []byte
	tid  int
	unit byte
	pdu  []byte
	bad  string // why the frame is not a well-formed request frame
	at   rtime.Duration
	conn *vnet.TCPConn
	port *vserial.VPort
}

type rig struct {
	t      xport
	p      modbus.ClientProvider
	c      modbus.Client
	net    *vnet.Network
	line   *vserial.Line
	reqs   []*exch
	junk   []byte // bytes that arrived but form no frame (yet)
	handle func(e *exch)
	dials  func(r *vnet.DialReq) vnet.DialPlan // override for TCP dialling
	setup  func(peer *vnet.TCPConn)            // extra peer configuration
	lastT  *vnet.TCPConn
	lastS  *vserial.VPort
	T      rtime.Duration
	addr   string // other than cliAddr
	dev    string // other than serCfg's
}

const cliTimeout = 1000 * ms

var serCfg = vserial.Config{Address: "/dev/ttyV7", BaudRate: 19200, DataBits: 8, StopBits: 1, Parity: "E", Timeout: cliTimeout}

type rigOpt struct {
	popts []modbus.ClientProviderOption
	copts []modbus.Option
}

const cliAddr = "10.1.2.3:1502"

// newEnv prepares the network and the line without a client.
func newEnv(t xport) *rig {
	g := &rig{t: t, T: cliTimeout}
	if t == xTCP {
		g.net = vnet.NewNetwork()
		g.net.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
			pl := vnet.DialPlan{}
			if g.dials != nil {
				pl = g.dials(r)
			}
			in := pl.Setup
			pl.Setup = func(peer *vnet.TCPConn) {
				g.lastT = peer
				var buf []byte
				peer.OnData = func(c *vnet.TCPConn, b []byte) {
					buf = g.feed(append(buf, b...), c, nil)
					g.junk = buf
				}
				if g.setup != nil {
					g.setup(peer)
				}
				if in != nil {
					in(peer)
				}
			}
			return pl
		}
	} else {
		g.line = &vserial.Line{}
		vserial.TheLine = g.line
		bufs := map[*vserial.VPort][]byte{}
		g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
			g.lastS = p
			bufs[p] = g.feed(append(bufs[p], b...), nil, p)
			g.junk = bufs[p]
			return len(b), nil
		}
	}
	return g
}

func (g *rig) provider(opts ...modbus.ClientProviderOption) modbus.ClientProvider {
	addr, cfg := cliAddr, serCfg
	cfg.Timeout = g.T
	if g.addr != "" {
		addr = g.addr
	}
	if g.dev != "" {
		cfg.Address = g.dev
	}
	switch g.t {
	case xTCP:
		return modbus.NewTCPClientProvider(addr, append([]modbus.ClientProviderOption{modbus.WithTCPTimeout(g.T)}, opts...)...)
	case xRTU:
		return modbus.NewRTUClientProvider(append([]modbus.ClientProviderOption{modbus.WithSerialConfig(cfg)}, opts...)...)
	}
	return modbus.NewASCIIClientProvider(append([]modbus.ClientProviderOption{modbus.WithSerialConfig(cfg)}, opts...)...)
}

// newRig is one client on one device.
func newRig(t xport, handle func(g *rig, e *exch), opts ...modbus.Option) *rig {
	g := newEnv(t)
	g.p = g.provider()
	g.c = modbus.NewClient(g.p, opts...)
	if handle != nil {
		g.handle = func(e *exch) { handle(g, e) }
	}
	return g
}

// feed cuts request frames off the front of buf.
func (g *rig) feed(buf []byte, c *vnet.TCPConn, p *vserial.VPort) []byte {
	for {
		e := &exch{conn: c, port: p, at: rtime.Duration(vrt.Since0())}
		n := 0
		switch g.t {
		case xTCP:
			if len(buf) < 7 || len(buf) < 6+u16(buf[4:]) {
				return buf
			}
			n = 6 + u16(buf[4:])
			e.raw = append([]byte(nil), buf[:n]...)
			e.tid = u16(buf)
			switch {
			case n < 8:
				e.bad = "length field below 2"
			case u16(buf[2:]) != 0:
				e.bad = "protocol id is not 0"
			default:
				e.unit, e.pdu = e.raw[6], e.raw[7:]
			}
		case xRTU:
			// a frame ends where the checksum is right
			for k := 4; k <= len(buf); k++ {
				c := crcRef(buf[:k-2])
				if buf[k-2] == byte(c) && buf[k-1] == byte(c>>8) && k == len(buf) {
					n = k
				}
			}
			if n == 0 {
				return buf
			}
			e.raw = append([]byte(nil), buf[:n]...)
			e.unit, e.pdu = e.raw[0], e.raw[1:n-2]
		case xASCII:
			k := bytes.Index(buf, []byte("\r\n"))
			if k < 0 {
				return buf
			}
			n = k + 2
			e.raw = append([]byte(nil), buf[:n]...)
			b, bad := unASCII(e.raw)
			if bad != "" {
				e.bad = bad
			} else {
				e.unit, e.pdu = b[0], b[1:len(b)-1]
			}
		}
		buf = append([]byte(nil), buf[n:]...)
		e.n = len(g.reqs)
		g.reqs = append(g.reqs, e)
		if g.handle != nil {
			g.handle(e)
		}
	}
}

// unASCII decodes ":hex\r\n" and checks the LRC.
func unASCII(raw []byte) ([]byte, string) {
	if len(raw) < 9 || raw[0] != ':' || len(raw)%2 != 1 || !bytes.HasSuffix(raw, []byte("\r\n")) {
		return nil, "not an ASCII frame"
	}
	var b []byte
	for i := 1; i < len(raw)-2; i += 2 {
		v, err := strconv.ParseUint(string(raw[i:i+2]), 16, 8)
		if err != nil || raw[i] == '+' || raw[i] == '-' {
			return nil, "not hexadecimal"
		}
		b = append(b, byte(v))
	}
	if lrcRef(b[:len(b)-1]) != b[len(b)-1] {
		return nil, "wrong LRC"
	}
	return b, ""
}

// frame is the wire form of a PDU on this transport.
func (g *rig) frame(tid int, unit byte, pdu []byte) []byte {
	switch g.t {
	case xTCP:
		return fTCP(tid, unit, pdu)
	case xRTU:
		return fRTU(unit, pdu)
	}
	return fASCII(unit, pdu)
}

// send makes bytes arrive at the client after d.
func (g *rig) send(e *exch, d rtime.Duration, b []byte) {
	if len(b) == 0 {
		return
	}
	if e.conn != nil {
		e.conn.Inject(d, b)
	} else if e.port != nil {
		e.port.Inject(d, b)
	}
}

// reply answers with a PDU in one chunk.
func (g *rig) reply(e *exch, pdu []byte) { g.send(e, 0, g.frame(e.tid, e.unit, pdu)) }

// open counts what the client holds.
func (g *rig) open() int {
	if g.t == xTCP {
		return g.net.OpenLib()
	}
	k := 0
	for _, p := range g.line.Ports {
		if p.Closed == 0 {
			k++
		}
	}
	return k
}

// ---- typed calls ----

type call struct {
	name string
	unit byte
	req  []byte // the request PDU the specification prescribes
	rsp  []byte // a correct reply PDU
	do   func(c modbus.Client) (interface{}, error)
	conv func(rsp []byte) interface{} // result of a correct reply
	read bool                         // needs the lower address limit

	jd    func(rsp []byte) bool // replaces judge
	loose bool                  // a correct reply may be refused
}

func resBytes(off int) func(rsp []byte) interface{} {
	return func(rsp []byte) interface{} { return append([]byte{}, rsp[off:]...) }
}

func resWords(off int) func(rsp []byte) interface{} {
	return func(rsp []byte) interface{} { return words(rsp[off:]) }
}

func resNone(rsp []byte) interface{} { return nil }

// show renders a call result so that nil and empty slices agree.
func show(v interface{}) string {
	switch b := v.(type) {
	case nil:
		return "-"
	case []byte:
		return fmt.Sprintf("bytes[% x]", b)
	case []uint16:
		return fmt.Sprintf("words%x", b)
	}
	return fmt.Sprint(v)
}

// calls are all 15 client calls; k varies addresses, quantities and values:
// 0 small, 1 other small, 2 the largest legal quantities, 3 the smallest.
func calls(unit byte, k int) []call { return callsWith(unit, parsFor(k)) }

// cpar are the arguments of the calls.
type cpar struct {
	a, nb, nwb, nr, nw, nw2, nf, pat int
	on                               bool
	v1                               int
	and, or                          uint16
}

func parsFor(k int) cpar {
	return cpar{
		a:   [...]int{0x0107, 0x2a01, 0xf00d, 0}[k],
		nb:  [...]int{10, 17, 2000, 1}[k],
		nwb: [...]int{11, 8, 1968, 1}[k],
		nr:  [...]int{2, 3, 125, 1}[k],
		nw:  [...]int{2, 3, 123, 1}[k],
		nw2: [...]int{2, 1, 121, 1}[k],
		nf:  [...]int{2, 3, 31, 0}[k],
		pat: k + 3,
		on:  k%2 == 0,
		v1:  [...]int{0x1234, 0xff00, 0xffff, 0}[k],
		and: [...]uint16{0x00f2, 0xff0f, 0xffff, 0}[k],
		or:  [...]uint16{0x0025, 0x1200, 0xffff, 0}[k],
	}
}

func callsWith(unit byte, c cpar) []call {
	a, nb, nwb, nr, nw, nw2, nf, pat, on, v1, and, or := c.a, c.nb, c.nwb, c.nr, c.nw, c.nw2, c.nf, c.pat, c.on, c.v1, c.and, c.or
	A, Q := uint16(a), func(n int) uint16 { return uint16(n) }
	rb := packPat(pat, nb)
	wb := packPat(pat+1, nwb)
	rr := be(wordsPat(pat, nr)...)
	ww := wordsPat(pat+1, nw)
	w2 := wordsPat(pat+2, nw2)
	ff := be(wordsPat(pat+3, nf)...)
	onv := 0
	if on {
		onv = 0xff00
	}
	rd := func(name string, fc byte, q int, data []byte, conv func([]byte) interface{}, do func(c modbus.Client) (interface{}, error)) call {
		return call{name, unit, pRead(fc, a, q), append([]byte{fc, byte(len(data))}, data...), do, conv, true, nil, false}
	}
	wr := func(name string, req, rsp []byte, do func(c modbus.Client) error) call {
		return call{name, unit, req, rsp, func(c modbus.Client) (interface{}, error) { return nil, do(c) }, resNone, false, nil, false}
	}
	B := func(b []byte, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return append([]byte{}, b...), nil
	}
	W := func(b []uint16, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return append([]uint16{}, b...), nil
	}
	pwc := pWCoils(a, nwb, wb)
	pwr := pWRegs(a, ww)
	prw := pRW(a, nr, a+1, w2)
	return []call{
		rd("ReadCoils", 1, nb, rb, resBytes(2), func(c modbus.Client) (interface{}, error) { return B(c.ReadCoils(unit, A, Q(nb))) }),
		rd("ReadDiscreteInputs", 2, nb, rb, resBytes(2), func(c modbus.Client) (interface{}, error) { return B(c.ReadDiscreteInputs(unit, A, Q(nb))) }),
		wr("WriteSingleCoil", pW1(5, a, onv), pW1(5, a, onv), func(c modbus.Client) error { return c.WriteSingleCoil(unit, A, on) }),
		wr("WriteMultipleCoils", pwc, pwc[:5], func(c modbus.Client) error { return c.WriteMultipleCoils(unit, A, Q(nwb), wb) }),
		rd("ReadInputRegistersBytes", 4, nr, rr, resBytes(2), func(c modbus.Client) (interface{}, error) { return B(c.ReadInputRegistersBytes(unit, A, Q(nr))) }),
		rd("ReadInputRegisters", 4, nr, rr, resWords(2), func(c modbus.Client) (interface{}, error) { return W(c.ReadInputRegisters(unit, A, Q(nr))) }),
		rd("ReadHoldingRegistersBytes", 3, nr, rr, resBytes(2), func(c modbus.Client) (interface{}, error) { return B(c.ReadHoldingRegistersBytes(unit, A, Q(nr))) }),
		rd("ReadHoldingRegisters", 3, nr, rr, resWords(2), func(c modbus.Client) (interface{}, error) { return W(c.ReadHoldingRegisters(unit, A, Q(nr))) }),
		wr("WriteSingleRegister", pW1(6, a, v1), pW1(6, a, v1), func(c modbus.Client) error { return c.WriteSingleRegister(unit, A, uint16(v1)) }),
		wr("WriteMultipleRegistersBytes", pwr, pwr[:5], func(c modbus.Client) error { return c.WriteMultipleRegistersBytes(unit, A, Q(nw), be(ww...)) }),
		wr("WriteMultipleRegisters", pwr, pwr[:5], func(c modbus.Client) error { return c.WriteMultipleRegisters(unit, A, Q(nw), ww) }),
		{"ReadWriteMultipleRegistersBytes", unit, prw, append([]byte{23, byte(2 * nr)}, rr...), func(c modbus.Client) (interface{}, error) {
			return B(c.ReadWriteMultipleRegistersBytes(unit, A, Q(nr), A+1, Q(nw2), be(w2...)))
		}, resBytes(2), true, nil, false},
		{"ReadWriteMultipleRegisters", unit, prw, append([]byte{23, byte(2 * nr)}, rr...), func(c modbus.Client) (interface{}, error) {
			return W(c.ReadWriteMultipleRegisters(unit, A, Q(nr), A+1, Q(nw2), be(w2...)))
		}, resWords(2), true, nil, false},
		wr("MaskWriteRegister", pMask(a, and, or), pMask(a, and, or), func(c modbus.Client) error { return c.MaskWriteRegister(unit, A, and, or) }),
		{"ReadFIFOQueue", unit, pFIFO(a), append(append([]byte{24}, be(uint16(2+len(ff)), uint16(nf))...), ff...), func(c modbus.Client) (interface{}, error) { return B(c.ReadFIFOQueue(unit, A)) }, resBytes(5), true, nil, false},
	}
}

// judge says whether a reply PDU is the correct normal answer to the call.
func (cl *call) judge(rsp []byte) bool {
	if cl.jd != nil {
		return cl.jd(rsp)
	}
	req := cl.req
	if len(rsp) < 2 || rsp[0] != req[0] {
		return false
	}
	d := rsp[1:]
	q := func(i int) int { return u16(req[i:]) }
	switch req[0] {
	case 1, 2:
		n := (q(3) + 7) / 8
		return int(d[0]) == n && len(d) == 1+n
	case 3, 4, 23:
		return int(d[0]) == 2*q(3) && len(d) == 1+2*q(3)
	case 5, 6, 22:
		return bytes.Equal(rsp, req)
	case 15, 16:
		return bytes.Equal(rsp, req[:5])
	case 24:
		if len(d) < 4 || u16(d) != len(d)-2 {
			return false
		}
		n := u16(d[2:])
		return n <= 31 && len(d) == 4+2*n
	}
	return false
}

// isExc returns the code of a device exception, or -1.
func isExc(err error) int {
	if e, ok := err.(*modbus.ExceptionError); ok && e != nil {
		return int(e.ExceptionCode)
	}
	return -1
}

// attempt runs a call and turns a panic into a violation.
func attempt(what string, f func() (interface{}, error)) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			vrt.Fail("%s panicked: %v", what, r)
		}
	}()
	return f()
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("% x... (%d bytes)", b[:80], len(b))
	}
	return strings.TrimSpace(fmt.Sprintf("% x", b))
}

// vnetOnData is a device that sees raw bytes.
func vnetOnData(f func(b []byte, send func([]byte))) func(r *vnet.DialReq) vnet.DialPlan {
	return func(r *vnet.DialReq) vnet.DialPlan {
		return vnet.DialPlan{Setup: func(peer *vnet.TCPConn) {
			peer.OnData = func(c *vnet.TCPConn, b []byte) { f(b, func(o []byte) { c.Inject(0, o) }) }
		}}
	}
}

func lineOnData(f func(b []byte, send func([]byte))) func(p *vserial.VPort, b []byte) (int, error) {
	return func(p *vserial.VPort, b []byte) (int, error) {
		f(b, func(o []byte) { p.Inject(0, o) })
		return len(b), nil
	}
}
