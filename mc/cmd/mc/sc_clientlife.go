package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"syscall"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	vserial "verifmc/shim/serial"
	"verifmc/vrt"
)

// C18, C19, C20, C21, C22: the life of a client.

// ---- C18 ----

func seedOf(unit byte, pdu []byte) int {
	s := int(unit) * 7
	for i, b := range pdu {
		s = s*31 + int(b) + i
	}
	return 3 + (s&0x7fffffff)%97
}

// ownReply answers a request with data that depend on the whole request.
func ownReply(unit byte, pdu []byte) []byte {
	if p := replyFor(pdu, seedOf(unit, pdu)); p != nil {
		return p
	}
	s := seedOf(unit, pdu)
	return cat([]byte{pdu[0]}, packPat(s, 8*(3+s%9)))
}

// cop is one concurrent operation; do returns the library's own slice.
type cop struct {
	name string
	unit byte
	pdu  []byte
	do   func(c modbus.Client) ([]byte, error)
	want func(g *rig, rsp []byte) []byte
}

func copsFor(k int) []cop {
	u := byte(10 + k)
	a := 0x100*k + 5
	data := func(off int) func(g *rig, rsp []byte) []byte {
		return func(g *rig, rsp []byte) []byte { return rsp[off:] }
	}
	none := func(g *rig, rsp []byte) []byte { return nil }
	w := be(uint16(0x1111*(k+1)), uint16(0x0f0f+k))
	raw := []byte{100, byte(k), 0x55, byte(0x10 + k)}
	wr := pWRegs(a, words(w))
	rw := pRW(a, 2, a+1, words(w))
	return []cop{
		{"ReadHoldingRegistersBytes", u, pRead(3, a, 2+k), func(c modbus.Client) ([]byte, error) {
			return c.ReadHoldingRegistersBytes(u, uint16(a), uint16(2+k))
		}, data(2)},
		{"WriteMultipleRegistersBytes", u, wr, func(c modbus.Client) ([]byte, error) {
			return nil, c.WriteMultipleRegistersBytes(u, uint16(a), 2, w)
		}, none},
		{"SendPdu", u, raw, func(c modbus.Client) ([]byte, error) { return c.SendPdu(u, raw) }, data(0)},
		{"ReadCoils", u, pRead(1, a, 9+k), func(c modbus.Client) ([]byte, error) { return c.ReadCoils(u, uint16(a), uint16(9+k)) }, data(2)},
		{"ReadWriteMultipleRegistersBytes", u, rw, func(c modbus.Client) ([]byte, error) {
			return c.ReadWriteMultipleRegistersBytes(u, uint16(a), 2, uint16(a+1), 2, w)
		}, data(2)},
		{"Send", u, raw, func(c modbus.Client) ([]byte, error) {
			p, err := c.Send(u, modbus.ProtocolDataUnit{FuncCode: raw[0], Data: raw[1:]})
			return p.Data, err
		}, data(1)},
		{"WriteSingleCoil", u, pW1(5, a, 0xff00), func(c modbus.Client) ([]byte, error) { return nil, c.WriteSingleCoil(u, uint16(a), true) }, none},
		{"ReadFIFOQueue", u, pFIFO(a), func(c modbus.Client) ([]byte, error) { return c.ReadFIFOQueue(u, uint16(a)) }, data(5)},
	}
}

// concRig attaches the concurrent-access monitor to a client's device.
func concRig(g *rig, delay rtime.Duration, silent func(e *exch) int) {
	tids := map[[2]interface{}]bool{}
	busy := map[interface{}]int64{}
	g.handle = func(e *exch) {
		if e.bad != "" {
			vrt.Fail("the device received the damaged frame [%s]: %s", hexs(e.raw), e.bad)
		}
		var key interface{} = e.conn
		unread := 0
		if e.conn != nil {
			unread = e.conn.Peer.Unread()
		} else {
			key = e.port
			unread = e.port.Pending()
		}
		if vrt.Now() < busy[key] || unread > 0 {
			vrt.Fail("request [%s] was transmitted while another request was still outstanding", hexs(e.raw))
		}
		if g.t == xTCP {
			k := [2]interface{}{e.conn, e.tid}
			if tids[k] {
				vrt.Fail("transaction id %d is used by two overlapping requests", e.tid)
			}
			tids[k] = true
		}
		s := 0
		if silent != nil {
			s = silent(e)
		}
		f := g.frame(e.tid, e.unit, ownReply(e.unit, e.pdu))
		switch s {
		case 0: // in time
			g.send(e, delay, f)
			busy[key] = vrt.Now() + int64(delay)
		case 1: // never
		case 2: // too late
			g.send(e, g.T+g.T/2, f)
		case 3: // an exception
			g.send(e, delay, g.frame(e.tid, e.unit, []byte{e.pdu[0] | 0x80, 6}))
			busy[key] = vrt.Now() + int64(delay)
		case 4: // cut short, connection lost
			g.send(e, delay, f[:len(f)-2])
			if e.conn != nil {
				e.conn.InjectFIN(delay)
			}
		case 5: // of another unit
			g.send(e, delay, g.frame(e.tid, e.unit+1, ownReply(e.unit, e.pdu)))
			busy[key] = vrt.Now() + int64(delay)
		case 6: // damaged
			if g.t == xTCP {
				f[7] ^= 0x15
			} else {
				f[len(f)/2] ^= 0x15
			}
			g.send(e, delay, f)
			busy[key] = vrt.Now() + int64(delay)
		}
	}
}

type done struct {
	name string
	c    *cop
	b    []byte // the slice returned
	snap []byte
	err  error
}

// concClients runs threads of operations: thr[i] lists (client, op, argument).
func concClients(xs []xport, thr [][][3]int, delay rtime.Duration, silent func(n int) int, closers int) func() {
	return concClientsAfter(nil, xs, thr, delay, silent, closers)
}

// warm is a call made, and failing, before the goroutines start.
type warm struct {
	op   int // of copsFor
	kind int // 0: answered; 1..6: as in concRig; 7: cannot connect; 8: Send of too much; 9: SendPdu of too much
}

// concClientsAfter is concClients after some failed calls on each client.
func concClientsAfter(before []warm, xs []xport, thr [][][3]int, delay rtime.Duration, silent func(n int) int, closers int) func() {
	return func() {
		var gs []*rig
		for i, x := range xs {
			g := newEnvOn(x, gs)
			n := 0
			failing := -1
			sil := func(e *exch) int {
				if failing >= 0 {
					return failing
				}
				if silent == nil {
					return 0
				}
				n++
				return silent(n - 1)
			}
			g.p = g.provider()
			g.c = modbus.NewClient(g.p)
			concRig(g, delay, sil)
			gs = append(gs, g)
			_ = i
			for _, w := range before {
				failing = w.kind
				c := copsFor(4)[w.op]
				var err error
				switch w.kind {
				case 7:
					_ = g.c.Close()
					if g.t == xTCP {
						g.dials = func(*vnet.DialReq) vnet.DialPlan { return vnet.DialPlan{Err: vnet.Refused()} }
					} else {
						g.line.OnOpen = func(int, vserial.Config) error { return errors.New("no such port") }
					}
					_, err = c.do(g.c)
					g.dials = nil
					if g.t != xTCP {
						g.line.OnOpen = nil
					}
				case 8:
					_, err = g.c.Send(3, modbus.ProtocolDataUnit{FuncCode: 9, Data: make([]byte, 600)})
				case 9:
					_, err = g.c.SendPdu(3, make([]byte, 600))
				default:
					_, err = c.do(g.c)
				}
				if (err == nil) != (w.kind == 0) {
					vrt.Fail("%s with fault %d returned %v", c.name, w.kind, err)
				}
				vrt.Sleep(int64(3 * g.T)) // what is late is over
				if g.t != xTCP {
					_ = g.c.Close()
				}
			}
			failing = -1
			g.reqs, g.junk = nil, nil
		}
		var all []*done
		var ths []*vrt.Thread
		faulty := silent != nil || closers > 0
		for i, ops := range thr {
			i, ops := i, ops
			ths = append(ths, vrt.GoNamed(fmt.Sprint("caller", i), func() {
				for _, o := range ops {
					g := gs[o[0]]
					c := copsFor(o[2])[o[1]]
					b, err := c.do(g.c)
					d := &done{fmt.Sprintf("caller %d %s %s(%d)", i, g.t, c.name, o[2]), &c, b, append([]byte{}, b...), err}
					all = append(all, d)
					if err != nil {
						if !faulty {
							vrt.Fail("%s failed: %v", d.name, err)
						}
						continue
					}
					if want := c.want(g, ownReply(c.unit, c.pdu)); !bytes.Equal(b, want) {
						vrt.Fail("%s returned [%s] but the reply to its request carries [%s]", d.name, hexs(b), hexs(want))
					}
				}
			}))
		}
		for k := 0; k < closers; k++ {
			ths = append(ths, vrt.GoNamed("closer", func() {
				_ = gs[0].c.Close()
				_ = gs[0].c.IsConnected()
			}))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		Checked()
		o := ""
		for _, d := range all {
			if !bytes.Equal(d.b, d.snap) {
				vrt.Fail("the result of %s changed after the call returned: [%s], now [%s]", d.name, hexs(d.snap), hexs(d.b))
			}
			o += fmt.Sprint(d.name, d.err, ";")
		}
		n := 0
		for _, g := range gs {
			n += len(g.reqs)
			if len(g.junk) > 0 {
				vrt.Fail("bytes that belong to no request were transmitted: [%s]", hexs(g.junk))
			}
		}
		if !faulty && n != len(all) {
			vrt.Fail("%d calls transmitted %d requests", len(all), n)
		}
		for _, g := range gs {
			if err := g.c.Close(); err != nil {
				vrt.Fail("close: %v", err)
			}
		}
		for _, g := range gs {
			if g.open() != 0 {
				vrt.Fail("a connection is left open after close")
			}
		}
		Outcome(o)
	}
}

// newEnvOn makes further clients share the network or line of the first ones.
func newEnvOn(x xport, gs []*rig) *rig {
	var first *rig
	for _, g := range gs {
		if (g.t == xTCP) == (x == xTCP) {
			first = g
			break
		}
	}
	if first == nil {
		return newEnv(x)
	}
	if x == xTCP {
		// another address on the same network
		n := first.net
		old := n.OnDial
		oldNet := vnet.TheNet
		g := newEnv(x)
		mine := g.net.OnDial
		vnet.TheNet = oldNet
		g.net = n
		g.addr = "10.9.9.9:502"
		n.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
			if r.Addr == g.addr {
				return mine(r)
			}
			return old(r)
		}
		return g
	}
	l := first.line
	old := l.OnWrite
	g := newEnv(x)
	mine := g.line.OnWrite
	vserial.TheLine = l
	g.line = l
	g.dev = "/dev/ttyV8"
	l.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
		if p.Cfg.Address == g.dev {
			return mine(p, b)
		}
		return old(p, b)
	}
	return g
}

func regC18() {
	c := func(name string, q *Q, p int, xs []xport, thr [][][3]int, delay rtime.Duration, silent func(n int) int, closers int) {
		q.Case(Case{Name: name, P: p, Split: true, Body: concClients(xs, thr, delay, silent, closers)})
	}
	reg(Scenario{Prop: "C18", Name: "one-client-pairs", Race: true, Desc: "two goroutines, one client, every pair of calls", Gen: func(q *Q) {
		for _, x := range xports {
			for i := 0; i < 8; i++ {
				for j := i; j < 8; j++ {
					if (q.Race || !q.Thorough) && (i+j)%3 != 0 {
						continue
					}
					c(fmt.Sprintf("%s %s|%s", x, copsFor(0)[i].name, copsFor(1)[j].name), q, 2, []xport{x}, [][][3]int{{{0, i, 0}}, {{0, j, 1}}}, 5*ms, nil, 0)
				}
			}
		}
	}})
	reg(Scenario{Prop: "C18", Name: "one-client-sequences", Race: true, Desc: "two goroutines with two calls each, three with one, on one client", Gen: func(q *Q) {
		for _, x := range xports {
			for k := 0; k < q.N(3, 8); k++ {
				i, j, l, m := k, (k+2)%8, (k*3+1)%8, (k+5)%8
				p := q.N(2, 3)
				if q.Race {
					p = 1
				}
				c(fmt.Sprintf("%s 2x2/%d", x, k), q, p, []xport{x}, [][][3]int{{{0, i, 0}, {0, j, 2}}, {{0, l, 1}, {0, m, 3}}}, 5*ms, nil, 0)
				c(fmt.Sprintf("%s 3x1/%d", x, k), q, p, []xport{x}, [][][3]int{{{0, i, 0}}, {{0, l, 1}}, {{0, m, 2}}}, 0, nil, 0)
			}
		}
	}})
	reg(Scenario{Prop: "C18", Name: "two-clients", Race: true, Desc: "two clients used at once, on the same and on different transports (shared frame pools)", Gen: func(q *Q) {
		for _, xs := range [][]xport{{xTCP, xTCP}, {xRTU, xRTU}, {xASCII, xASCII}, {xTCP, xRTU}, {xTCP, xASCII}, {xRTU, xASCII}} {
			for k := 0; k < q.N(2, 8); k++ {
				i, j, l, m := k, (k+2)%8, (k*3+1)%8, (k+5)%8
				p := q.N(2, 3)
				if q.Race {
					p = 1
				}
				c(fmt.Sprintf("%v one each/%d", xs, k), q, p, xs, [][][3]int{{{0, i, 0}}, {{1, l, 1}}}, 5*ms, nil, 0)
				c(fmt.Sprintf("%v two each/%d", xs, k), q, p, xs, [][][3]int{{{0, i, 0}, {0, j, 2}}, {{1, l, 1}, {1, m, 3}}}, 0, nil, 0)
				c(fmt.Sprintf("%v crossed/%d", xs, k), q, p, xs, [][][3]int{{{0, i, 0}, {1, j, 2}}, {{1, l, 1}, {0, m, 3}}}, 5*ms, nil, 0)
			}
		}
	}})
	reg(Scenario{Prop: "C18", Name: "faults-while-shared", Race: true, Desc: "one exchange unanswered, late, cut short or refused while another goroutine calls; close in between", Gen: func(q *Q) {
		for _, x := range xports {
			for f := 1; f <= 4; f++ {
				for at := 0; at < 2; at++ {
					f, at := f, at
					if x != xTCP && f == 2 {
						continue // a serial line cannot tell a late reply from its own
					}
					sil := func(n int) int {
						if n == at {
							return f
						}
						return 0
					}
					p := q.N(2, 3)
					if q.Race {
						p = 1
					}
					if x == xASCII && f == 4 || x == xRTU && f == 4 {
						continue // nothing ends the frame: the next reply completes it
					}
					c(fmt.Sprintf("%s fault %d at %d", x, f, at), q, p, []xport{x}, [][][3]int{{{0, 0, 0}, {0, 2, 2}}, {{0, 4, 1}}}, 5*ms, sil, 0)
				}
			}
			// after failed calls of every kind, so that what they leave behind
			// (frame buffers, connection, ids) is shared by the next ones
			for kind := 1; kind <= 9; kind++ {
				for _, op := range []int{0, 2} {
					if kind >= 8 && op != 0 {
						continue
					}
					p := q.N(1, 2)
					if q.Race {
						p = 1
					}
					q.Case(Case{Name: fmt.Sprintf("%s after fault %d of call %d", x, kind, op), P: p, Split: true,
						Body: concClientsAfter([]warm{{op, kind}}, []xport{x}, [][][3]int{{{0, 0, 0}}, {{0, 2, 1}}}, 5*ms, nil, 0)})
					q.Case(Case{Name: fmt.Sprintf("%s after faults %d and a good call", x, kind), P: p, Split: true,
						Body: concClientsAfter([]warm{{op, kind}, {5, kind}, {0, 0}}, []xport{x, x}, [][][3]int{{{0, 5, 0}}, {{1, 1, 1}}, {{0, 4, 2}}}, 0, nil, 0)})
				}
			}
			c(fmt.Sprintf("%s close while calling", x), q, 2, []xport{x}, [][][3]int{{{0, 0, 0}, {0, 2, 2}}, {{0, 3, 1}}}, 5*ms, nil, 1)
		}
	}})
}

// ---- C19 ----

var cuts = map[string]bool{"fin": true, "fin-later": true, "rst": true, "silent": true, "vanish": true, "timed-out": true, "unreachable": true, "aborted": true, "broken-pipe": true, "no-buffers": true}

// losses are the other errors a lost connection is reported with.
var losses = []struct {
	name string
	e    syscall.Errno
}{{"timed-out", syscall.ETIMEDOUT}, {"unreachable", syscall.EHOSTUNREACH}, {"aborted", syscall.ECONNABORTED}, {"broken-pipe", syscall.EPIPE}, {"no-buffers", syscall.ENOBUFS}}

type fault struct {
	name string
	k    int
	idle bool // happens before the call
	// for faults in the exchange: what the device does with request e and
	// its complete reply frame f; true if the reply is delivered in full in
	// time
	do func(g *rig, e *exch, f []byte)
}

func c19faults(n int, dense bool) []fault {
	var r []fault
	add := func(name string, k int, do func(g *rig, e *exch, f []byte)) {
		r = append(r, fault{fmt.Sprintf("%s@%d", name, k), k, false, do})
	}
	for k := 0; k <= n; k++ {
		k := k
		if k < n {
			add("fin", k, func(g *rig, e *exch, f []byte) { g.send(e, 0, f[:min(k, len(f))]); e.conn.InjectFIN(0) })
			add("fin-later", k, func(g *rig, e *exch, f []byte) { g.send(e, 0, f[:min(k, len(f))]); e.conn.InjectFIN(g.T / 3) })
			add("rst", k, func(g *rig, e *exch, f []byte) { g.send(e, 0, f[:min(k, len(f))]); e.conn.InjectRST(ms) })
			for i, l := range losses {
				e := l.e
				if i > 0 && k > 0 && k != 7 && k != n-1 {
					continue
				}
				add(l.name, k, func(g *rig, e2 *exch, f []byte) {
					g.send(e2, 0, f[:min(k, len(f))])
					e2.conn.InjectLoss(ms, e)
				})
			}
			add("silent", k, func(g *rig, e *exch, f []byte) { g.send(e, 0, f[:min(k, len(f))]) })
			add("rest-late", k, func(g *rig, e *exch, f []byte) {
				g.send(e, 0, f[:min(k, len(f))])
				g.send(e, g.T+10*ms, f[min(k, len(f)):])
			})
			add("rest-very-late", k, func(g *rig, e *exch, f []byte) {
				g.send(e, 0, f[:min(k, len(f))])
				g.send(e, 2*g.T+10*ms, f[min(k, len(f)):])
			})
			add("vanish", k, func(g *rig, e *exch, f []byte) { g.send(e, 0, f[:min(k, len(f))]); e.conn.Vanish() })
		}
		add("reply-then-fin", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, f); e.conn.InjectFIN(0) })
		add("reply-then-rst", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, f); e.conn.InjectRST(5 * ms) })
	}
	for _, l := range []int{0, 255, 256, 257, 0x0100, 0x7fff, 0x8000, 0xff00, 0xffff} {
		l := l
		add("length", l, func(g *rig, e *exch, f []byte) { g.send(e, 0, cat(f[:4], be(uint16(l)), f[6:])) })
		add("length-alone", l, func(g *rig, e *exch, f []byte) { g.send(e, 0, cat(f[:4], be(uint16(l)), f[6:7])) })
		add("length-then-rest", l, func(g *rig, e *exch, f []byte) {
			g.send(e, 0, cat(f[:4], be(uint16(l)), f[6:7]))
			g.send(e, 20*ms, f[7:])
		})
		add("length-then-frame", l, func(g *rig, e *exch, f []byte) {
			g.send(e, 0, cat(f[:4], be(uint16(l)), f[6:7]))
			g.send(e, 20*ms, f)
		})
		add("length-then-long", l, func(g *rig, e *exch, f []byte) {
			g.send(e, 0, cat(f[:4], be(uint16(l)), f[6:7], bytes.Repeat(f[7:], 60)))
		})
	}
	add("late", n, func(g *rig, e *exch, f []byte) { g.send(e, g.T+10*ms, f) })
	add("late-during-next", n, func(g *rig, e *exch, f []byte) { g.send(e, g.T+g.T/2, f) })
	add("wrong-tid", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, cat([]byte{f[0] ^ 0x80, f[1]}, f[2:])) })
	add("wrong-unit", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, put(f, 6, f[6]^1)) })
	add("wrong-function", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, put(f, 7, f[7]^2)) })
	add("wrong-protocol", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, put(f, 3, 7)) })
	add("exception", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, fTCP(e.tid, e.unit, []byte{f[7] | 0x80, 4})) })
	add("old-reply", n, func(g *rig, e *exch, f []byte) { g.send(e, 0, cat(be(uint16(e.tid-1)), f[2:])) })
	for _, idle := range []string{"idle-fin", "idle-rst", "idle-vanish", "idle-timed-out", "idle-unreachable"} {
		idle := idle
		r = append(r, fault{idle, 0, true, func(g *rig, e *exch, f []byte) {
			if g.lastT == nil || g.lastT.Closed {
				return
			}
			switch idle {
			case "idle-fin":
				g.lastT.InjectFIN(0)
			case "idle-rst":
				g.lastT.InjectRST(0)
			case "idle-vanish":
				g.lastT.Vanish()
			case "idle-timed-out":
				g.lastT.InjectLoss(0, syscall.ETIMEDOUT)
			case "idle-unreachable":
				g.lastT.InjectLoss(0, syscall.EHOSTUNREACH)
			}
		}})
	}
	return r
}

// c19 runs n calls of which some exchanges are faulty; pause between calls.
func c19(cl func(n int) call, faults map[int]fault, dialFaults map[int]vnet.DialPlan, writeStall int, pause rtime.Duration, total int, what string) {
	vrt.Tick()
	g := newEnv(xTCP)
	cur := 0 // the call being made
	served := map[int][]byte{}
	whole := false
	nd := 0
	g.dials = func(r *vnet.DialReq) vnet.DialPlan {
		nd++
		return dialFaults[nd-1]
	}
	if writeStall > 0 {
		first := true
		g.setup = func(peer *vnet.TCPConn) {
			if first {
				first = false
				peer.OnData = nil
				peer.Window = writeStall
			}
		}
	}
	g.handle = func(e *exch) {
		if e.bad != "" {
			return
		}
		p := replyFor(e.pdu, 3+7*e.n)
		served[cur] = p
		f := g.frame(e.tid, e.unit, p)
		if ft, ok := faults[cur]; ok && !ft.idle {
			whole = ft.k >= len(f) // the reply happens to be shorter than the cut
			ft.do(g, e, f)
			return
		}
		g.send(e, 0, f)
	}
	g.p = g.provider()
	g.c = modbus.NewClient(g.p)
	lastBad := -1 // the last faulty call so far
	if writeStall > 0 {
		lastBad = 0
	}
	badDials := len(dialFaults)
	for cur = 0; cur < total; cur++ {
		vrt.Tick()
		ft, bad := faults[cur]
		if bad {
			lastBad = cur
		}
		if bad && ft.idle {
			ft.do(g, nil, nil)
		}
		c := cl(cur)
		v, err := attempt(c.name, func() (interface{}, error) { return c.do(g.c) })
		Checked()
		if err == nil {
			p := served[cur]
			if p == nil {
				vrt.Fail("%s: call %d (%s) reports success although the server saw no request of it", what, cur, c.name)
			}
			if show(v) != show(c.conv(p)) {
				vrt.Fail("%s: call %d (%s) returned %s but the reply to it carries [%s]", what, cur, c.name, show(v), hexs(p))
			}
			if ft, ok := faults[cur]; ok && !ft.idle && ft.name != fmt.Sprintf("reply-then-fin@%d", ft.k) && ft.name != fmt.Sprintf("reply-then-rst@%d", ft.k) && !(whole && cuts[ft.name[:strings.IndexByte(ft.name, '@')]]) && ft.name[:4] != "rest" && ft.name[:4] != "late" {
				vrt.Fail("%s: call %d (%s) reports success (%s) although its exchange failed (%s)", what, cur, c.name, show(v), ft.name)
			}
		}
		if cur >= lastBad+2 && nd > badDials && err != nil {
			vrt.Fail("%s: call %d (%s), the %d. call since the server is healthy again, failed: %v", what, cur, c.name, cur-lastBad, err)
		}
		if pause > 0 {
			vrt.Sleep(int64(pause))
		}
	}
	if k := g.net.OpenLib(); k > 1 {
		vrt.Fail("%s: %d connections are open", what, k)
	}
	_ = g.c.Close()
	if k := g.net.OpenLib(); k > 0 {
		vrt.Fail("%s: %d connections are open after close", what, k)
	}
}

func regC19() {
	kinds := []int{7, 0, 3, 12, 14, 10}
	mk := func(kind int) func(n int) call {
		return func(n int) call { return calls(17, n%2)[kind] }
	}
	reg(Scenario{Prop: "C19", Name: "one-fault", Desc: "one failed exchange of every kind at every byte, at the first, second or third call", Gen: func(q *Q) {
		for _, kind := range kinds {
			cl := mk(kind)
			c0 := cl(0)
			n := 7 + len(c0.rsp)
			q.Seq(c0.name, func() {
				for at := 0; at < 3; at++ {
					for _, ft := range c19faults(n, true) {
						for _, pause := range []rtime.Duration{0, 50 * ms, cliTimeout / 2, 3 * cliTimeout} {
							c19(cl, map[int]fault{at: ft}, nil, 0, pause, at+5, fmt.Sprintf("%s at call %d, pause %v", ft.name, at, pause))
						}
					}
				}
			})
		}
	}})
	reg(Scenario{Prop: "C19", Name: "two-faults", Desc: "two failed exchanges in sequence", Gen: func(q *Q) {
		for i, kind := range kinds {
			if i > 1 && !q.Thorough {
				continue
			}
			cl := mk(kind)
			n := 7 + len(cl(0).rsp)
			all := c19faults(n, true)
			for ai := range all {
				f1 := all[ai]
				if !q.Thorough && f1.k > 0 && f1.k < n && f1.k != 3 && f1.k != 7 && f1.k != 8 && f1.k != n-1 {
					continue
				}
				q.Seq(cl(0).name+" "+f1.name, func() {
					for _, f2 := range all {
						for _, d := range []int{1, 2} {
							for _, pause := range []rtime.Duration{0, 2 * cliTimeout} {
								c19(cl, map[int]fault{0: f1, d: f2}, nil, 0, pause, d+4, fmt.Sprintf("%s then %s at call %d, pause %v", f1.name, f2.name, d, pause))
							}
						}
					}
				})
			}
		}
	}})
	if true {
		reg(Scenario{Prop: "C19", Name: "three-faults", Desc: "three failed exchanges in sequence (selected positions)", Gen: func(q *Q) {
			for i, kind := range kinds {
				if i > 0 && !q.Thorough {
					continue
				}
				cl := mk(kind)
				n := 7 + len(cl(0).rsp)
				var some []fault
				for _, f := range c19faults(n, true) {
					if f.idle || f.k == 0 || f.k == 8 || f.k == n && f.name[0] != 'r' || f.k == 0xffff || f.k == 255 && q.Thorough {
						some = append(some, f)
					}
				}
				for _, f1 := range some {
					f1 := f1
					q.Seq(cl(0).name+" "+f1.name, func() {
						for _, f2 := range some {
							for _, f3 := range some {
								c19(cl, map[int]fault{0: f1, 1: f2, 2: f3}, nil, 0, 0, 6, fmt.Sprintf("%s, %s, %s", f1.name, f2.name, f3.name))
							}
						}
					})
				}
			}
		}})
	}
	reg(Scenario{Prop: "C19", Name: "dial-and-write-failures", Desc: "refused or hanging dials, and a peer that stops taking the request at every byte, mixed with failed exchanges", Gen: func(q *Q) {
		for _, kind := range kinds {
			cl := mk(kind)
			c0 := cl(0)
			n := 7 + len(c0.rsp)
			q.Seq(c0.name, func() {
				ref := vnet.DialPlan{Err: vnet.Refused()}
				hang := vnet.DialPlan{Delay: 100 * cliTimeout}
				slow := vnet.DialPlan{Delay: cliTimeout * 9 / 10}
				for _, d := range []map[int]vnet.DialPlan{{0: ref}, {0: hang}, {0: slow}, {0: ref, 1: ref}, {0: hang, 1: slow}} {
					for _, ft := range c19faults(n, true) {
						c19(cl, map[int]fault{len(d): ft}, d, 0, 0, len(d)+5, fmt.Sprintf("bad dials, then %s", ft.name))
					}
				}
				for _, ft := range c19faults(n, true) {
					// the reconnect after the fault fails once
					c19(cl, map[int]fault{0: ft}, map[int]vnet.DialPlan{0: {}, 1: ref}, 0, 0, 6, fmt.Sprintf("%s, then a refused dial", ft.name))
				}
				for w := 1; w < 7+len(c0.req); w++ {
					for _, pause := range []rtime.Duration{0, 2 * cliTimeout} {
						c19(cl, nil, nil, w, pause, 5, fmt.Sprintf("peer takes only %d bytes of the request", w))
					}
				}
			})
		}
	}})
}

// ---- C20 / C22 ----

type lifeDial int

// life explores operation sequences on one client.
// slim leaves most outcomes of dialling and of the exchange out.
func life(x xport, depth int, slim bool) func() {
	pick := func(full, few []int) int {
		if slim {
			full = few
		}
		return full[vrt.Pick(len(full))]
	}
	return func() {
		g := newEnv(x)
		plan := 0  // outcome of the next dial / open
		xplan := 0 // outcome of the next exchange
		hist := ""
		nd := func() int {
			if x == xTCP {
				return len(g.net.Dials)
			}
			return g.line.Opens
		}
		dialBad := func() bool { return plan != 0 }
		if x == xTCP {
			g.dials = func(r *vnet.DialReq) vnet.DialPlan {
				if r.Addr != cliAddr {
					vrt.Fail("%s: dialled %s instead of %s", hist, r.Addr, cliAddr)
				}
				if g.net.OpenLib() != 0 {
					vrt.Fail("%s: dials while another connection is open", hist)
				}
				switch plan {
				case 1:
					return vnet.DialPlan{Err: vnet.Refused()}
				case 2:
					return vnet.DialPlan{Delay: 10 * g.T}
				}
				return vnet.DialPlan{}
			}
		} else {
			g.line.OnOpen = func(n int, c vserial.Config) error {
				if c != serCfg {
					vrt.Fail("%s: port opened with %+v instead of %+v", hist, c, serCfg)
				}
				if g.open() != 0 {
					vrt.Fail("%s: opens the port while it holds it open", hist)
				}
				if plan != 0 {
					return errors.New("device busy")
				}
				return nil
			}
			old := g.line.OnWrite
			g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
				switch xplan {
				case 3:
					return 0, errors.New("write: input/output error")
				case 4:
					return len(b) / 2, errors.New("write: input/output error")
				}
				return old(p, b)
			}
		}
		g.handle = func(e *exch) {
			f := g.frame(e.tid, e.unit, ownReply(e.unit, e.pdu))
			switch xplan {
			case 0:
				g.send(e, 0, f)
			case 1: // silent
			case 2: // lost half way
				g.send(e, 0, f[:len(f)/2])
				if e.conn != nil {
					e.conn.InjectFIN(0)
				} else {
					e.port.InjectErr(0, errors.New("read: input/output error"))
				}
			case 3:
				if e.conn != nil {
					e.conn.InjectRST(0)
				}
			case 4:
				if e.conn != nil {
					g.send(e, 0, put(f, 4, 0xff))
				}
			case 5: // an exception
				g.send(e, 0, g.frame(e.tid, e.unit, []byte{e.pdu[0] | 0x80, 2}))
			}
		}
		g.p = g.provider()
		g.c = modbus.NewClient(g.p)
		pool := copsFor(1)
		check := func() {
			Checked()
			o := g.open()
			if o > 1 {
				vrt.Fail("%s: %d connections are open", hist, o)
			}
			if c := g.c.IsConnected(); c != (o == 1) {
				vrt.Fail("%s: IsConnected() is %v while %d connections are open", hist, c, o)
			}
		}
		check()
		for i := 0; i < depth; i++ {
			was := g.open()
			n0 := nd()
			op := vrt.Pick(5)
			if op == 4 && (x != xTCP || was == 0) {
				op = 0
			}
			plan, xplan = 0, 0
			if (op == 0 || op == 2) && was == 0 {
				plan = pick([]int{0, 1, 2}, []int{0, 1})
				if x != xTCP && plan == 2 {
					plan = 1
				}
			}
			switch op {
			case 0:
				hist += fmt.Sprintf(" connect/%d", plan)
				err := g.c.Connect()
				switch {
				case was == 1 && (err != nil || nd() != n0):
					vrt.Fail("%s: connecting a connected client gave %v and %d new dials", hist, err, nd()-n0)
				case was == 0 && nd() == n0:
					vrt.Fail("%s: connect did not dial (%v)", hist, err)
				case was == 0 && (err != nil) != dialBad():
					vrt.Fail("%s: connect reports %v", hist, err)
				case err == nil && g.open() != 1:
					vrt.Fail("%s: connect reports success with %d connections open", hist, g.open())
				}
			case 1:
				hist += " close"
				if err := g.c.Close(); err != nil {
					vrt.Fail("%s: close reports %v", hist, err)
				}
				if g.open() != 0 || nd() != n0 {
					vrt.Fail("%s: after close %d connections are open (%d new dials)", hist, g.open(), nd()-n0)
				}
			case 2:
				if plan == 0 {
					xplan = pick([]int{0, 1, 2, 3, 4, 5}, []int{0, 2})
				}
				c := pool[pick([]int{0, 2, 1, 7}, []int{0})]
				hist += fmt.Sprintf(" call/%d/%d", plan, xplan)
				if g.t == xRTU {
					// what an earlier failure left on the line is not this property's
					// concern
					for _, p := range g.line.Ports {
						p.Flush()
					}
				} else if g.t == xASCII {
					for _, p := range g.line.Ports {
						p.Flush()
					}
				}
				b, err := c.do(g.c)
				if was == 0 && nd() == n0 {
					vrt.Fail("%s: the call did not dial", hist)
				}
				if plan != 0 && err == nil {
					vrt.Fail("%s: the call succeeds although dialling fails", hist)
				}
				if was == 0 && plan == 0 && xplan == 0 {
					if want := c.want(g, ownReply(c.unit, c.pdu)); err != nil || !bytes.Equal(b, want) {
						vrt.Fail("%s: the call gives [%s], %v", hist, hexs(b), err)
					}
				}
				if x != xTCP {
					if was == 1 && plan == 0 && xplan == 0 {
						if want := c.want(g, ownReply(c.unit, c.pdu)); err != nil || !bytes.Equal(b, want) || nd() != n0 {
							vrt.Fail("%s: the call gives [%s], %v, with %d new opens", hist, hexs(b), err, nd()-n0)
						}
					}
					if plan == 0 && (xplan == 0 || xplan == 5) && g.open() != 1 {
						vrt.Fail("%s: a completed exchange must keep the port open", hist)
					}
					if plan == 0 && (xplan == 3 || xplan == 4) && (g.open() != 0 || err == nil) {
						vrt.Fail("%s: a failed write must close the port and be reported (%d open, error %v)", hist, g.open(), err)
					}
				}
				if (xplan == 5 || xplan == 0) && err == nil && g.open() != 1 {
					vrt.Fail("%s: a completed exchange leaves %d connections open", hist, g.open())
				}
			case 3:
				d := []rtime.Duration{3 * g.T, 61 * 60 * sec}[pick([]int{0, 1}, []int{1})]
				hist += fmt.Sprintf(" idle %v", d)
				vrt.Sleep(int64(d))
			case 4:
				hist += " lost"
				if pick([]int{0, 1}, []int{0}) == 0 {
					g.lastT.InjectFIN(0)
				} else {
					g.lastT.InjectRST(0)
				}
			}
			check()
		}
		// whatever happened before: close, and it is usable again
		plan, xplan = 0, 0
		if err := g.c.Close(); err != nil {
			vrt.Fail("%s: final close reports %v", hist, err)
		}
		check()
		if g.open() != 0 {
			vrt.Fail("%s: connections left open after close: %d", hist, g.open())
		}
		c := pool[0]
		b, err := c.do(g.c)
		if want := c.want(g, ownReply(c.unit, c.pdu)); err != nil || !bytes.Equal(b, want) {
			vrt.Fail("%s close: the client cannot be used again: [%s], %v", hist, hexs(b), err)
		}
		check()
		_ = g.c.Close()
		if g.open() != 0 {
			vrt.Fail("%s: connections left open after the last close: %d", hist, g.open())
		}
		Outcome(hist)
	}
}

// lifeConc interleaves lifecycle operations.
func lifeConc(x xport, thr [][]string, failDials int) func() {
	return func() {
		g := newEnv(x)
		closes := false
		bad := failDials
		fails := 0
		if x == xTCP {
			g.dials = func(r *vnet.DialReq) vnet.DialPlan {
				if g.net.OpenLib() != 0 {
					vrt.Fail("dials while it holds another open connection")
				}
				if bad > 0 {
					bad--
					fails++
					return vnet.DialPlan{Err: vnet.Refused()}
				}
				return vnet.DialPlan{Delay: ms}
			}
		} else {
			g.line.OnOpen = func(n int, c vserial.Config) error {
				if g.open() != 0 {
					vrt.Fail("opens the port while it holds it open")
				}
				if bad > 0 {
					bad--
					fails++
					return errors.New("device busy")
				}
				return nil
			}
		}
		g.handle = func(e *exch) { g.send(e, ms, g.frame(e.tid, e.unit, ownReply(e.unit, e.pdu))) }
		g.p = g.provider()
		g.c = modbus.NewClient(g.p)
		for _, t := range thr {
			for _, o := range t {
				closes = closes || o == "close"
			}
		}
		errs := 0
		out := ""
		var ths []*vrt.Thread
		for i, ops := range thr {
			i, ops := i, ops
			ths = append(ths, vrt.GoNamed(fmt.Sprint("user", i), func() {
				for _, o := range ops {
					var err error
					switch o {
					case "connect":
						err = g.c.Connect()
					case "close":
						if e := g.c.Close(); e != nil {
							vrt.Fail("close reports %v", e)
						}
					case "is":
						_ = g.c.IsConnected()
					default:
						c := copsFor(i)[0]
						if o == "raw" {
							c = copsFor(i)[2]
						}
						var b []byte
						b, err = c.do(g.c)
						if err == nil && !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
							vrt.Fail("user %d received [%s]", i, hexs(b))
						}
					}
					if err != nil {
						errs++
					}
					out += fmt.Sprint(i, o, err, ";")
				}
			}))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		Checked()
		if !closes && errs != fails {
			vrt.Fail("%d operations failed although %d dials failed and nobody closed", errs, fails)
		}
		if closes && errs < fails {
			vrt.Fail("only %d operations report an error although %d dials failed", errs, fails)
		}
		o := g.open()
		if o > 1 || g.c.IsConnected() != (o == 1) {
			vrt.Fail("in the end %d connections are open and IsConnected() is %v", o, g.c.IsConnected())
		}
		bad = 0
		if err := g.c.Close(); err != nil {
			vrt.Fail("close reports %v", err)
		}
		if g.open() != 0 || g.c.IsConnected() {
			vrt.Fail("%d connections left open after close, IsConnected() is %v", g.open(), g.c.IsConnected())
		}
		if err := g.c.Connect(); err != nil {
			vrt.Fail("connect after close: %v", err)
		}
		c := copsFor(5)[0]
		if b, err := c.do(g.c); err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
			vrt.Fail("call after close and connect gives [%s], %v", hexs(b), err)
		}
		_ = g.c.Close()
		if g.open() != 0 {
			vrt.Fail("%d connections left open after the last close", g.open())
		}
		Outcome(out)
	}
}

func regLife(prop string, xs []xport) {
	reg(Scenario{Prop: prop, Name: "operation-sequences", Desc: "every sequence of connect, close, calls, idle time and connection loss with every outcome of dialling and of the exchange", Gen: func(q *Q) {
		for _, x := range xs {
			d := 4
			q.Case(Case{Name: fmt.Sprintf("%s depth %d", x, d), Split: true, Body: life(x, d, false)})
			d = q.N(6, 8)
			q.Case(Case{Name: fmt.Sprintf("%s depth %d with few outcomes", x, d), Split: true, Body: life(x, d, true)})
		}
	}})
	reg(Scenario{Prop: prop, Name: "concurrent-operations", Race: true, Desc: "two and three users of one client connect, close, ask and call at once", Gen: func(q *Q) {
		ops := []string{"connect", "close", "is", "call", "raw"}
		for _, x := range xs {
			for i, a := range ops {
				for j, b := range ops {
					if j < i {
						continue
					}
					for f := 0; f <= 1; f++ {
						p := q.N(3, 4)
						if q.Race {
							p = 2
						}
						q.Case(Case{Name: fmt.Sprintf("%s %s|%s fail=%d", x, a, b, f), P: p, Split: true, Body: lifeConc(x, [][]string{{a}, {b}}, f)})
						p = q.N(2, 3)
						if q.Race {
							p = 1
						}
						q.Case(Case{Name: fmt.Sprintf("%s %s,call|%s,%s fail=%d", x, a, b, a, f), P: p, Split: true, Body: lifeConc(x, [][]string{{a, "call"}, {b, a}}, f)})
						if f == 0 {
							q.Case(Case{Name: fmt.Sprintf("%s %s|%s|call", x, a, b), P: p, BC: 1, Split: true, Body: lifeConc(x, [][]string{{a}, {b}, {"call"}}, f)})
						}
					}
				}
			}
		}
	}})
}

func regC22extra() {
	reg(Scenario{Prop: "C22", Name: "serial-configurations", Desc: "ports are opened with exactly the configured settings, again after every reopening", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			x := x
			q.Seq(x.String(), func() {
				for _, cfg := range []vserial.Config{
					{Address: "/dev/ttyS0", BaudRate: 9600, DataBits: 7, StopBits: 2, Parity: "O", Timeout: 250 * ms},
					{Address: "COM3", BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: 2 * sec},
					{Address: "/dev/ttyUSB1", BaudRate: 300, DataBits: 8, StopBits: 2, Parity: "E", Timeout: 5 * sec, RS485: vserial.RS485Config{Enabled: true, DelayRtsBeforeSend: 3 * ms, DelayRtsAfterSend: 4 * ms, RtsHighDuringSend: true, RtsHighAfterSend: true, RxDuringTx: true}},
					{},
				} {
					vrt.Tick()
					g := newEnv(x)
					opens := 0
					g.line.OnOpen = func(n int, c vserial.Config) error {
						opens++
						if c != cfg {
							vrt.Fail("port opened with %+v instead of %+v", c, cfg)
						}
						return nil
					}
					g.handle = func(e *exch) { g.reply(e, ownReply(e.unit, e.pdu)) }
					if x == xRTU {
						g.p = modbus.NewRTUClientProvider(modbus.WithTCPTimeout(7*sec), modbus.WithSerialConfig(cfg), modbus.WithTCPTimeout(9*sec))
					} else {
						g.p = modbus.NewASCIIClientProvider(modbus.WithTCPTimeout(7*sec), modbus.WithSerialConfig(cfg), modbus.WithTCPTimeout(9*sec))
					}
					g.c = modbus.NewClient(g.p)
					for k := 1; k <= 3; k++ {
						c := copsFor(k)[0]
						b, err := c.do(g.c)
						Checked()
						if err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
							vrt.Fail("call on a port with %+v gives [%s], %v", cfg, hexs(b), err)
						}
						if opens != k {
							vrt.Fail("the port was opened %d times for %d uses", opens, k)
						}
						_ = g.c.Close()
					}
				}
			})
		}
	}})
	reg(Scenario{Prop: "C20", Name: "close-errors", Desc: "a connection whose close reports an error is not kept: Close, a failing exchange, the idle close and a peer's end leave no connection open, and the next call dials anew", Gen: func(q *Q) {
		for k := 0; k < 4; k++ {
			for n := 1; n <= 3; n++ {
				k, n := k, n
				q.Case(Case{Name: fmt.Sprintf("%s %d", []string{"Close", "failing exchange", "reset", "end of stream"}[k], n), P: 2, E: q.N(1, 2), Body: func() {
					g := newEnv(xTCP)
					g.setup = func(peer *vnet.TCPConn) { peer.Peer.CloseErr = errors.New("close: input/output error") }
					silent := false
					g.handle = func(e *exch) {
						if !silent {
							g.reply(e, ownReply(e.unit, e.pdu))
						}
					}
					g.p = g.provider()
					g.c = modbus.NewClient(g.p)
					c := copsFor(1)[0]
					for i := 0; i < n; i++ {
						if b, err := c.do(g.c); err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
							vrt.Fail("call %d on a connection whose predecessor's close failed gives [%s], %v", i, hexs(b), err)
						}
						Checked()
						if len(g.net.Conns) != i+1 {
							vrt.Fail("%d dials for %d connections", len(g.net.Conns), i+1)
						}
						switch k {
						case 0:
							_ = g.c.Close()
						case 1:
							silent = true
							if _, err := c.do(g.c); err == nil {
								vrt.Fail("a missing reply is not reported")
							}
							silent = false
						case 2:
							g.lastT.Abort()
						case 3:
							_ = g.lastT.Close()
						}
						if k >= 2 {
							if _, err := c.do(g.c); err == nil {
								vrt.Fail("call on a connection the peer ended succeeds")
							}
						}
						if g.open() != 0 || g.c.IsConnected() {
							vrt.Fail("after the connection's end, %d connections are open and IsConnected() is %v", g.open(), g.c.IsConnected())
						}
						_ = g.c.Close()
					}
				}})
			}
		}
	}})
	reg(Scenario{Prop: "C22", Name: "close-errors", Desc: "a port whose close reports an error is not kept", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			x := x
			for k := 0; k < 2; k++ {
				k := k
				q.Seq(fmt.Sprintf("%s %d", x, k), func() {
					g := newEnv(x)
					g.line.OnClose = func(p *vserial.VPort) error { return errors.New("close: input/output error") }
					old := g.line.OnWrite
					fail := false
					g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
						if fail {
							return 0, errors.New("write: input/output error")
						}
						return old(p, b)
					}
					g.handle = func(e *exch) { g.reply(e, ownReply(e.unit, e.pdu)) }
					g.p = g.provider()
					g.c = modbus.NewClient(g.p)
					c := copsFor(1)[0]
					for i := 0; i < 3; i++ {
						if b, err := c.do(g.c); err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
							vrt.Fail("call gives [%s], %v", hexs(b), err)
						}
						Checked()
						if k == 0 {
							_ = g.c.Close()
						} else {
							fail = true
							if _, err := c.do(g.c); err == nil {
								vrt.Fail("a failed write is not reported")
							}
							fail = false
						}
						if g.open() != 0 || g.c.IsConnected() {
							vrt.Fail("after closing, %d ports are open and IsConnected() is %v", g.open(), g.c.IsConnected())
						}
					}
				})
			}
		}
	}})
}

// ---- C21 ----

func timed(g *rig, c *cop, bound rtime.Duration, what string) {
	t0 := vrt.Now()
	_, err := attempt(what, func() (interface{}, error) { return c.do(g.c) })
	d := rtime.Duration(vrt.Now() - t0)
	Checked()
	if d > bound {
		vrt.Fail("%s over %s took %v (time-out %v, bound %v): %v", what, g.t, d, g.T, bound, err)
	}
}

func regC21() {
	Ts := []rtime.Duration{100 * ms, sec, 7 * sec}
	allCops := func() []cop {
		r := copsFor(1)
		raw := fTCP(9, 17, pRead(3, 1, 2))
		return append(r, cop{"SendRawFrame", 17, pRead(3, 1, 2), func(c modbus.Client) ([]byte, error) { return c.SendRawFrame(raw) }, nil})
	}
	reg(Scenario{Prop: "C21", Name: "tcp-peers", Desc: "peers that never answer, stall at every byte, drip bytes at every rate, stop reading at every byte, or take any time to accept", Gen: func(q *Q) {
		for _, T := range Ts {
			for i := range allCops() {
				T, i := T, i
				q.Seq(fmt.Sprintf("time-out %v %s", T, allCops()[i].name), func() {
					c := allCops()[i]
					bound := 5*T + 20*ms
					run := func(what string, dial vnet.DialPlan, setup func(p *vnet.TCPConn), h func(g *rig, e *exch, f []byte)) {
						vrt.Tick()
						g := newEnv(xTCP)
						g.T = T
						g.dials = func(r *vnet.DialReq) vnet.DialPlan { return dial }
						g.setup = setup
						g.handle = func(e *exch) {
							if h != nil {
								h(g, e, g.frame(e.tid, e.unit, ownReply(e.unit, e.pdu)))
							}
						}
						g.p = g.provider()
						g.c = modbus.NewClient(g.p)
						for k := 0; k < 3; k++ {
							timed(g, &c, bound, fmt.Sprintf("%s, call %d with a peer that %s", c.name, k, what))
						}
					}
					run("never answers", vnet.DialPlan{}, nil, nil)
					n := len(fTCP(1, 1, ownReply(c.unit, c.pdu)))
					for k := 0; k <= n; k++ {
						for _, d := range []rtime.Duration{0, T / 2, T * 99 / 100, 101 * T / 100} {
							run(fmt.Sprintf("stalls after %d bytes sent %v late", k, d), vnet.DialPlan{}, nil, func(g *rig, e *exch, f []byte) { g.send(e, d, f[:k]) })
						}
					}
					for _, gap := range []rtime.Duration{T / 1000, T / 100, T / 10, T / 7, T / 3, T / 2, T * 9 / 10, T - 1, T, T + 1, 2 * T} {
						for _, data := range []string{"reply", "zeros", "endless", "length", "big"} {
							run(fmt.Sprintf("drips %s every %v", data, gap), vnet.DialPlan{}, nil, func(g *rig, e *exch, f []byte) {
								switch data {
								case "zeros":
									f = make([]byte, 300)
								case "endless":
									f = bytes.Repeat(f, 40)
								case "length":
									f = cat(f[:4], []byte{0xff, 0xff}, bytes.Repeat(f[6:], 30))
								case "big":
									f = cat(f[:4], []byte{0, 254}, f[6:8], make([]byte, 400))
								}
								for j, b := range f {
									g.send(e, gap*rtime.Duration(j+1), []byte{b})
								}
							})
						}
					}
					for w := 1; w < 8+len(c.pdu); w++ {
						for _, drain := range []rtime.Duration{0, T / 2, T * 9 / 10, T} {
							run(fmt.Sprintf("stops reading after %d bytes (one byte more every %v)", w, drain), vnet.DialPlan{}, func(p *vnet.TCPConn) {
								p.OnData = nil
								p.Window = w
								if drain > 0 {
									for j := 1; j < 40; j++ {
										vrt.AddTimer(vrt.Now()+int64(drain)*int64(j), func() { p.Window++ })
									}
								}
							}, nil)
						}
					}
					for _, d := range []rtime.Duration{T / 2, T - 1, T, T + 1, 3 * T, 1000 * T} {
						run(fmt.Sprintf("accepts only after %v", d), vnet.DialPlan{Delay: d}, nil, nil)
						run(fmt.Sprintf("refuses after %v", d), vnet.DialPlan{Delay: d, Err: vnet.Refused()}, nil, nil)
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C21", Name: "tcp-slow-everywhere", Desc: "the slowest peer allowed at every stage at once", Gen: func(q *Q) {
		for _, T := range Ts {
			T := T
			q.Case(Case{Name: fmt.Sprint(T), Split: true, Body: func() {
				g := newEnv(xTCP)
				g.T = T
				ds := []rtime.Duration{0, T / 2, T - 1, T + 1}
				dd, hd, bd := ds[vrt.Pick(4)], ds[vrt.Pick(4)], ds[vrt.Pick(4)]
				cut := 1 + vrt.Pick(8)
				g.dials = func(r *vnet.DialReq) vnet.DialPlan { return vnet.DialPlan{Delay: dd} }
				g.handle = func(e *exch) {
					f := g.frame(e.tid, e.unit, ownReply(e.unit, e.pdu))
					g.send(e, hd, f[:cut])
					g.send(e, hd+bd, f[cut:])
				}
				g.p = g.provider()
				g.c = modbus.NewClient(g.p)
				c := copsFor(1)[0]
				for k := 0; k < 2; k++ {
					timed(g, &c, 5*T+20*ms, fmt.Sprintf("call with dial %v, header %v, body %v (cut at %d)", dd, hd, bd, cut))
				}
			}})
		}
	}})
	reg(Scenario{Prop: "C21", Name: "serial-silence", Desc: "serial devices that never answer or stall at every byte, for every call and several speeds", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			for _, T := range Ts {
				for _, baud := range []int{300, 1200, 9600, 19200, 38400, 115200} {
					x, T, baud := x, T, baud
					q.Seq(fmt.Sprintf("%s %v %d baud", x, T, baud), func() {
						// 11 bits per character (10 for ASCII), generously rounded up; at
						// least the specification's fixed times above 19200 baud
						char := rtime.Duration(15) * sec / rtime.Duration(baud)
						if char < 750*rtime.Microsecond {
							char = 750 * rtime.Microsecond
						}
						for _, cs := range [][]call{calls(17, 0), calls(17, 2), pduCalls(calls(17, 3))} {
							for _, cl := range cs {
								cl := cl
								req := len(newEnv(x).frame(0, cl.unit, cl.req))
								n := len(newEnv(x).frame(0, cl.unit, cl.rsp))
								for k := 0; k <= n; k++ {
									if k > 8 && k < n-3 && k%16 != 0 {
										continue
									}
									vrt.Tick()
									g := newEnv(x)
									g.T = T
									cfg := serCfg
									cfg.BaudRate, cfg.Timeout = baud, T
									g.handle = func(e *exch) { g.send(e, 0, g.frame(e.tid, e.unit, cl.rsp)[:k]) }
									g.p = g.provider(modbus.WithSerialConfig(cfg))
									g.c = modbus.NewClient(g.p)
									t0 := vrt.Now()
									_, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
									d := rtime.Duration(vrt.Now() - t0)
									Checked()
									// the request and the longest possible reply, both on the wire
									bound := char*rtime.Duration(req+n+8) + 4*T
									if k == 0 {
										bound = char*rtime.Duration(req+n+8) + T + T/10
									}
									if d > bound {
										vrt.Fail("%s over %s at %d baud, time-out %v, against a device silent after %d bytes took %v: %v", cl.name, x, baud, T, k, d, err)
									}
									if k == 0 && err == nil {
										vrt.Fail("%s over %s: success without a reply", cl.name, x)
									}
								}
							}
						}
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C21", Name: "serial-raw-silence", Desc: "raw PDUs with any quantity field against a silent serial device", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			x := x
			q.Seq(x.String(), func() {
				for f := 0; f < 256; f++ {
					for _, qty := range []int{0, 1, 125, 126, 2000, 2001, 0x7fff, 0x8000, 0xffff} {
						vrt.Tick()
						g := newRig(x, nil)
						t0 := vrt.Now()
						req := cat([]byte{byte(f)}, be(1, uint16(qty)))
						_, err := attempt("SendPdu", func() (interface{}, error) { return g.c.SendPdu(17, req) })
						d := rtime.Duration(vrt.Now() - t0)
						Checked()
						// at most 256+513 characters can be on the wire
						if bound := rtime.Duration(800)*900*rtime.Microsecond + g.T; d > bound || err == nil {
							vrt.Fail("SendPdu [%s] over %s to a silent device took %v (time-out %v): %v", hexs(req), x, d, g.T, err)
						}
					}
				}
			})
		}
	}})
}

func init() {
	regC18()
	regC19()
	regLife("C20", []xport{xTCP})
	regC21()
	regLife("C22", []xport{xRTU, xASCII})
	regC22extra()
}
