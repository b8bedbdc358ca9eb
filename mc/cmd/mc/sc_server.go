package main

import (
	"bytes"
	"errors"
	"fmt"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// C10: concurrent connections.

type wireOp struct {
	name string
	pdu  []byte
}

var concOps = []wireOp{
	{"rw", pRW(7, 3, 7, []uint16{0x1111, 0x2222})},
	{"rw2", pRW(7, 3, 8, []uint16{0x3333, 0x4444})},
	{"mask", pMask(8, 0x0ff0, 0x1234)},
	{"mask2", pMask(8, 0xff00, 0x0056)},
	{"write", pWRegs(7, []uint16{0x5555, 0x6666, 0x7777})},
	{"write1", pW1(6, 8, 0x8888)},
	{"read", pRead(3, 7, 3)},
	{"wcoils", pWCoils(5, 9, []byte{0x55, 1})},
	{"wcoils2", pWCoils(6, 8, []byte{0xf0})},
	{"rcoils", pRead(1, 5, 9)},
	{"bad", pRead(3, 9, 9)},
	{"in", pRead(4, 3, 2)},
}

// wireThread issues requests on a connection and records the history.
func wireThread(id int, c *vnet.TCPConn, unit byte, ops []wireOp, pipelined bool, hist *[]*linOp) func() {
	return func() {
		var hs []*linOp
		for i, o := range ops {
			o := o
			hs = append(hs, &linOp{thr: id, name: o.name, apply: func(m *MNode) string { return hexs(m.Exec(o.pdu)) }})
			tid := id*256 + i + 1
			hs[i].call = stamp()
			_, _ = c.Write(fTCP(tid, unit, o.pdu))
			if pipelined && i < len(ops)-1 {
				continue
			}
			k := i
			if pipelined {
				k = 0
			}
			for ; k <= i; k++ {
				f, err := recvFrame(c)
				if err != nil {
					vrt.Fail("client %d lost its connection waiting for the reply to %s: %v", id, ops[k].name, err)
				}
				hs[k].ret = stamp()
				tid := id*256 + k + 1
				if u16(f) != tid || u16(f[2:]) != 0 || f[6] != unit || u16(f[4:]) != len(f)-6 {
					vrt.Fail("client %d: request %d (%s, tid %d) is answered with frame [%s]", id, k, ops[k].name, tid, hexs(f))
				}
				hs[k].got = hexs(f[7:])
				*hist = append(*hist, hs[k])
			}
		}
	}
}

type disturb struct {
	name string
	do   func(sv *server, c *vnet.TCPConn)
}

var disturbs = []disturb{
	{"none", nil},
	{"stall-header", func(sv *server, c *vnet.TCPConn) { _, _ = c.Write([]byte{0, 1, 0}) }},
	{"stall-body", func(sv *server, c *vnet.TCPConn) { _, _ = c.Write(fTCP(1, 1, pW1(6, 8, 0xdead))[:10]) }},
	{"reset-mid", func(sv *server, c *vnet.TCPConn) {
		_, _ = c.Write(fTCP(1, 1, pW1(6, 8, 0xdead))[:10])
		c.Abort()
	}},
	{"fin-mid", func(sv *server, c *vnet.TCPConn) {
		_, _ = c.Write(fTCP(1, 1, pW1(6, 8, 0xdead))[:10])
		_ = c.Close()
	}},
	{"never-reads", func(sv *server, c *vnet.TCPConn) {
		var raw []byte
		for i := 0; i < 4; i++ {
			raw = append(raw, fTCP(i, 1, pRead(3, 7, 3))...)
		}
		_, _ = c.Write(raw)
	}},
	{"bad-length", func(sv *server, c *vnet.TCPConn) { _, _ = c.Write([]byte{0, 1, 0, 0, 1, 44, 1, 3, 0, 0}) }},
}

func concServer(thr [][]wireOp, pipelined bool, d disturb) func() {
	return concServerL(wireLayouts[0], thr, pipelined, d)
}

func concServerL(l Layout, thr [][]wireOp, pipelined bool, d disturb) func() {
	return func() {
		r, m := newReal(1, l), newModel(1, l)
		fill(r, m, 3)
		sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
		var conns []*vnet.TCPConn
		for range thr {
			conns = append(conns, sv.connect())
		}
		var dc *vnet.TCPConn
		if d.do != nil {
			dc = sv.connect()
			if d.name == "never-reads" {
				dc.Window = 20
			}
		}
		vrt.Settle()
		start := vrt.Now()
		var hist []*linOp
		var ths []*vrt.Thread
		if d.do != nil {
			ths = append(ths, vrt.GoNamed("disturber", func() { d.do(sv, dc) }))
		}
		for i := range thr {
			ths = append(ths, vrt.GoNamed(fmt.Sprint("client", i), wireThread(i, conns[i], 1, thr[i], pipelined, &hist)))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		if vrt.Now() != start {
			vrt.Fail("clients had to wait %v for their replies (other client: %s)", rtime.Duration(vrt.Now()-start), d.name)
		}
		vrt.Settle()
		for i, c := range conns {
			if b := c.Take(); len(b) > 0 {
				vrt.Fail("client %d received more than its replies: [%s]", i, hexs(b))
			}
		}
		why := ""
		if s := linearizable(hist, m, func(f *MNode) bool { why = same(r, f); return why == "" }); s != "" {
			vrt.Fail("%s\n  %s", s, why)
		}
		o := ""
		for _, h := range hist {
			o += fmt.Sprint(h.thr, h.got, ";")
		}
		Outcome(o)
		_ = sv.s.Close()
	}
}

// C11: start and close.

type cliPhase struct {
	name string
	do   func(c *vnet.TCPConn)
}

func cliPhases() []cliPhase {
	wr := func(b []byte) func(c *vnet.TCPConn) { return func(c *vnet.TCPConn) { _, _ = c.Write(b) } }
	q := fTCP(3, 1, pW1(6, 8, 0xbeef))
	return []cliPhase{
		{"idle", func(c *vnet.TCPConn) {}},
		{"request", wr(q)},
		{"half-header", wr(q[:4])},
		{"half-body", wr(q[:10])},
		{"pipeline", wr(append(append(append([]byte{}, q...), fTCP(4, 1, pRead(3, 7, 3))...), fTCP(5, 1, pW1(6, 9, 0xcafe))...))},
		{"gone", func(c *vnet.TCPConn) { _, _ = c.Write(q); _ = c.Close() }},
		{"reset", func(c *vnet.TCPConn) { _, _ = c.Write(q); c.Abort() }},
		{"foreign", wr(fTCPpid(3, 5, 1, make([]byte, 9)))},
		{"not-reading", func(c *vnet.TCPConn) {
			c.Window = 8
			_, _ = c.Write(append(append([]byte{}, q...), q...))
		}},
		{"close-error", func(c *vnet.TCPConn) { c.Peer.CloseErr = errors.New("close: input/output error"); _, _ = c.Write(q) }},
		{"drip", func(c *vnet.TCPConn) {
			for _, b := range append(append([]byte{}, q...), q...) {
				_, _ = c.Write([]byte{b})
				vrt.Sleep(int64(wRT() / 5))
			}
		}},
		{"busy", func(c *vnet.TCPConn) { // never lets up until it is cut off
			for end := vrt.Now() + 3*closeBound(); vrt.Now() < end && !c.EOF(); {
				_, _ = c.Write(fTCP(3, 1, pRead(3, 7, 3)))
				vrt.Sleep(int64(wRT() / 4))
				c.Take()
			}
		}},
		{"late", func(c *vnet.TCPConn) { vrt.Sleep(int64(wRT() / 2)); _, _ = c.Write(q) }},
	}
}

func closeBound() int64 { return int64(2*(wRT()+wWT()) + 100*ms) }

// closeCase: clients in some phase, one or two closers, then everything must
// be over.
func closeCase(phs []cliPhase, closers int, settled bool) func() {
	return func() {
		l := wireLayouts[0]
		r, m := newReal(1, l), newModel(1, l)
		fill(r, m, 3)
		sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
		vrt.Settle() // it serves; closing earlier is start-close-race
		var ths []*vrt.Thread
		conns := make([]*vnet.TCPConn, len(phs))
		for i := range phs {
			i := i
			if settled {
				conns[i] = sv.connect()
			}
		}
		if settled {
			vrt.Settle()
		}
		for i := range phs {
			i := i
			ths = append(ths, vrt.GoNamed("client "+phs[i].name, func() {
				if conns[i] == nil {
					c, err := sv.n.Connect(sv.addr)
					if err != nil {
						return
					}
					conns[i] = c
				}
				phs[i].do(conns[i])
			}))
		}
		for k := 0; k < closers; k++ {
			ths = append(ths, vrt.GoNamed("closer", func() {
				t0 := vrt.Now()
				_ = sv.s.Close()
				if d := vrt.Now() - t0; d > closeBound() {
					vrt.Fail("Close took %v with read timeout %dms and write timeout %dms", rtime.Duration(d), tm.RT, tm.WT)
				}
				Checked()
				if n := sv.n.OpenLib(); n > 0 {
					vrt.Fail("Close returned but %d connection(s) are still open", n)
				}
				if x := sv.n.Listener(sv.addr); x != nil && !x.IsClosed() {
					vrt.Fail("Close returned but the listener is open")
				}
				before := snapshot(r)
				for _, c := range conns {
					if c != nil && !c.Closed {
						_, _ = c.Write(fTCP(9, 1, pW1(6, 7, 0x0bad)))
					}
				}
				vrt.Settle()
				vrt.Sleep(int64(wRT()))
				if after := snapshot(r); after != before {
					vrt.Fail("a table changed after Close had returned: %s -> %s", before, after)
				}
			}))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		end := vrt.Now() + int64(sec)
		vrt.Block(func() bool { return sv.ret || vrt.Now() >= end }, func() int64 { return end })
		if !sv.ret {
			vrt.Fail("Close returned but ListenAndServe does not")
		}
		vrt.Settle()
		if n := vrt.Live(true); n > 0 {
			vrt.Fail("goroutines of the server remain after Close: %s", vrt.LiveNames())
		}
		if n := sv.n.OpenLib(); n > 0 {
			vrt.Fail("%d connection(s) still open at the end", n)
		}
		Outcome(snapshot(r))
	}
}

func snapshot(r *modbus.NodeRegister) string {
	cs, cn := r.CoilsAddrParam()
	hs, hn := r.HoldingAddrParam()
	a, _ := r.ReadCoils(cs, cn)
	b, _ := r.ReadHoldings(hs, hn)
	return fmt.Sprintf("%x %x", a, b)
}

func tempCase(errs []error, clients int, fatal bool) func() {
	return func() {
		l := wireLayouts[0]
		r, m := newReal(1, l), newModel(1, l)
		fill(r, m, 3)
		sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
		old := sv.connect()
		vrt.Settle()
		for i := 0; i < clients; i++ {
			for _, e := range errs {
				sv.n.Listener(sv.addr).InjectErr(e)
			}
			c := sv.connect()
			t0 := vrt.Now()
			_, _ = c.Write(fTCP(i, 1, pRead(3, 7, 3)))
			want := fTCP(i, 1, m.Exec(pRead(3, 7, 3)))
			var f []byte
			done := false
			vrt.GoNamed("client", func() { f, _ = recvFrame(c); done = true })
			end := t0 + int64(len(errs)+1)*int64(sec)
			vrt.Block(func() bool { return done || vrt.Now() >= end }, func() int64 { return end })
			Checked()
			if !bytes.Equal(f, want) {
				vrt.Fail("after %d temporary accept failures a new client is answered [%s], want [%s] (server returned: %v %v)", len(errs), hexs(f), hexs(want), sv.ret, sv.err)
			}
			if i == 0 && len(errs) == 1 {
				if g := ask(old, fTCP(7, 1, pRead(3, 7, 3))); !bytes.Equal(g, fTCP(7, 1, m.Exec(pRead(3, 7, 3)))) {
					vrt.Fail("the older connection is answered [%s] after a temporary accept failure", hexs(g))
				}
			}
			_ = c.Close()
			vrt.Tick()
		}
		t0 := vrt.Now()
		_ = sv.s.Close()
		if vrt.Now()-t0 > closeBound() {
			vrt.Fail("Close took %v", rtime.Duration(vrt.Now()-t0))
		}
		end := vrt.Now() + 2*int64(sec)
		vrt.Block(func() bool { return sv.ret || vrt.Now() >= end }, func() int64 { return end })
		vrt.Settle()
		if !sv.ret || vrt.Live(true) > 0 || sv.n.OpenLib() > 0 {
			vrt.Fail("after Close: returned=%v, goroutines %s, open connections %d", sv.ret, vrt.LiveNames(), sv.n.OpenLib())
		}
	}
}

// C12: handlers.

func c12(mk mkWire, what string, q *Q) {
	l := wireLayouts[0]
	type hcall struct {
		n    *modbus.NodeRegister
		data []byte
	}
	pat := func(n, k int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + k)
		}
		return b
	}
	var lens []int
	for i := 0; i <= 252; i++ {
		if q.Thorough || i < 14 || i > 245 || i%31 == 0 {
			lens = append(lens, i)
		}
	}
	for f0 := 0; f0 < 256; f0 += 32 {
		f0 := f0
		q.Case(Case{Name: fmt.Sprintf("%s functions %d..%d", what, f0, f0+31), Fixed: true, Max: 400000, Body: func() {
			w := mk([]byte{1, 14}, []Layout{l, l})
			if f0 == 0 {
				w.reg(0x60, func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{0x42}, nil })
			}
			var calls []hcall
			var ret []byte
			var rerr error
			var boom interface{}
			alias := 0
			c := w.conn()
			_ = c.Close()
			vrt.Settle()
			tid := 100
			h := func(n *modbus.NodeRegister, data []byte) ([]byte, error) {
				calls = append(calls, hcall{n, append([]byte{}, data...)})
				if boom != nil {
					if boom == "nil deref" {
						var p *hcall
						p.data = nil
					}
					panic(boom)
				}
				switch alias {
				case 1:
					return data, nil
				case 2:
					return data[len(data)/2:], nil
				case 3:
					for i := range data {
						data[i] ^= 0x5a
					}
					return data[:len(data)/3], nil
				}
				return ret, rerr
			}
			one := func(fc byte, unit byte, data, want []byte, desc string, optional bool) {
				tid = (tid + 1) & 0xffff
				calls = nil
				got := ask(c, fTCP(tid, unit, append([]byte{fc}, data...)))
				Checked()
				if optional && len(got) == 0 {
					want = nil
				} else if want != nil {
					want = fTCP(tid, unit, want)
				}
				if !bytes.Equal(got, want) {
					vrt.Fail("function %d, %d data bytes, handler %s: reply [%s], want [%s]", fc, len(data), desc, hexs(got), hexs(want))
				}
				if len(calls) != 1 || calls[0].n != w.reals[unit] || !bytes.Equal(calls[0].data, data) {
					s := ""
					for _, k := range calls {
						s += fmt.Sprintf(" (own node %v, data [%s])", k.n == w.reals[unit], hexs(k.data))
					}
					vrt.Fail("function %d, %d data bytes [%s], handler %s: handler calls:%s", fc, len(data), hexs(data), desc, s)
				}
				w.needSame("function %d with a handler", fc)
				if c.EOF() {
					vrt.Fail("function %d, handler %s: the server dropped the connection", fc, desc)
				}
			}
			for fc := f0; fc < f0+32; fc++ {
				fc := byte(fc)
				// registering nil changes nothing
				w.reg(fc, nil)
				c = w.conn()
				vrt.Settle()
				calls = nil
				w.step(c, 1, 1, append([]byte{fc}, be(7, 1)...))
				w.reg(fc, h)
				w.reg(fc, nil)
				for _, n := range lens {
					if fc != 3 && fc != 0x41 && n > 12 && n < 250 && !q.Thorough {
						continue
					}
					vrt.Tick()
					rerr, ret, alias, boom = nil, pat(n, int(fc)), 0, nil
					one(fc, 1, pat(252-n, 3), append([]byte{fc}, ret...), fmt.Sprintf("returning %d bytes", n), false)
					one(fc, 14, pat(n, 5), append([]byte{fc}, ret...), fmt.Sprintf("returning %d bytes", n), false)
					alias = 1
					d := pat(n, 9)
					one(fc, 14, d, append([]byte{fc}, d...), "returning its data", false)
					alias = 2
					one(fc, 1, d, append([]byte{fc}, d[n/2:]...), "returning the tail of its data", false)
					alias = 3
					x := append([]byte{}, d[:n/3]...)
					for i := range x {
						x[i] ^= 0x5a
					}
					one(fc, 1, d, append([]byte{fc}, x...), "returning the changed head of its data", false)
				}
				alias, rerr, boom = 0, nil, nil
				for v := 0; v < 256; v++ { // every first byte of short answers
					if v%16 == 0 {
						vrt.Tick()
					}
					for n := 1; n <= 3; n++ {
						ret = pat(n, v)
						ret[0] = byte(v)
						one(fc, 1, pat(v%4, 3), append([]byte{fc}, ret...), fmt.Sprintf("returning [% x]", ret), false)
					}
				}
				for code := 0; code < 256; code++ {
					if code > 12 && code < 250 && fc != 3 && fc != 0x41 && !q.Thorough {
						continue
					}
					vrt.Tick()
					ret, rerr = nil, &modbus.ExceptionError{ExceptionCode: byte(code)}
					if code%2 == 1 {
						ret = pat(4, 1)
					}
					one(fc, 1, pat(code%5, 3), []byte{fc | 0x80, byte(code)}, fmt.Sprintf("failing with exception %d", code), false)
				}
				for _, e := range []error{errors.New("other"), fmt.Errorf("odd %d", 1), rtErr{}} {
					ret, rerr = nil, e
					one(fc, 1, pat(3, 3), []byte{fc | 0x80, 4}, fmt.Sprintf("failing with %T", e), false)
					ret = pat(3, 3)
					one(fc, 14, pat(0, 3), []byte{fc | 0x80, 4}, fmt.Sprintf("failing with %T", e), false)
				}
				for _, b := range []interface{}{"text", errors.New("err"), 42, "nil deref", rtErr{}, &modbus.ExceptionError{ExceptionCode: 2}} {
					boom, ret, rerr = b, nil, nil
					one(fc, 1, pat(3, 3), []byte{fc | 0x80, 4}, fmt.Sprintf("panicking with %v", b), true)
					boom = nil
					ret = pat(5, 2)
					one(fc, 1, pat(3, 3), append([]byte{fc}, ret...), "after a panic", false)
					nc := c
					if what == "listening" {
						nc = w.conn()
					}
					w.probeAny(nc, f0, fmt.Sprintf("after a panic of the handler of function %d", fc))
					if nc != c {
						_ = nc.Close()
					}
				}
				// not called for units that are not served or frames of others
				calls = nil
				if g := ask(c, append(fTCP(5, 99, []byte{fc, 1}), fTCPpid(5, 9, 1, []byte{fc, 1})...)); len(g) > 0 || len(calls) > 0 {
					vrt.Fail("function %d: a request to an unserved unit reached the handler %d times, reply [%s]", fc, len(calls), hexs(g))
				}
				// replacing the handler
				hit := 0
				w.reg(fc, func(n *modbus.NodeRegister, data []byte) ([]byte, error) { hit++; return []byte{0x77}, nil })
				calls = nil
				if g := ask(c, fTCP(6, 1, []byte{fc, 1, 2})); !bytes.Equal(g, fTCP(6, 1, []byte{fc, 0x77})) || hit != 1 || len(calls) != 0 {
					vrt.Fail("function %d registered again: reply [%s], new handler called %d times, old %d", fc, hexs(g), hit, len(calls))
				}
				_ = c.Close()
				vrt.Settle()
			}
			w.stop()
		}})
	}
}

// probeAny sends a good request of a function that is not being replaced.
func (w *wire) probeAny(c *vnet.TCPConn, f0 int, what string) {
	raw := fTCP(0x700, 14, pMask(8, 0xff00, 0x0077))
	var want []byte
	if f0 == 0 { // all built-in functions are in this block
		raw = fTCP(0x700, 14, []byte{0x60, 1, 2, 3})
		want = fTCP(0x700, 14, []byte{0x60, 0x42})
	} else {
		want, _ = w.expect(raw)
	}
	got := ask(c, raw)
	if !bytes.Equal(got, want) {
		vrt.Fail("%s a good request [%s] is answered [%s], want [%s]", what, hexs(raw), hexs(got), hexs(want))
	}
}

type rtErr struct{}

func (rtErr) Error() string { return "custom" }

func nm(xs []wireOp) string {
	s := ""
	for _, x := range xs {
		s += x.name + " "
	}
	return s
}

func init() {
	reg(Scenario{Prop: "C10", Name: "pairs", Race: true, Desc: "two connections with one request each, every pair of request kinds, all interleavings within the preemption bound; replies linearized against the register model",
		Gen: func(q *Q) {
			for a := range concOps {
				for b := a; b < len(concOps); b++ {
					x, y := concOps[a:a+1], concOps[b:b+1]
					q.Case(Case{Name: nm(x) + "|| " + nm(y), P: q.N(2, 3), BC: 1, Split: q.Thorough, Body: concServer([][]wireOp{x, y}, false, disturbs[0])})
				}
			}
		}})
	reg(Scenario{Prop: "C10", Name: "pairs-aligned", Race: true, Desc: "two connections with one request each on neighbouring values of the same table, on tables with whole aligned bytes, odd starts and the top of the address space",
		Gen: func(q *Q) {
			for _, l := range alignedLayouts {
				var ops []wireOp
				add := func(name string, pdu []byte) { ops = append(ops, wireOp{name, pdu}) }
				for k := 0; k < 3; k++ {
					for _, v := range []int{0, 0xff00} {
						add(fmt.Sprintf("coil%d=%x", k, v), pW1(5, l.cs+k, v))
					}
				}
				add("coils", pWCoils(l.cs+1, 2, packPat(3, 2)))
				add("coils8", pWCoils(l.cs, 8, []byte{0x5a}))
				add("rcoils", pRead(1, l.cs, l.cn))
				nb := len(ops)
				add("reg0", pW1(6, l.hs, 0x1122))
				add("reg1", pW1(6, l.hs+1, 0x3344))
				add("regs", pWRegs(l.hs, []uint16{0x5566, 0x7788}))
				add("mask0", pMask(l.hs, 0xff00, 0x00a5))
				add("mask1", pMask(l.hs+1, 0x00ff, 0x5a00))
				add("rw", pRW(l.hs, 2, l.hs+1, []uint16{0x99aa}))
				add("read", pRead(3, l.hs, l.hn))
				for i := range ops {
					for j := i; j < len(ops); j++ {
						if (i < nb) == (j < nb) {
							q.Case(Case{Name: fmt.Sprint(l, " ", ops[i].name, " || ", ops[j].name), P: q.N(2, 3), BC: 1,
								Body: concServerL(l, [][]wireOp{ops[i : i+1], ops[j : j+1]}, false, disturbs[0])})
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C10", Name: "two-each", Desc: "two connections with two requests each, sequential and pipelined",
		Gen: func(q *Q) {
			sel := []int{0, 2, 4, 6, 7, 9}
			for _, a := range sel {
				for _, b := range sel {
					for _, c := range sel {
						for _, d := range sel {
							if c < a || !q.Thorough && (a*3+b+c+d)%3 != 0 {
								continue
							}
							x, y := []wireOp{concOps[a], concOps[b]}, []wireOp{concOps[c], concOps[d]}
							for _, pl := range []bool{false, true} {
								q.Case(Case{Name: fmt.Sprint(nm(x), "|| ", nm(y), " pipelined ", pl), P: q.N(1, 2), BC: 1, Body: concServer([][]wireOp{x, y}, pl, disturbs[0])})
							}
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C10", Name: "three", Race: true, Desc: "three connections with one request each",
		Gen: func(q *Q) {
			sel := []int{0, 1, 2, 3, 4, 6}
			for _, a := range sel {
				for _, b := range sel {
					for _, c := range sel {
						if a <= b && b <= c {
							q.Case(Case{Name: nm(concOps[a:a+1]) + "|| " + nm(concOps[b:b+1]) + "|| " + nm(concOps[c:c+1]), P: q.N(2, 3) - b2i(q.Race), BC: 1, Split: q.Thorough,
								Body: concServer([][]wireOp{concOps[a : a+1], concOps[b : b+1], concOps[c : c+1]}, false, disturbs[0])})
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C10", Name: "disturbed", Race: true, Desc: "two active connections next to one that stalls, resets, ends mid-request, never reads or sends an impossible length; the others must be served without the clock moving",
		Gen: func(q *Q) {
			for _, d := range disturbs[1:] {
				for _, p := range [][2]int{{0, 6}, {2, 3}, {4, 6}, {7, 9}} {
					x, y := concOps[p[0]:p[0]+1], concOps[p[1]:p[1]+1]
					q.Case(Case{Name: d.name + " next to " + nm(x) + "|| " + nm(y), P: q.N(2, 3), BC: 1, Split: q.Thorough, Body: concServer([][]wireOp{x, y}, false, d)})
				}
			}
		}})

	reg(Scenario{Prop: "C11", Name: "close-vs-clients", Race: true, Desc: "close against clients in every phase (not yet accepted, idle, mid-frame, request in flight, pipelining, gone, not reading, dripping), one and two closers, all interleavings within the bound; everything must be closed when close returns, in bounded time, and nothing may change afterwards",
		Gen: func(q *Q) {
			ph := cliPhases()
			for cl := 1; cl <= 2; cl++ {
				for _, st := range []bool{true, false} {
					q.Case(Case{Name: fmt.Sprint("no client, closers ", cl, " settled=", st), P: q.N(3, 4), BC: 1, Split: q.Thorough, Body: closeCase(nil, cl, st)})
					for i, p := range ph {
						q.Case(Case{Name: fmt.Sprintf("%s settled=%v closers=%d", p.name, st, cl), P: q.N(2, 3), BC: 1, Split: q.Thorough, Body: closeCase([]cliPhase{p}, cl, st)})
						for j := i; j < len(ph) && cl == 1; j++ {
							if q.Race && !q.Thorough && (i+j)%3 != 0 {
								continue
							}
							q.Case(Case{Name: fmt.Sprintf("%s + %s settled=%v closers=%d", p.name, ph[j].name, st, cl), P: q.N(1, 2), BC: 1, Split: q.Thorough, Body: closeCase([]cliPhase{p, ph[j]}, cl, st)})
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C11", Name: "start-close-race", Race: true, Desc: "close before, while and after the server starts, twice and concurrently; a later close must stop it and a new serve call must work",
		Gen: func(q *Q) {
			for _, n := range []int{1, 2} {
				n := n
				q.Case(Case{Name: fmt.Sprintf("%d closers while starting", n), P: q.N(3, 4), BC: 1, Split: true, Body: func() {
					r := newReal(1, wireLayouts[0])
					m := newModel(1, wireLayouts[0])
					sv := &server{s: modbus.NewTCPServer(), n: vnet.NewNetwork(), addr: "127.0.0.1:1502"}
					sv.s.SetReadTimeout(wRT()).SetWriteTimeout(wWT())
					sv.s.AddNodes(r)
					_ = sv.s.Close()
					_ = sv.s.Close()
					sv.th = vrt.GoNamed("serve", func() { sv.err = sv.s.ListenAndServe(sv.addr); sv.ret = true })
					var ths []*vrt.Thread
					for i := 0; i < n; i++ {
						ths = append(ths, vrt.GoNamed("closer", func() { _ = sv.s.Close() }))
					}
					for _, t := range ths {
						vrt.Join(t)
					}
					vrt.Settle()
					if !sv.ret { // closed before it was serving: it serves, and can be closed
						c := sv.connect()
						if g := ask(c, fTCP(1, 1, pRead(3, 7, 1))); !bytes.Equal(g, fTCP(1, 1, m.Exec(pRead(3, 7, 1)))) {
							vrt.Fail("server that was closed before serving answers [%s]", hexs(g))
						}
						_ = c.Close()
						_ = sv.s.Close()
						vrt.Settle()
						Outcome("serving")
					} else {
						Outcome("stopped")
					}
					if !sv.ret || vrt.Live(true) > 0 || sv.n.OpenLib() > 0 || sv.n.Listener(sv.addr) != nil {
						vrt.Fail("after the last close: returned=%v, goroutines %s, open connections %d", sv.ret, vrt.LiveNames(), sv.n.OpenLib())
					}
					_ = sv.s.Close()
					// serve once more
					sv.serve()
					if sv.ret {
						vrt.Fail("serving again after close: %v", sv.err)
					}
					c := sv.connect()
					if g := ask(c, fTCP(1, 1, pRead(3, 7, 1))); !bytes.Equal(g, fTCP(1, 1, m.Exec(pRead(3, 7, 1)))) {
						vrt.Fail("server started again answers [%s]", hexs(g))
					}
					_ = c.Close()
					_ = sv.s.Close()
					vrt.Settle()
					if !sv.ret || vrt.Live(true) > 0 || sv.n.OpenLib() > 0 {
						vrt.Fail("after the second run and close: returned=%v, goroutines %s, open connections %d", sv.ret, vrt.LiveNames(), sv.n.OpenLib())
					}
				}})
			}
			q.Case(Case{Name: "address in use", P: 2, Body: func() {
				r := newReal(1, wireLayouts[0])
				sv := startServer(nil, r)
				s2 := modbus.NewTCPServer()
				if err := s2.ListenAndServe(sv.addr); err == nil {
					vrt.Fail("a second server on the same address does not fail")
				}
				_ = s2.Close()
				_ = sv.s.Close()
			}})
		}})
	reg(Scenario{Prop: "C11", Name: "temporary-accept-failures", Desc: "runs of 1 to 12 temporary accept failures (and up to 1100) before each client, up to 200 times over; clients must still be served within the back-off and close must still stop everything",
		Gen: func(q *Q) {
			for n := 0; n <= q.N(12, 40); n++ {
				var es []error
				for i := 0; i < n; i++ {
					es = append(es, vnet.TempErr())
				}
				for cl := 1; cl <= 3; cl++ {
					q.Seq(fmt.Sprintf("%d failures, %d clients", n, cl), tempCase(es, cl, false))
				}
			}
			for _, k := range [][2]int{{17, 2}, {20, 30}, {33, 2}, {65, 2}, {130, 2}, {300, 2}, {1100, 1}, {2, 200}} {
				var es []error
				for i := 0; i < k[0]; i++ {
					es = append(es, vnet.TempErr())
				}
				q.Seq(fmt.Sprintf("%d failures, %d clients", k[0], k[1]), tempCase(es, k[1], false))
			}
		}})
	reg(Scenario{Prop: "C11", Name: "churn", Desc: "sequences of clients that connect, send nothing / part / a request and leave by end of stream, reset or vanishing; the server goes on, nothing leaks, then close",
		Gen: func(q *Q) {
			depth := q.N(3, 4)
			q.Case(Case{Name: fmt.Sprint("all sequences of ", depth), Fixed: true, Max: 400000, Body: func() {
				l := wireLayouts[0]
				r, m := newReal(1, l), newModel(1, l)
				fill(r, m, 3)
				req := fTCP(3, 1, pRead(3, 7, 3))
				sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
				var rec func(d int, hist string)
				rec = func(d int, hist string) {
					if d == 0 {
						return
					}
					for part := 0; part < 3; part++ {
						for end := 0; end < 3; end++ {
							vrt.Tick()
							h := fmt.Sprint(hist, " ", []string{"nothing", "part", "request"}[part], "/", []string{"close", "reset", "vanish"}[end])
							c := sv.connect()
							if part > 0 {
								_, _ = c.Write(req[:[]int{0, 9, len(req)}[part]])
							}
							vrt.Settle()
							switch end {
							case 0:
								_ = c.Close()
								vrt.Settle()
							case 1:
								c.Abort()
								vrt.Settle()
							case 2:
								c.Vanish()
								vrt.Sleep(int64(wRT() + wWT() + 100*ms))
							}
							if n := sv.n.OpenLib(); n != 0 {
								vrt.Fail("clients%s are all gone but the server holds %d connection(s)", h, n)
							}
							if sv.ret {
								vrt.Fail("the server stopped after clients%s: %v", h, sv.err)
							}
							c = sv.connect()
							if g := ask(c, req); !bytes.Equal(g, fTCP(3, 1, m.Exec(pRead(3, 7, 3)))) {
								vrt.Fail("after clients%s a request is answered [%s]", h, hexs(g))
							}
							_ = c.Close()
							vrt.Settle()
							rec(d-1, h)
						}
					}
				}
				rec(depth, "")
				_ = sv.s.Close()
				vrt.Settle()
				if !sv.ret || vrt.Live(true) > 0 {
					vrt.Fail("after Close: returned=%v, goroutines %s", sv.ret, vrt.LiveNames())
				}
			}})
		}})
	reg(Scenario{Prop: "C12", Name: "handlers", Desc: "every function code x data length x handler outcome (data of every length, aliases of the request, every exception code, other errors, panics, nil registration, replacement): calls, replies and tables compared",
		Gen: func(q *Q) {
			c12(listenWire, "listening", q)
			c12(reverseWire, "reverse", q)
		}})
}
