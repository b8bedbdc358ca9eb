package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	vserial "verifmc/shim/serial"
	"verifmc/vrt"
)

// Large operations, bursts, repeated requests, and the same thing happening
// again and again with nothing else in between.

// ---- C04, C10: large operations are as atomic as small ones ----

func digest(b []byte) string {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return fmt.Sprintf("%x %d bytes", h.Sum64(), len(b))
}

// bulkOps are operations on whole large tables and on single values all over
// them.
func bulkOps(l Layout) []nodeOp {
	var ops []nodeOp
	e := func(err error) string {
		if err != nil {
			return "exc " + fmt.Sprint(isExc(err))
		}
		return "ok"
	}
	mk := func(name string, fam int, run func(r *modbus.NodeRegister) string, apply func(m *MNode) string) {
		ops = append(ops, nodeOp{name, fam, run, apply})
	}
	for fam := 0; fam < 2; fam++ {
		fam, f := fam, &bitAPIs[fam]
		t := f.tab(newModel(0, l))
		for p := 0; p < 2; p++ {
			p := p
			mk(fmt.Sprintf("Write%s(all,p%d)", f.name, p), fam, func(r *modbus.NodeRegister) string {
				return e(f.write(r, uint16(t.start), uint16(t.n), packPat(p, t.n)))
			}, func(m *MNode) string { f.tab(m).writeBits(t.start, t.n, packPat(p, t.n)); return "ok" })
		}
		mk(fmt.Sprintf("Read%s(all)", f.name), fam, func(r *modbus.NodeRegister) string {
			b, err := f.read(r, uint16(t.start), uint16(t.n))
			if err != nil {
				return e(err)
			}
			return digest(b)
		}, func(m *MNode) string { return digest(f.tab(m).readBits(t.start, t.n)) })
	}
	for w := 0; w < 2; w++ {
		f := &wordAPIs[w]
		fam := 2
		if f.tab(&MNode{hold: MTab{n: 1}}).n == 0 {
			fam = 3
		}
		t := f.tab(newModel(0, l))
		mk(fmt.Sprintf("Write%s(all)", f.name), fam, func(r *modbus.NodeRegister) string { return e(f.write(r, uint16(t.start), wordsPat(1, t.n))) },
			func(m *MNode) string { f.tab(m).write(t.start, wordsPat(1, t.n)); return "ok" })
		mk(fmt.Sprintf("Write%sBytes(all)", f.name), fam, func(r *modbus.NodeRegister) string {
			return e(f.writeB(r, uint16(t.start), uint16(t.n), be(wordsPat(5, t.n)...)))
		}, func(m *MNode) string { f.tab(m).write(t.start, wordsPat(5, t.n)); return "ok" })
		mk(fmt.Sprintf("Read%s(all)", f.name), fam, func(r *modbus.NodeRegister) string {
			v, err := f.read(r, uint16(t.start), uint16(t.n))
			if err != nil {
				return e(err)
			}
			return digest(be(v...))
		}, func(m *MNode) string { return digest(be(f.tab(m).read(t.start, t.n)...)) })
		mk(fmt.Sprintf("Read%sBytes(all)", f.name), fam, func(r *modbus.NodeRegister) string {
			v, err := f.readB(r, uint16(t.start), uint16(t.n))
			if err != nil {
				return e(err)
			}
			return digest(v)
		}, func(m *MNode) string { return digest(be(f.tab(m).read(t.start, t.n)...)) })
	}
	return ops
}

func regBulk() {
	reg(Scenario{Prop: "C04", Name: "node-bulk", Race: true, Desc: "pairs of operations on whole tables of 70 to 5000 values, all interleavings, linearizability", Gen: func(q *Q) {
		for _, l := range []Layout{{5, 70, 3, 70, 9, 70, 2, 70}, {5, 530, 3, 530, 9, 150, 2, 150}, {5, 2100, 3, 2100, 9, 300, 2, 300}, {5, 5000, 3, 5000, 9, 1500, 2, 1500}} {
			if q.Race && l.cn != 2100 {
				continue
			}
			ops := bulkOps(l)
			for i := range ops {
				for j := range ops {
					if ops[i].fam == ops[j].fam {
						q.Case(Case{Name: fmt.Sprintf("%v %s || %s", l, ops[i].name, ops[j].name), P: q.N(3, 4), Max: 3000000, Body: concNodeL(l, [][]nodeOp{{ops[i]}, {ops[j]}})})
					}
				}
			}
		}
	}})
	l := Layout{cs: 5, cn: 2100, ds: 3, dn: 2100, is: 9, in: 200, hs: 7, hn: 200}
	ops := []wireOp{
		{"wcoils-all0", pWCoils(5, 1968, packPat(0, 1968))},
		{"wcoils-all1", pWCoils(5, 1968, packPat(1, 1968))},
		{"rcoils-all", pRead(1, 5, 2000)},
		{"wregs-all1", pWRegs(7, wordsPat(1, 123))},
		{"wregs-all5", pWRegs(9, wordsPat(5, 123))},
		{"rregs-all", pRead(3, 7, 125)},
		{"rw-all", pRW(7, 125, 7, wordsPat(6, 121))},
		{"rw-all2", pRW(8, 125, 12, wordsPat(7, 121))},
	}
	reg(Scenario{Prop: "C10", Name: "pairs-bulk", Race: true, Desc: "two connections with one request of the largest size each, every pair, all interleavings within the preemption bound, linearized", Gen: func(q *Q) {
		for i := range ops {
			for j := range ops {
				if (i < 3) != (j < 3) || q.Race && (i+j)%2 > 0 {
					continue
				}
				q.Case(Case{Name: ops[i].name + " || " + ops[j].name, P: q.N(1, 2), BC: 1, Max: 3000000, Body: concServerL(l, [][]wireOp{{ops[i]}, {ops[j]}}, false, disturbs[0])})
			}
		}
	}})
}

// ---- C08, C26: bursts ----

// burst pipelines n frames of all kinds and lengths in segments of seg bytes.
func burst(mk mkWire, n, seg, kind int) func() {
	return func() {
		l := wireLayouts[1]
		w := mk([]byte{1, 14}, []Layout{l, l})
		c := w.conn()
		var raw []byte
		for i := 0; i < n; i++ {
			u := byte(1)
			if i%3 == 1 {
				u = 14
			}
			var f []byte
			switch {
			case kind == 0:
				f = fTCP(i&0xffff, u, pRead(3, 2000+i%200, 1+i%4))
			case kind == 2: // skipped frames only
				f = fTCPpid(i&0xffff, 1+i%9, u, packPat(i, 8*(1+i%40)))
				if i%2 == 0 {
					f = fTCP(i&0xffff, 99, pW1(6, 2000, 0xeeee))
				}
			default:
				switch i % 7 {
				case 0:
					f = fTCP(i&0xffff, u, pWRegs(2000+i%100, wordsPat(3+i, 1+i*11%123)))
				case 1:
					f = fTCP(i&0xffff, u, pWCoils(10+i%9, 1+i*53%1968, packPat(i, 1+i*53%1968)))
				case 2:
					f = fTCP(i&0xffff, u, pRead(1, 10+i%50, 1+i%100))
				case 3:
					f = fTCPpid(i&0xffff, 7, u, packPat(i, 8*(1+i*17%253)))
				case 4:
					f = fTCP(i&0xffff, u, pRW(2000, 1+i%5, 2001, wordsPat(4+i, 1+i*7%121)))
				case 5:
					f = fTCP(i&0xffff, 99, pWRegs(2000, wordsPat(3+i, 1+i*13%123)))
				case 6:
					f = fTCP(i&0xffff, u, []byte{0x44, byte(i)})
				}
			}
			raw = append(raw, f...)
		}
		raw = append(raw, fTCP(0x4321, 1, pRead(4, 1000, 7))...)
		want, _ := w.expect(raw)
		if seg <= 0 {
			seg = len(raw)
		}
		for p := 0; p < len(raw); p += seg {
			e := p + seg
			if e > len(raw) {
				e = len(raw)
			}
			_, _ = c.Write(raw[p:e])
		}
		vrt.Settle()
		got := c.Take()
		Checked()
		if !bytes.Equal(got, want) {
			k := 0
			for k < len(got) && k < len(want) && got[k] == want[k] {
				k++
			}
			vrt.Fail("%d frames (%d bytes) at once in segments of %d: %d bytes come back, want %d, the same up to byte %d", n+1, len(raw), seg, len(got), len(want), k)
		}
		if c.EOF() {
			vrt.Fail("%d frames (%d bytes) at once: the server dropped the connection", n+1, len(raw))
		}
		w.needSame("%d frames at once", n+1)
		w.step(c, 7, 14, pRead(3, 2000, 9))
		w.stop()
	}
}

func regBursts() {
	for _, k := range []struct {
		prop, suf string
		mk        mkWire
	}{{"C08", "", listenWire}, {"C26", "/reverse", reverseWire}} {
		k := k
		reg(Scenario{Prop: k.prop, Name: "bursts" + k.suf, Desc: "40 to 3000 (thorough: 20000) pipelined frames of every kind and length, up to hundreds of kilobytes, at once and in segments of usual sizes; also of nothing but skipped frames", Gen: func(q *Q) {
			for kind := 0; kind < 3; kind++ {
				for _, n := range []int{40, 90, 180, 350, 700, 1400, 3000, 6000, 20000} {
					if n > 3000 && !q.Thorough {
						continue
					}
					for _, seg := range []int{0, 536, 1024, 1460, 4096, 65536} {
						q.Seq(fmt.Sprintf("kind %d, %d frames, segments of %d", kind, n, seg), burst(k.mk, n, seg, kind))
					}
				}
			}
		}})
	}
}

// ---- C06, C07, C08, C26: requests that repeat each other byte for byte ----

func repeats(mk mkWire, depth, pipe int) func() {
	return func() {
		l := wireLayouts[0]
		w := mk([]byte{1, 14}, []Layout{l, l})
		v := uint16(0)
		direct := func(int) {
			v += 0x0101
			r, m := w.reals[1], w.models[1]
			ws := []uint16{v, ^v, v + 3}
			if r.WriteHoldings(7, ws) != nil || r.WriteCoils(5, 9, be(v)) != nil || r.WriteInputs(3, ws[:2]) != nil || r.WriteDiscretes(3, 1, []byte{byte(v & 1)}) != nil {
				vrt.Fail("writing the node's tables fails")
			}
			m.hold.write(7, ws)
			m.in.write(3, ws[:2])
			m.coils.writeBits(5, 9, be(v))
			m.disc.writeBits(3, 1, []byte{byte(v & 1)})
		}
		reqs := [][]byte{
			nil, // the tables change otherwise
			pRead(3, 7, 3),
			pRead(1, 5, 9),
			pW1(6, 8, 0x1234),
			pMask(8, 0xff00, 0x0077),
			pRW(7, 3, 8, []uint16{0x4444, 0x5555}),
			pWCoils(5, 9, []byte{0xa5, 1}),
			pRead(3, 9, 9),
		}
		var seq []int
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(reqs)
		}
		for x := 0; x < total; x++ {
			if x%64 == 0 {
				vrt.Tick()
			}
			seq = seq[:0]
			for y, i := x, 0; i < depth; i++ {
				seq = append(seq, y%len(reqs))
				y /= len(reqs)
			}
			c := w.conn()
			var raw []byte
			for _, k := range seq {
				if reqs[k] == nil {
					direct(k)
					continue
				}
				f := fTCP(0x0505, 1, reqs[k])
				if pipe > 0 {
					raw = append(raw, f...)
					continue
				}
				want, _ := w.expect(f)
				got := ask(c, f)
				Checked()
				if !bytes.Equal(got, want) {
					vrt.Fail("requests %v, all under one transaction id: [%s] is answered [%s], want [%s]", seq, hexs(f), hexs(got), hexs(want))
				}
			}
			if pipe > 0 {
				want, _ := w.expect(raw)
				got := ask(c, raw)
				Checked()
				if !bytes.Equal(got, want) {
					vrt.Fail("requests %v at once, all under one transaction id, are answered [%s], want [%s]", seq, hexs(got), hexs(want))
				}
			}
			w.needSame("requests %v under one transaction id", seq)
			_ = c.Close()
		}
		w.stop()
	}
}

func regRepeats() {
	for _, k := range []struct {
		prop, suf string
		mk        mkWire
		depth     int
	}{{"C06", "", listenWire, 4}, {"C07", "", listenWire, 3}, {"C08", "", listenWire, 4}, {"C26", "/reverse", reverseWire, 3}} {
		k := k
		reg(Scenario{Prop: k.prop, Name: "repeated-requests" + k.suf, Desc: "every sequence of requests that repeat each other byte for byte, transaction id included, while the tables change otherwise in between: each is executed", Gen: func(q *Q) {
			for pipe := 0; pipe < 2; pipe++ {
				q.Case(Case{Name: fmt.Sprint("pipelined ", pipe > 0), Fixed: true, Max: 400000, Body: repeats(k.mk, k.depth+b2i(q.Thorough), pipe)})
			}
		}})
	}
}

// ---- C12: results that are part of something larger, repeated calls ----

func sharedResults(mk mkWire) func() {
	return func() {
		l := wireLayouts[0]
		w := mk([]byte{1, 14}, []Layout{l, l})
		base := make([]byte, 700)
		for i := range base {
			base[i] = byte(i*11 + i/251)
		}
		orig := append([]byte(nil), base...)
		off, n, calls := 0, 0, 0
		var fail error
		w.reg(0x55, func(*modbus.NodeRegister, []byte) ([]byte, error) {
			calls++
			return base[off : off+n], fail
		})
		w.reg(3, func(*modbus.NodeRegister, []byte) ([]byte, error) {
			calls++
			return base[off : off+n], fail
		})
		c := w.conn()
		for _, fc := range []byte{0x55, 3} {
			for _, off = range []int{0, 1, 8, 9, 100, 440} {
				for n = 0; n <= 252; n++ {
					if n > 20 && n%7 > 0 && n < 245 {
						continue
					}
					vrt.Tick()
					for rep := 0; rep < 4; rep++ {
						fail = nil
						tid := 0x0102 + b2i(rep == 3)
						want := fTCP(tid, 1, append([]byte{fc}, orig[off:off+n]...))
						if rep == 2 {
							fail = &modbus.ExceptionError{ExceptionCode: 6}
							want = fTCP(tid, 1, []byte{fc | 0x80, 6})
						}
						calls = 0
						got := ask(c, fTCP(tid, 1, []byte{fc, byte(rep), 2}))
						Checked()
						if !bytes.Equal(got, want) || calls != 1 {
							vrt.Fail("handler of %d returns %d bytes of a larger array, time %d: reply [%s], want [%s], called %d times", fc, n, rep, hexs(got), hexs(want), calls)
						}
						if !bytes.Equal(base, orig) {
							vrt.Fail("the handler of %d returned %d bytes of a larger array: the server changed that array", fc, n)
						}
					}
				}
			}
		}
		// the same request again and again: executed each time
		k := 0
		w.reg(0x56, func(*modbus.NodeRegister, []byte) ([]byte, error) { k++; return []byte{byte(k >> 8), byte(k)}, nil })
		for i := 1; i <= 300; i++ {
			if g := ask(c, fTCP(9, 1, []byte{0x56, 1})); !bytes.Equal(g, fTCP(9, 1, []byte{0x56, byte(i >> 8), byte(i)})) {
				vrt.Fail("the same request for the %dth time: reply [%s], handler called %d times", i, hexs(g), k)
			}
		}
		w.stop()
	}
}

// ---- nothing but the same ----

// onlyWire: the same bad thing n times in a row on one connection (or on n
// connections if the server closes it), then everything is as before.
func onlyWire(mk mkWire, n int, raws [][]byte, reply func(w *wire, raw []byte) []byte, setup func(w *wire)) func() {
	return func() {
		l := wireLayouts[0]
		w := mk([]byte{1, 14}, []Layout{l, l})
		if setup != nil {
			setup(w)
		}
		for _, raw := range raws {
			c := w.conn()
			for i := 0; i < n; i++ {
				if i%16 == 0 {
					vrt.Tick()
				}
				if c.EOF() {
					_ = c.Close()
					c = w.conn()
				}
				want, loose := w.expect(raw)
				if reply != nil {
					want, loose = reply(w, raw), false
				}
				got := ask(c, raw)
				Checked()
				if !bytes.Equal(got, want) && !loose {
					vrt.Fail("[%s] for the %dth time in a row is answered [%s], want [%s] (dropped: %v)", hexs(raw), i+1, hexs(got), hexs(want), c.EOF())
				}
				if !loose && c.EOF() {
					vrt.Fail("[%s] for the %dth time in a row: the server dropped the connection", hexs(raw), i+1)
				}
				if loose && !c.EOF() && i%8 == 7 { // what is left of it must not change what follows
					_ = c.Close()
					c = w.conn()
				}
			}
			w.needSame("%d times [%s]", n, hexs(raw))
			if c.EOF() || reply == nil {
				_ = c.Close()
				c = w.conn()
			}
			w.step(c, 5, 1, pRW(7, 3, 8, []uint16{0x1111, 0x2222}))
			w.step(c, 6, 14, pRead(3, 7, 3))
			_ = c.Close()
			vrt.Settle()
		}
		w.stop()
	}
}

// onlyClient: the same failure n times in a row on one client, then good
// exchanges; bad says how the device behaves.
func onlyClient(x xport, n int, bad string) func() {
	return func() {
		cs := copsFor(1)
		sick := true
		var g *rig
		g = newEnv(x)
		if x == xTCP {
			g.dials = func(r *vnet.DialReq) vnet.DialPlan {
				if sick && bad == "no connection" {
					return vnet.DialPlan{Err: vnet.Refused()}
				}
				return vnet.DialPlan{}
			}
		} else {
			g.line.OnOpen = func(n int, c vserial.Config) error {
				if sick && bad == "no connection" {
					return errors.New("device busy")
				}
				return nil
			}
			old := g.line.OnWrite
			g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
				if sick && bad == "failing write" {
					return 0, errors.New("write: input/output error")
				}
				return old(p, b)
			}
		}
		k := 0
		g.handle = func(e *exch) {
			g.reqs = g.reqs[:0]
			rsp := ownReply(e.unit, e.pdu)
			f := g.frame(e.tid, e.unit, rsp)
			if !sick {
				g.send(e, 0, f)
				return
			}
			switch bad {
			case "silence":
			case "exception":
				g.reply(e, []byte{e.pdu[0] | 0x80, byte(1 + k%11)})
			case "wrong unit":
				g.send(e, 0, g.frame(e.tid, e.unit^3, rsp))
			case "wrong function":
				g.reply(e, put(rsp, 0, rsp[0]^2))
			case "damaged":
				if x == xTCP {
					f[0] ^= 0x40
				} else {
					f[len(f)-3] ^= 1
				}
				g.send(e, 0, f)
			case "cut":
				g.send(e, 0, f[:len(f)-2])
			case "lost":
				if e.conn != nil {
					e.conn.InjectRST(0)
				}
			case "end":
				if e.conn != nil {
					g.send(e, 0, f[:5])
					e.conn.InjectFIN(0)
				}
			case "late":
				g.send(e, g.T+g.T/10, f)
			}
		}
		g.p = g.provider()
		g.c = modbus.NewClient(g.p)
		for k = 0; k < n; k++ {
			vrt.Tick()
			c := &cs[k%4]
			t0 := vrt.Now()
			b, err := c.do(g.c)
			Checked()
			if err == nil {
				vrt.Fail("%s for the %dth time in a row: %s gives [%s]", bad, k+1, c.name, hexs(b))
			}
			want := -1
			if bad == "exception" {
				want = 1 + k%11
			}
			if e := isExc(err); e != want {
				vrt.Fail("%s for the %dth time in a row: %s reports %v", bad, k+1, c.name, err)
			}
			if d := rtime.Duration(vrt.Now() - t0); d > 5*g.T+100*ms {
				vrt.Fail("%s for the %dth time in a row: %s takes %v", bad, k+1, c.name, d)
			}
			if o := g.open(); o > 1 || g.c.IsConnected() != (o == 1) {
				vrt.Fail("%s for the %dth time in a row: %d connections are open and IsConnected() is %v", bad, k+1, o, g.c.IsConnected())
			}
			if x == xTCP {
				g.net.Conns = live(g.net.Conns)
			} else {
				vrt.Sleep(int64(2 * g.T)) // let the line fall silent
				for _, p := range g.line.Ports {
					p.Flush()
					p.Writes = nil
				}
			}
		}
		sick = false
		for i := 0; i < 6; i++ {
			c := &cs[i%len(cs)]
			b, err := c.do(g.c)
			Checked()
			if err != nil && i == 0 && x == xTCP && bad != "exception" {
				continue
			}
			if err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
				vrt.Fail("after %d times %s the %d. call (%s) on a healthy device gives [%s], %v", n, bad, i+1, c.name, hexs(b), err)
			}
		}
		if err := g.c.Close(); err != nil || g.open() != 0 {
			vrt.Fail("close reports %v, %d are open", err, g.open())
		}
	}
}

// staysOpen: n good calls and exceptions in a row use one and the same port.
func staysOpen(x xport, n int) func() {
	return func() {
		cs := copsFor(1)
		k := 0
		g := newEnv(x)
		g.handle = func(e *exch) {
			g.reqs = g.reqs[:0]
			if k%9 == 8 {
				g.reply(e, []byte{e.pdu[0] | 0x80, 2})
				return
			}
			g.reply(e, ownReply(e.unit, e.pdu))
		}
		g.p = g.provider()
		g.c = modbus.NewClient(g.p)
		for k = 0; k < n; k++ {
			vrt.Tick()
			c := &cs[k%8]
			b, err := c.do(g.c)
			Checked()
			if k%9 != 8 && (err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu)))) {
				vrt.Fail("call %d (%s) gives [%s], %v", k+1, c.name, hexs(b), err)
			}
			if len(g.line.Ports) != 1 || g.open() != 1 || !g.c.IsConnected() {
				vrt.Fail("after %d answered calls the port has been opened %d times, %d are open, IsConnected() is %v", k+1, len(g.line.Ports), g.open(), g.c.IsConnected())
			}
			g.line.Ports[0].Writes = nil
		}
	}
}

// onlyRev: one outcome of dialling and serving n times in a row, then a good
// session, then close.
func onlyRev(n int, bad string, closeIt bool) func() {
	return func() {
		vrt.Calm()
		k := 0
		v := newRev(true, func(v *rev) {
			v.plan = func(int) vnet.DialPlan {
				if k < n {
					switch bad {
					case "refused dial":
						return vnet.DialPlan{Err: vnet.Refused()}
					case "hanging dial":
						return vnet.DialPlan{Delay: 5 * tm.CT}
					}
				}
				return vnet.DialPlan{}
			}
			v.onConn = func(int) error {
				if k < n && bad == "refused callback" {
					return errors.New("no")
				}
				return nil
			}
		})
		v.keepAlive(70 * ms)
		v.start()
		for ; k < n; k++ {
			vrt.Tick()
			switch bad {
			case "refused callback":
				c := v.calls
				if !await(2*slack(), func() bool { return v.calls > c }) {
					vrt.Fail("after %d refused connect callbacks in a row the server does not come back", k)
				}
			case "refused dial", "hanging dial":
				c := v.dials
				if !await(2*slack(), func() bool { return v.dials > c }) {
					vrt.Fail("after %d times %s in a row the server does not dial again", k, bad)
				}
			default:
				c := v.accepted
				if !await(2*slack(), func() bool { return v.accepted > c }) {
					vrt.Fail("after %d sessions that ended (%s) no further session", k, bad)
				}
				vrt.Settle()
				if bad == "lost at once" {
					v.peer.Abort()
				} else {
					_ = v.peer.Close()
				}
				if !await(slack(), func() bool { return v.lost == v.accepted }) {
					vrt.Fail("session %d ended but the connection-lost callback does not come", k)
				}
			}
			Checked()
			v.net.Conns = live(v.net.Conns)
		}
		if closeIt {
			_ = v.close()
			v.gone()
			v.plan, v.onConn = nil, nil
			v.start()
		}
		c := v.accepted
		if !await(3*slack(), func() bool { return v.accepted > c }) {
			vrt.Fail("after %d times %s in a row there is no session although nothing is in the way (restarted: %v)", n, bad, closeIt)
		}
		vrt.Settle()
		v.serveOne(1)
		v.finish()
	}
}

func regOnly() {
	evil := func(closing bool) (r [][]byte) {
		if closing {
			return [][]byte{
				{0, 1, 0, 0, 1, 44, 1, 3, 0, 0},
				{0, 1, 0, 0, 0xff, 0xff, 1},
				{0, 1, 0, 0, 0, 0, 1, 3},
				{0, 1, 0, 0, 0, 1, 1},
				{0, 1, 0, 7, 0, 1, 99},
				fRTU(1, pRead(3, 7, 1)),
				[]byte("GET / HTTP/1.1\r\nHost: example.org\r\n\r\n"),
			}
		}
		return [][]byte{
			fTCP(1, 1, []byte{3}), fTCP(1, 1, []byte{6, 0}), fTCP(1, 1, []byte{15, 0, 5, 0, 9, 2}), fTCP(1, 1, []byte{16, 0, 7, 0, 1, 2, 1}),
			fTCP(1, 1, []byte{23, 0, 7, 0, 1, 0, 7, 0, 9, 2, 1, 1}), fTCP(1, 1, []byte{22, 0, 7}), fTCP(1, 1, []byte{0}), fTCP(1, 1, []byte{0xff, 1, 2}),
			fTCP(1, 99, pW1(6, 8, 1)), fTCPpid(1, 3, 1, pW1(6, 8, 1)), fTCP(1, 1, pRead(3, 65535, 125)), fTCP(1, 1, pRW(9, 9, 7, []uint16{1})), fTCP(1, 1, pW1(5, 6, 0x1234)),
		}
	}
	for _, k := range []struct {
		prop, suf string
		mk        mkWire
	}{{"C07", "", listenWire}, {"C08", "", listenWire}, {"C09", "", listenWire}, {"C26", "/reverse", reverseWire}} {
		k := k
		reg(Scenario{Prop: k.prop, Name: "again-and-again" + k.suf, Desc: "one rejected, skipped or broken frame 400 times (thorough: 5000) in a row with nothing else in between, for frames of every kind; answered the same each time and good requests afterwards", Gen: func(q *Q) {
			n := q.N(400, 5000)
			for i, raw := range evil(false) {
				if k.prop == "C08" && (i < 8 || i > 9) {
					continue
				}
				q.Seq(fmt.Sprintf("[%s]", hexs(raw)), onlyWire(k.mk, n, [][]byte{raw}, nil, nil))
			}
			if k.prop == "C09" || k.prop == "C26" {
				for _, raw := range evil(true) {
					q.Seq(fmt.Sprintf("[%s]", hexs(raw)), onlyWire(k.mk, n, [][]byte{raw}, nil, nil))
				}
			}
		}})
	}
	for _, k := range []struct {
		suf string
		mk  mkWire
	}{{"", listenWire}, {"/reverse", reverseWire}} {
		k := k
		reg(Scenario{Prop: "C12", Name: "again-and-again" + k.suf, Desc: "a handler that panics, fails, or fails with an exception 400 times (thorough: 5000) in a row: reported each time, connection and server go on", Gen: func(q *Q) {
			n := q.N(400, 5000)
			for how := 0; how < 4; how++ {
				how := how
				calls := 0
				raw := fTCP(3, 1, []byte{0x55, 1, 2})
				q.Seq([]string{"panics", "fails", "exception", "nil result"}[how], onlyWire(k.mk, n, [][]byte{raw}, func(w *wire, raw []byte) []byte {
					return [][]byte{nil, fTCP(3, 1, []byte{0xd5, 4}), fTCP(3, 1, []byte{0xd5, 6}), fTCP(3, 1, []byte{0x55})}[how]
				}, func(w *wire) {
					calls = 0
					w.reg(0x55, func(*modbus.NodeRegister, []byte) ([]byte, error) {
						calls++
						switch how {
						case 0:
							panic("again")
						case 1:
							return []byte{1}, errors.New("no")
						case 2:
							return nil, &modbus.ExceptionError{ExceptionCode: 6}
						}
						return nil, nil
					})
				}))
			}
		}})
		reg(Scenario{Prop: "C12", Name: "shared-results" + k.suf, Desc: "handlers that return parts of a larger array, of every length and from several places, four times each: sent as they are, the array untouched; and one request 300 times, executed each time", Gen: func(q *Q) {
			q.Seq("shared", sharedResults(k.mk))
		}})
	}
	only := func(prop string, xs []xport, bads ...string) {
		reg(Scenario{Prop: prop, Name: "again-and-again", Desc: "one failure 300 times (thorough: 5000) in a row with nothing else in between: reported each time, and calls succeed once the device is healthy", Gen: func(q *Q) {
			n := q.N(300, 5000)
			for _, x := range xs {
				for _, bad := range bads {
					if x == xTCP && bad == "failing write" || x != xTCP && (bad == "lost" || bad == "end") {
						continue
					}
					q.Seq(fmt.Sprintf("%s, %s", x, bad), onlyClient(x, n, bad))
				}
			}
		}})
	}
	only("C14", xports[:1], "wrong unit", "wrong function", "damaged", "cut")
	only("C15", xports[1:], "wrong unit", "wrong function", "damaged", "cut")
	only("C16", xports, "exception")
	only("C19", xports[:1], "silence", "wrong unit", "wrong function", "damaged", "cut", "lost", "end", "late", "no connection", "exception")
	only("C20", xports[:1], "no connection", "lost", "end", "silence")
	only("C22", xports[1:], "no connection", "failing write", "silence", "exception", "damaged", "late")
	only("C21", xports, "silence", "cut", "no connection", "late")
	reg(Scenario{Prop: "C22", Name: "stays-open", Desc: "1000 answered calls (thorough: 70000) in a row on one client: one port, opened once", Gen: func(q *Q) {
		for _, x := range xports[1:] {
			q.Seq(x.String(), staysOpen(x, q.N(1000, 70000)))
		}
	}})
	for _, prop := range []string{"C24", "C25"} {
		prop := prop
		reg(Scenario{Prop: prop, Name: "again-and-again", Desc: "one outcome of dialling or serving 300 times (thorough: 3000) in a row with nothing else in between, then a session; for C25 with a close and restart before it", Gen: func(q *Q) {
			for _, bad := range []string{"refused dial", "hanging dial", "refused callback", "lost at once", "ended at once"} {
				q.Seq(bad, onlyRev(q.N(300, 3000), bad, prop == "C25"))
			}
		}})
	}
}

// ---- C05: units renamed while they are registered ----

// renamed: a unit is registered under the id it has when it is added.
func renamed(depth int) func() {
	return func() {
		n := make([]*modbus.NodeRegister, 3)
		type st map[byte]int
		ids := []byte{1, 2, 3, 9}
		type op struct {
			name string
			do   func(s *modbus.TCPServer, d st)
		}
		var ops []op
		for i := range n {
			i := i
			ops = append(ops, op{fmt.Sprint("add node ", i), func(s *modbus.TCPServer, d st) { s.AddNodes(n[i]); d[n[i].SlaveID()] = i }})
		}
		for _, k := range [][2]int{{0, 2}, {0, 9}, {0, 1}, {1, 9}} {
			k := k
			ops = append(ops, op{fmt.Sprintf("node %d becomes unit %d", k[0], k[1]), func(s *modbus.TCPServer, d st) { n[k[0]].SetSlaveID(byte(k[1])) }})
		}
		for _, id := range []byte{1, 9} {
			id := id
			ops = append(ops, op{fmt.Sprint("delete ", id), func(s *modbus.TCPServer, d st) { s.DeleteNode(id); delete(d, id) }})
		}
		ops = append(ops, op{"delete all", func(s *modbus.TCPServer, d st) {
			s.DeleteAllNode()
			for k := range d {
				delete(d, k)
			}
		}})
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(ops)
		}
		for x := 0; x < total; x++ {
			if x%64 == 0 {
				vrt.Tick()
			}
			s := modbus.NewTCPServer()
			d := st{}
			for i := range n {
				n[i] = newReal(byte(i+1), Layout{hn: 1})
			}
			s.AddNodes(n[0], n[1])
			d[1], d[2] = 0, 1
			what := ""
			for y, i := x, 0; i < depth; i++ {
				o := &ops[y%len(ops)]
				y /= len(ops)
				o.do(s, d)
				what += o.name + "; "
				Checked()
				for _, id := range ids {
					nd, err := s.GetNode(id)
					w, ok := d[id]
					if ok != (err == nil) || ok && nd != n[w] {
						vrt.Fail("%sunit %d is node %d (%v), want node %d (%v)", what, id, nodeIdx(n, nd), err, w, ok)
					}
				}
				got := st{}
				s.Range(func(id byte, nd *modbus.NodeRegister) bool { got[id] = nodeIdx(n, nd); return true })
				if fmt.Sprint(got) != fmt.Sprint(d) || len(s.GetNodeList()) != len(d) {
					vrt.Fail("%sranging gives %v and listing %d nodes, want %v", what, got, len(s.GetNodeList()), d)
				}
			}
		}
	}
}

func regRenamed() {
	reg(Scenario{Prop: "C05", Name: "renamed-units", Desc: "every sequence of adding, deleting and renaming nodes: a node stays registered under the id it was added with", Gen: func(q *Q) {
		q.Seq("sequences", renamed(q.N(4, 5)))
	}})
	reg(Scenario{Prop: "C05", Name: "renamed-concurrently", Race: true, Desc: "a node is renamed while it is added, looked up, listed, ranged over and asked through a connection, all interleavings", Gen: func(q *Q) {
		for k := 0; k < 5; k++ {
			for known := 0; known < 2; known++ {
				k, known := k, known
				q.Case(Case{Name: fmt.Sprintf("rename || %s, registered before: %v", []string{"add", "look up", "list", "range", "ask"}[k], known > 0), P: q.N(2, 3), BC: 1, Body: func() {
					n := newReal(1, Layout{hn: 2})
					sv := startServer(nil)
					s := sv.s
					if known > 0 {
						s.AddNodes(n)
					}
					c := sv.connect()
					vrt.Settle()
					a := vrt.GoNamed("rename", func() { n.SetSlaveID(9) })
					b := vrt.GoNamed("other", func() {
						switch k {
						case 0:
							s.AddNodes(n)
						case 1:
							m, err := s.GetNode(1)
							if (err == nil) != (known > 0) || err == nil && m != n {
								vrt.Fail("GetNode(1) gives %v", err)
							}
							if err == nil {
								_ = m.SlaveID()
							}
						case 2:
							for _, m := range s.GetNodeList() {
								if id := m.SlaveID(); id != 1 && id != 9 {
									vrt.Fail("unit %d", id)
								}
							}
						case 3:
							s.Range(func(id byte, m *modbus.NodeRegister) bool {
								if m != n || id != 1 {
									vrt.Fail("unit %d", id)
								}
								return m.SlaveID() == 9
							})
						case 4:
							_, _ = c.Write(fTCP(3, 1, pRead(3, 0, 2)))
						}
					})
					vrt.Join(a)
					vrt.Join(b)
					vrt.Settle()
					Checked()
					if k == 4 {
						var want []byte
						if known > 0 {
							want = fTCP(3, 1, []byte{3, 4, 0, 0, 0, 0})
						}
						if g := c.Take(); !bytes.Equal(g, want) {
							vrt.Fail("a unit being renamed is answered [%s], want [%s]", hexs(g), hexs(want))
						}
					}
					got := ""
					s.Range(func(id byte, m *modbus.NodeRegister) bool { got += fmt.Sprint(id, ";"); return true })
					ok := []string{""}
					if known > 0 {
						ok = []string{"1;"}
					}
					if k == 0 {
						ok = []string{"1;", "9;"}
						if known > 0 {
							ok = []string{"1;", "1;9;", "9;1;"}
						}
					}
					found := false
					for _, o := range ok {
						found = found || o == got
					}
					if !found {
						vrt.Fail("units %s are registered", got)
					}
					Outcome(got)
					_ = s.Close()
				}})
			}
		}
	}})
}

func init() {
	regBulk()
	regBursts()
	regRepeats()
	regOnly()
	regRenamed()
}
