package main

import (
	"bytes"
	"fmt"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// Request streams against a server, listening (C06-C09) or reverse (C26).

type wire struct {
	models map[byte]*MNode
	reals  map[byte]*modbus.NodeRegister
	order  []byte
	conn   func() *vnet.TCPConn // a fresh connection that is being served
	stop   func()
	reg    func(fc byte, h modbus.FunctionHandler)
	RT     int // read timeout in ms
}

// nodesFor builds the nodes of a wire.
func (w *wire) nodesFor(ids []byte, ls []Layout) []*modbus.NodeRegister {
	w.models, w.reals = map[byte]*MNode{}, map[byte]*modbus.NodeRegister{}
	var l []*modbus.NodeRegister
	for i, id := range ids {
		w.models[id] = newModel(id, ls[i])
		w.reals[id] = newReal(id, ls[i])
		fill(w.reals[id], w.models[id], 3+i)
		w.order = append(w.order, id)
		l = append(l, w.reals[id])
	}
	return l
}

func listenWire(ids []byte, ls []Layout) *wire {
	w := &wire{RT: tm.RT}
	nodes := w.nodesFor(ids, ls)
	sv := startServer(func(s *modbus.TCPServer) {
		s.SetReadTimeout(wRT())
		s.SetWriteTimeout(wWT())
	}, nodes...)
	w.conn = sv.connect
	w.stop = func() { _ = sv.s.Close() }
	w.reg = func(fc byte, h modbus.FunctionHandler) { sv.s.RegisterFunctionHandler(fc, h) }
	return w
}

// reverseWire is the same on a connection the reverse server dials; asking for
// a fresh connection drops the current one and waits for the next dial.
func reverseWire(ids []byte, ls []Layout) *wire {
	w := &wire{RT: tm.RT}
	nodes := w.nodesFor(ids, ls)
	n := vnet.NewNetwork()
	var peer *vnet.TCPConn
	n.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
		return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peer = p }}
	}
	s := modbus.NewTCPServerSpecial()
	s.SetReadTimeout(wRT()).SetWriteTimeout(wWT()).SetReconnectInterval(300 * ms)
	s.AddNodes(nodes...)
	w.reg = func(fc byte, h modbus.FunctionHandler) { s.RegisterFunctionHandler(fc, h) }
	if err := s.AddRemoteServer("10.0.0.9:1502"); err != nil {
		vrt.Fail("AddRemoteServer: %v", err)
	}
	if err := s.Start(); err != nil {
		vrt.Fail("Start: %v", err)
	}
	w.conn = func() *vnet.TCPConn {
		if peer != nil {
			_ = peer.Close()
			peer = nil
		}
		vrt.Tick()
		end := vrt.Now() + int64(10*sec)
		vrt.Block(func() bool { return peer != nil || vrt.Now() >= end }, func() int64 { return end })
		if peer == nil {
			vrt.Fail("the reverse server did not dial within 10s")
		}
		vrt.Settle()
		return peer
	}
	w.stop = func() {
		_ = s.Close()
		if peer != nil {
			_ = peer.Close()
		}
	}
	return w
}

type mkWire func(ids []byte, ls []Layout) *wire

// expect interprets a byte stream on the models. loose: from some point on the
// stream is not framed any more and nothing is said about the rest.
func (w *wire) expect(raw []byte) (out []byte, loose bool) {
	for len(raw) >= 7 {
		l := u16(raw[4:])
		if l < 2 || l > 254 {
			return out, true
		}
		if len(raw) < 6+l {
			return out, false
		}
		f := raw[:6+l]
		raw = raw[6+l:]
		if u16(f[2:]) != 0 {
			continue
		}
		if m := w.models[f[6]]; m != nil {
			out = append(out, fTCP(u16(f), f[6], m.Exec(f[7:]))...)
		}
	}
	return out, false
}

func (w *wire) needSame(f string, a ...interface{}) {
	for _, id := range w.order {
		if s := same(w.reals[id], w.models[id]); s != "" {
			vrt.Fail("unit %d after "+fmt.Sprintf(f, a...)+": %s", id, s)
		}
	}
}

// step sends one request in one segment and checks reply and tables.
func (w *wire) step(c *vnet.TCPConn, tid int, unit byte, pdu []byte) {
	raw := fTCP(tid, unit, pdu)
	want, _ := w.expect(raw)
	got := ask(c, raw)
	Checked()
	if !bytes.Equal(got, want) {
		vrt.Fail("request [%s] is answered [%s], want [%s]", hexs(raw), hexs(got), hexs(want))
	}
	if c.EOF() {
		vrt.Fail("request [%s]: the server dropped the connection", hexs(raw))
	}
	w.needSame("request [%s]", hexs(raw))
}

var wireLayouts = []Layout{
	{cs: 5, cn: 9, ds: 3, dn: 1, is: 3, in: 2, hs: 7, hn: 3},
	{cs: 10, cn: 2100, ds: 300, dn: 2003, is: 1000, in: 300, hs: 2000, hn: 300},
	{cs: 65536 - 2000, cn: 2000, ds: 65536 - 17, dn: 17, is: 65536 - 125, in: 125, hs: 65536 - 130, hn: 130},
	{cs: 0, cn: 0, ds: 0, dn: 12, is: 65535, in: 1, hs: 65535, hn: 1},
	{cs: 65535, cn: 1, ds: 0, dn: 0, is: 0, in: 0, hs: 0, hn: 0},
	{cs: 0, cn: 65535, ds: 1, dn: 65535, is: 0, in: 65535, hs: 1, hn: 65535},
}

// tableReqs lists boundary requests of the ten functions around the tables.
func tableReqs(l Layout, few bool) [][]byte {
	var out [][]byte
	ad := func(t MTab) []int {
		xs := []int{t.start, t.start + 1, t.start + t.n - 1, t.start + t.n, t.start - 1, 0, 65535, t.start + 8}
		if !few {
			xs = append(xs, t.start+3, t.start+t.n/2, t.start+t.n-2, 255, 256, 32768)
		}
		return uniq(xs...)
	}
	qt := func(t MTab, a, max int) []int {
		end := t.start + t.n - a
		xs := []int{0, 1, 2, 8, 9, max - 1, max, max + 1, end - 1, end, end + 1, 65535, 65536 - a, 65537 - a, 256 + max, 32768 + 1}
		if !few {
			xs = append(xs, 7, 16, 17, 128, 255, 256, 257, 32768, 2*max, 65536-a+t.start, 65536-a+t.start+1)
		}
		return uniq(xs...)
	}
	m := newModel(0, l)
	p := 0
	for _, x := range []struct {
		fc byte
		t  MTab
		mx int
	}{{1, m.coils, 2000}, {2, m.disc, 2000}, {3, m.hold, 125}, {4, m.in, 125}} {
		for _, a := range ad(x.t) {
			for _, q := range qt(x.t, a, x.mx) {
				out = append(out, pRead(x.fc, a, q))
			}
		}
	}
	for _, a := range ad(m.coils) {
		for _, v := range []int{0xff00, 0, 1, 0xff, 0xff01, 0xffff, 0x100, 0x8000, 0xfe00, 0xff00} {
			out = append(out, pW1(5, a, v))
		}
		for _, q := range qt(m.coils, a, 1968) {
			p++
			n := (q + 7) / 8
			if n > 247 {
				n = 247
			}
			b := packPat(3+p%5, 8*n)
			out = append(out, append(append(append([]byte{15}, be(uint16(a), uint16(q))...), byte((q+7)/8)), b...))
		}
	}
	for _, a := range ad(m.hold) {
		for _, v := range []int{0x1234, 0, 0xffff, 0xff00} {
			out = append(out, pW1(6, a, v))
		}
		for _, mm := range [][2]uint16{{0x00f2, 0x0025}, {0, 0xffff}, {0xffff, 0}, {0xff00, 0x1234}} {
			out = append(out, pMask(a, mm[0], mm[1]))
		}
		for _, q := range qt(m.hold, a, 123) {
			p++
			n := q
			if n > 123 {
				n = 123
			}
			out = append(out, append(append(append([]byte{16}, be(uint16(a), uint16(q))...), byte(2*q)), be(wordsPat(3+p%5, n)...)...))
		}
	}
	ads := ad(m.hold)
	for _, ra := range ads {
		for _, rq := range uniq(0, 1, 2, 3, 125, 126, m.hold.start+m.hold.n-ra, m.hold.start+m.hold.n-ra+1, 65536-ra, 65535) {
			for _, wa := range ads {
				for _, wq := range uniq(0, 1, 2, 3, 121, 122, m.hold.start+m.hold.n-wa, m.hold.start+m.hold.n-wa+1, 65535) {
					p++
					if few && p%3 != 0 {
						continue
					}
					n := wq
					if n > 121 {
						n = 121
					}
					b := append([]byte{23}, be(uint16(ra), uint16(rq), uint16(wa), uint16(wq))...)
					out = append(out, append(append(b, byte(2*wq)), be(wordsPat(3+p%7, n)...)...))
				}
			}
		}
	}
	return out
}

// malformed lists requests whose sizes do not fit.
func malformed(l Layout) [][]byte {
	var out [][]byte
	a := func(t int) uint16 { return uint16(t) }
	bases := [][]byte{
		pRead(1, l.cs, 1), pRead(2, l.ds, 1), pRead(3, l.hs, 1), pRead(4, l.is, 1), pW1(5, l.cs, 0xff00), pW1(6, l.hs, 0x4711),
		pWCoils(l.cs, 9, []byte{0xff, 1}), pWCoils(l.cs, 1, []byte{1}), pWCoils(l.cs, 8, []byte{0xaa}), pWRegs(l.hs, []uint16{0x0102, 0x0304}), pWRegs(l.hs, []uint16{0x7777}),
		pMask(l.hs, 0, 0xffff), pRW(l.hs, 1, l.hs, []uint16{0x5555}), pRW(l.hs, 2, l.hs+1, []uint16{0x5555, 0x6666}),
	}
	for _, b := range bases {
		for n := 1; n < len(b); n++ {
			out = append(out, append([]byte(nil), b[:n]...))
		}
		for _, x := range []int{1, 2, 3, 7, 100, 253 - len(b)} {
			out = append(out, append(append([]byte(nil), b...), make([]byte, x)...))
		}
		// wrong byte counts
		k := map[byte]int{15: 5, 16: 5, 23: 9}[b[0]]
		if k > 0 {
			for v := 0; v < 256; v++ {
				c := append([]byte(nil), b...)
				c[k] = byte(v)
				out = append(out, c)
				if v < 12 { // byte count and payload agree with each other but not with the quantity
					out = append(out, append(append([]byte(nil), c[:k+1]...), bytes.Repeat([]byte{0x3c}, v)...))
				}
			}
			// wrong quantities for the payload
			for _, q := range []uint16{0, 1, 2, 3, 4, 7, 8, 9, 10, 16, 17, 128, 129, 256, 257, 264, 265, 2048, 0x8001, 0x8009, 0xffff} {
				c := append([]byte(nil), b...)
				copy(c[k-2:], be(q))
				out = append(out, c)
			}
		}
	}
	// unsupported functions
	sup := map[int]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 15: true, 16: true, 22: true, 23: true}
	for fc := 0; fc < 256; fc++ {
		if !sup[fc] {
			for _, n := range []int{0, 1, 4, 5, 252} {
				out = append(out, append([]byte{byte(fc)}, bytes.Repeat([]byte{byte(n)}, n)...))
			}
		}
	}
	// sizes that would be legal for another function
	for _, fc := range []byte{1, 2, 3, 4, 5, 6, 15, 16, 22, 23} {
		for n := 0; n <= 12; n++ {
			out = append(out, append([]byte{fc}, append(be(a(l.hs), 1, 0xff00), make([]byte, 8)...)[:n]...))
		}
		out = append(out, append([]byte{fc}, make([]byte, 252)...))
	}
	return out
}

// reqCase runs a list of requests on one connection, in order.
func reqCase(mk mkWire, l Layout, unit byte, tids []int, reqs func(m *MNode) [][]byte) func() {
	return func() {
		w := mk([]byte{unit, unit ^ 0x0f}, []Layout{l, wireLayouts[0]})
		c := w.conn()
		vrt.Settle()
		for i, r := range reqs(w.models[unit]) {
			w.step(c, tids[i%len(tids)], unit, r)
		}
		w.stop()
	}
}

func outcome(l Layout, r []byte) bool { // does the model accept it?
	m := newModel(1, l)
	return r[0]&0x80 == 0 && m.Exec(r)[0] == r[0]
}

var wireTids = []int{0, 1, 255, 256, 65535, 0x1234, 0x8000}

func regRequests(prop, suf string, mk mkWire, good bool) {
	part := func(l Layout, rs [][]byte) [][]byte {
		var out [][]byte
		for _, r := range rs {
			if len(r) <= 253 && outcome(l, r) == good {
				out = append(out, r)
			}
		}
		return out
	}
	kind := "rejected"
	if good {
		kind = "accepted"
	}
	reg(Scenario{Prop: prop, Name: kind + "-requests" + suf, Desc: "every boundary request (function x address x quantity x value around every table placement, sizes, byte counts, function codes) of this kind, reply bytes and all tables compared with the register model after each",
		Gen: func(q *Q) {
			for li, l := range wireLayouts {
				l := l
				few := li == 1 || li == 2 || li == 5
				for ui, unit := range []byte{1, 247, 255, 0} {
					if ui != li%4 && !(li == 0) && !q.Thorough {
						continue
					}
					rs := part(l, tableReqs(l, few && !q.Thorough))
					if li != 5 {
						rs = append(rs, part(l, malformed(l))...)
					}
					size := 400
					for k := 0; k < len(rs); k += size {
						e := k + size
						if e > len(rs) {
							e = len(rs)
						}
						sub := rs[k:e]
						q.Case(Case{Name: fmt.Sprintf("%v unit %d part %d", l, unit, k/size), Fixed: true, Max: 100000, Body: reqCase(mk, l, unit, wireTids, func(*MNode) [][]byte { return sub })})
					}
				}
			}
		}})
	reg(Scenario{Prop: prop, Name: kind + "-histories" + suf, Desc: "all request sequences up to a depth over a small alphabet on one connection, mixing units; replies and tables compared with the model after each request",
		Gen: func(q *Q) {
			l := wireLayouts[0]
			type rq struct {
				u byte
				p []byte
			}
			alpha := []rq{
				{1, pRead(1, 5, 9)}, {1, pRead(2, 3, 1)}, {1, pRead(3, 7, 3)}, {1, pRead(4, 3, 2)},
				{1, pW1(5, 13, 0xff00)}, {1, pW1(5, 6, 0)}, {1, pW1(6, 8, 0xbeef)}, {1, pWCoils(5, 9, []byte{0x5a, 0xff})}, {1, pWRegs(7, []uint16{1, 2, 3})},
				{1, pMask(9, 0xf0f0, 0x1234)}, {1, pRW(7, 3, 8, []uint16{0xaaaa, 0xbbbb})}, {14, pRW(7, 2, 9, []uint16{0x0c0c})}, {14, pWCoils(5, 3, []byte{5})},
			}
			if !good {
				alpha = append(alpha, rq{1, pRead(1, 5, 10)}, rq{1, pRead(3, 7, 126)}, rq{1, pW1(5, 6, 0x00ff)}, rq{1, pW1(6, 10, 1)}, rq{1, []byte{0x2b, 14, 1, 0}},
					rq{1, pRW(8, 3, 7, []uint16{0xdead})}, rq{1, pRW(7, 1, 9, []uint16{0xdead, 0xbeef})}, rq{1, pWRegs(7, []uint16{9, 9, 9})[:9]}, rq{1, pWCoils(5, 9, []byte{1, 1})[:7]}, rq{14, pMask(6, 0, 0)}, rq{77, pW1(6, 8, 1)})
			}
			depth := q.N(3, 4)
			if !good {
				depth = q.N(2, 3)
			}
			for f := range alpha {
				f := f
				q.Case(Case{Name: fmt.Sprintf("first %x", alpha[f].p), Fixed: true, Max: 400000, Body: func() {
					w := mk([]byte{1, 14}, []Layout{l, l})
					c := w.conn()
					vrt.Settle()
					tid := 0
					var rec func(seq []int)
					rec = func(seq []int) {
						for _, id := range w.order {
							fill(w.reals[id], w.models[id], 3+int(id))
						}
						for _, i := range seq {
							tid = (tid + 1) & 0xffff
							w.step(c, tid, alpha[i].u, alpha[i].p)
						}
						if len(seq) < depth {
							for i := range alpha {
								rec(append(seq[:len(seq):len(seq)], i))
							}
						}
					}
					rec([]int{f})
					w.stop()
				}})
			}
		}})
}

// ---- C08 ----

type namedFrame struct {
	name string
	raw  []byte
}

func streamFrames() []namedFrame {
	inner := fTCP(0x0000, 1, pW1(6, 8, 0xdead)) // a complete write as the body of a foreign frame
	return []namedFrame{
		{"read", fTCP(0x0102, 1, pRead(3, 7, 2))},
		{"write", fTCP(0x0304, 1, pW1(6, 9, 0x0607))},
		{"exc", fTCP(0x0506, 1, pRead(1, 500, 3))},
		{"unknown-unit", fTCP(0x0708, 99, pW1(6, 8, 0xeeee))},
		{"foreign", fTCPpid(0x090a, 1, 1, inner)},
		{"foreign-short", fTCPpid(0x090b, 0x0100, 1, []byte{0})},
		{"foreign-zeros", fTCPpid(0x090c, 0xffff, 0, make([]byte, 30))},
		{"rw", fTCP(0x0b0c, 1, pRW(7, 3, 8, []uint16{0x1111, 0x2222}))},
		{"nofn", fTCP(0x0d0e, 1, []byte{0x41})},
		{"unit2", fTCP(0x0f10, 14, pMask(8, 0xff00, 0x0033))},
	}
}

func bigFrames() []namedFrame {
	big := append([]byte{16}, be(7, 123)...)
	big = append(append(big, 246), be(wordsPat(5, 123)...)...)
	return []namedFrame{
		{"max-size", fTCP(0x1112, 1, append([]byte{0x42}, make([]byte, 252)...))},
		{"max-write", fTCP(0x1314, 1, big)},
		{"foreign-max", fTCPpid(0x1516, 7, 1, append([]byte{0x42}, bytes.Repeat([]byte{0, 0, 0, 6, 1, 6, 0, 8, 0}, 28)...))},
		{"foreign-260", fTCPpid(0x1518, 7, 1, bytes.Repeat([]byte{0, 8, 0}, 85)[:253])},
	}
}

// segment sends a stream cut at the given offsets and checks everything.
func (w *wire) segment(c *vnet.TCPConn, name string, raw []byte, cuts []int, gap int) {
	vrt.Tick()
	want, _ := w.expect(raw)
	prev := 0
	for _, k := range append(append([]int{}, cuts...), len(raw)) {
		if k <= prev {
			continue
		}
		_, _ = c.Write(raw[prev:k])
		prev = k
		if gap < 0 {
			continue
		}
		vrt.Settle()
		if gap > 0 && k < len(raw) {
			vrt.Sleep(int64(gap) * int64(ms))
		}
	}
	vrt.Settle()
	got := c.Take()
	Checked()
	if !bytes.Equal(got, want) {
		vrt.Fail("stream %s (%d bytes) cut at %v is answered\n  [%s], want\n  [%s]", name, len(raw), cuts, hexs(got), hexs(want))
	}
	if c.EOF() {
		vrt.Fail("stream %s cut at %v: the server dropped the connection", name, cuts)
	}
	w.needSame("stream %s cut at %v", name, cuts)
}

func regStreams(prop, suf string, mk mkWire) {
	ids, ls := []byte{1, 14}, []Layout{wireLayouts[0], wireLayouts[0]}
	ls[0].hn, ls[0].hs = 130, 7
	every := func(n int) []int {
		var r []int
		for i := 1; i < n; i++ {
			r = append(r, i)
		}
		return r
	}
	reg(Scenario{Prop: prop, Name: "stream-cuts" + suf, Desc: "all streams of one to three frames of every kind, cut at every one and two places, byte by byte, pipelined in one segment, with pauses; replies and tables compared with the frame-by-frame model",
		Gen: func(q *Q) {
			fr := streamFrames()
			one := func(name string, raw []byte, two bool, step2 int) {
				q.Case(Case{Name: name, Fixed: true, Max: 400000, Body: func() {
					w := mk(ids, ls)
					c := w.conn()
					vrt.Settle()
					w.segment(c, name, raw, nil, 0)
					w.segment(c, name, raw, every(len(raw)), 0)
					w.segment(c, name, raw, every(len(raw)), 1)
					w.segment(c, name, raw, every(len(raw)), -1)
					w.segment(c, name, append(append([]byte{}, raw...), raw...), nil, 0)
					for i := 1; i < len(raw); i++ {
						w.segment(c, name, raw, []int{i}, 0)
						w.segment(c, name, raw, []int{i}, tm.RT*3/4)
						if two {
							for j := i + 1; j < len(raw); j += step2 {
								w.segment(c, name, raw, []int{i, j}, 0)
							}
						}
					}
					w.stop()
				}})
			}
			for _, a := range fr {
				one(a.name, a.raw, true, 1)
				for _, b := range fr {
					one(a.name+"+"+b.name, append(append([]byte{}, a.raw...), b.raw...), true, q.N(3, 1))
					for _, d := range fr {
						if !q.Thorough && a.name != "foreign" && b.name != "foreign" && b.name != "unknown-unit" && b.name != "exc" {
							continue
						}
						one(a.name+"+"+b.name+"+"+d.name, append(append(append([]byte{}, a.raw...), b.raw...), d.raw...), q.Thorough, 7)
					}
				}
			}
			for _, a := range bigFrames() {
				one(a.name, a.raw, q.Thorough, 11)
				for _, b := range fr {
					one(a.name+"+"+b.name, append(append([]byte{}, a.raw...), b.raw...), false, 1)
					one(b.name+"+"+a.name, append(append([]byte{}, b.raw...), a.raw...), false, 1)
				}
				for _, b := range bigFrames() {
					one(a.name+"+"+b.name, append(append([]byte{}, a.raw...), b.raw...), false, 1)
				}
			}
			if q.Thorough {
				return
			}
		}})
	reg(Scenario{Prop: prop, Name: "skipped-frames" + suf, Desc: "a frame for every unit id that is not served, and with every single-bit and many other foreign protocol ids, of several kinds and lengths, in front of and between requests; whole, pipelined and cut after the header",
		Gen: func(q *Q) {
			good := fTCP(0x0102, 1, pRead(3, 7, 2))
			good2 := fTCP(0x8003, 14, pW1(6, 9, 0x0607))
			run := func(name string, frames func(yield func(string, []byte))) {
				q.Case(Case{Name: name, Fixed: true, Max: 400000, Body: func() {
					w := mk(ids, ls)
					c := w.conn()
					vrt.Settle()
					frames(func(n string, f []byte) {
						raw := cat(f, good)
						w.segment(c, n+"+read", raw, nil, 0)
						w.segment(c, n+"+read", raw, []int{7, len(f)}, 0)
						w.segment(c, n+"+read", raw, []int{6, 8}, 0)
						w.segment(c, n+"+"+n+"+write", cat(good, f, f, good2), nil, 0)
						w.segment(c, n+" alone", f, nil, 0)
					})
					w.stop()
				}})
			}
			bodies := [][]byte{pRead(3, 7, 2), pW1(6, 8, 0xdead), pRW(7, 3, 8, []uint16{0x1111, 0x2222}), {0x41}, {0x83, 2}, cat([]byte{1}, fTCP(1, 1, pW1(6, 8, 0xeeee))), append([]byte{100}, make([]byte, 252)...)}
			for lo := 0; lo < 256; lo += 16 {
				lo := lo
				run(fmt.Sprintf("units %d..%d", lo, lo+15), func(yield func(string, []byte)) {
					for u := lo; u < lo+16; u++ {
						if u == int(ids[0]) || u == int(ids[1]) {
							continue
						}
						for k, b := range bodies {
							yield(fmt.Sprintf("unit %d body %d", u, k), fTCP(0x2000+u, byte(u), b))
						}
					}
				})
			}
			pids := []int{3, 5, 0x00ff, 0x0101, 0x0502, 0x7fff, 0xff00, 0xfffe, 0xffff}
			for i := 0; i < 16; i++ {
				pids = append(pids, 1<<i)
			}
			for _, pid := range pids {
				pid := pid
				run(fmt.Sprintf("protocol %#x", pid), func(yield func(string, []byte)) {
					for k, b := range bodies {
						for _, u := range []byte{0, ids[0], ids[1], 99, 255} {
							yield(fmt.Sprintf("protocol %#x unit %d body %d", pid, u, k), fTCPpid(0x3000+k, pid, u, b))
						}
					}
				})
			}
		}})
	reg(Scenario{Prop: prop, Name: "pipelines" + suf, Desc: "pipelines of up to 40 requests in one segment and in segments of every size",
		Gen: func(q *Q) {
			fr := append(streamFrames(), bigFrames()...)
			for _, n := range []int{5, 12, 40} {
				for rot := 0; rot < len(fr); rot++ {
					n, rot := n, rot
					q.Case(Case{Name: fmt.Sprintf("%d frames from %d", n, rot), Fixed: true, Max: 400000, Body: func() {
						w := mk(ids, ls)
						c := w.conn()
						vrt.Settle()
						var raw []byte
						for i := 0; i < n; i++ {
							raw = append(raw, fr[(rot+i*3)%len(fr)].raw...)
						}
						w.segment(c, "pipeline", raw, nil, 0)
						for _, size := range []int{2, 3, 6, 7, 8, 11, 12, 13, 64, 259, 260, 261, 512, 1460} {
							var cuts []int
							for k := size; k < len(raw); k += size {
								cuts = append(cuts, k)
							}
							w.segment(c, "pipeline", raw, cuts, 0)
						}
						w.stop()
					}})
				}
			}
		}})
}

// ---- C09 ----

func evilStreams(thorough bool) []namedFrame {
	var out []namedFrame
	add := func(name string, b []byte) { out = append(out, namedFrame{name, append([]byte(nil), b...)}) }
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 253, 254, 255, 256, 257, 259, 260, 261, 300, 0x1ff, 0x7fff, 0x8000, 0xff00, 0xfff9, 0xfffa, 0xffff}
	if thorough {
		for i := 8; i < 32; i++ {
			lens = append(lens, i)
		}
	}
	for _, pid := range []int{0, 1, 0x0100} {
		for _, l := range lens {
			for _, fc := range []byte{0, 1, 3, 5, 6, 15, 16, 22, 23, 24, 0x41, 0x80, 0x83, 0xff} {
				if pid != 0 && fc != 6 && fc != 0 && fc != 0xff {
					continue
				}
				for _, unit := range []byte{1, 99, 0, 255, 14} {
					if unit != 1 && fc != 6 && fc != 3 {
						continue
					}
					if unit != 1 && unit != 99 && (pid > 1 || l > 300 && l != 0xffff) {
						continue
					}
					for _, f := range []byte{0, 0xff, 0x01} {
						n := l - 2
						if n < 0 {
							n = 0
						}
						if n > 700 {
							n = 700
						}
						h := append(be(0x0a0b, uint16(pid), uint16(l)), unit, fc)
						if l < 2 {
							h = h[:6+l]
						}
						add(fmt.Sprintf("pid %d len %d unit %d fc %d fill %02x", pid, l, unit, fc, f), append(h, bytes.Repeat([]byte{f}, n)...))
					}
				}
			}
		}
	}
	for _, n := range []int{1, 6, 7, 8, 13, 259, 260, 261, 600} {
		for _, f := range []byte{0, 0xff, 0x01, 0x80, ':'} {
			add(fmt.Sprintf("%d times %02x", n, f), bytes.Repeat([]byte{f}, n))
		}
	}
	add("http", []byte("GET / HTTP/1.1\r\nHost: example.org\r\n\r\n"))
	add("tls", append([]byte{0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3}, bytes.Repeat([]byte{0x5c}, 500)...))
	add("ascii-modbus", []byte(":010300000001FB\r\n"))
	add("rtu", fRTU(1, pRead(3, 7, 1)))
	return out
}

// probe checks that a connection is served correctly.
func (w *wire) probe(c *vnet.TCPConn, tid int, what string) {
	raw := fTCP(tid, 1, pRW(7, 2, 8, []uint16{uint16(tid * 7)}))
	want, _ := w.expect(raw)
	got := ask(c, raw)
	Checked()
	if !bytes.Equal(got, want) {
		vrt.Fail("%s: a good request [%s] is answered [%s], want [%s]", what, hexs(raw), hexs(got), hexs(want))
	}
}

func regEvil(prop, suf string, mk mkWire, listen bool) {
	ids, ls := []byte{1, 14}, []Layout{wireLayouts[0], wireLayouts[0]}
	reg(Scenario{Prop: prop, Name: "evil-streams" + suf, Desc: "every header (protocol id x length x unit x function x filler) and other garbage, whole and truncated, then end/reset/stall; tables compared with the model, other and new connections probed, stalled connections must be closed",
		Gen: func(q *Q) {
			ev := evilStreams(q.Thorough)
			const chunk = 12
			for k := 0; k < len(ev); k += chunk {
				e := k + chunk
				if e > len(ev) {
					e = len(ev)
				}
				sub := ev[k:e]
				q.Case(Case{Name: fmt.Sprintf("%s .. %s", sub[0].name, sub[len(sub)-1].name), Fixed: true, Max: 400000, Body: func() {
					w := mk(ids, ls)
					var other *vnet.TCPConn
					tid := 1
					for _, s := range sub {
						var trunc []int
						for _, t := range []int{1, 4, 6, 7, 8, 9, 11, 12, len(s.raw) / 2, len(s.raw) - 1, len(s.raw)} {
							if t > 0 && t <= len(s.raw) && (len(trunc) == 0 || t > trunc[len(trunc)-1]) {
								trunc = append(trunc, t)
							}
						}
						for _, t := range trunc {
							for end := 0; end < 4; end++ {
								if t != len(s.raw) && t > 12 && end == 3 && !q.Thorough {
									continue
								}
								vrt.Tick()
								what := fmt.Sprintf("stream %q cut to %d bytes then %s", s.name, t, []string{"end of stream", "reset", "silence", "end of stream at once"}[end])
								if listen && (other == nil || other.EOF()) {
									other = w.conn()
								}
								c := w.conn()
								vrt.Settle()
								want, loose := w.expect(s.raw[:t])
								_, _ = c.Write(s.raw[:t])
								if end == 3 {
									_ = c.CloseWrite()
								}
								vrt.Settle()
								got := c.Take()
								Checked()
								if end != 3 && !bytes.HasPrefix(got, want) || len(got) > len(want) && !loose {
									vrt.Fail("%s is answered [%s], want [%s]", what, hexs(got), hexs(want))
								}
								w.needSame(what)
								closedWithin := 0
								switch end {
								case 0:
									_ = c.CloseWrite()
								case 1:
									c.Abort()
								case 2:
									closedWithin = tm.RT + 100
								}
								if listen {
									if other.EOF() {
										other = w.conn()
									}
									tid++
									w.probe(other, tid, what+"; on another connection")
									nc := w.conn()
									tid++
									w.probe(nc, tid, what+"; on a new connection")
									_ = nc.Close()
								}
								if end == 2 {
									vrt.Sleep(int64(closedWithin) * int64(ms))
								}
								vrt.Settle()
								if end != 1 && !c.EOF() {
									vrt.Fail("%s: the server keeps the connection open (read timeout %dms)", what, tm.RT)
								}
								w.needSame(what + ", at the end")
								_ = c.Close()
							}
						}
						nc := w.conn()
						vrt.Settle()
						tid++
						w.probe(nc, tid, "after stream "+s.name)
						_ = nc.Close()
						vrt.Settle()
					}
					w.stop()
				}})
			}
		}})
}

func init() {
	regRequests("C06", "", listenWire, true)
	regRequests("C07", "", listenWire, false)
	regStreams("C08", "", listenWire)
	regEvil("C09", "", listenWire, true)
	regRequests("C26", "-good", reverseWire, true)
	regRequests("C26", "-bad", reverseWire, false)
	regStreams("C26", "-reverse", reverseWire)
	regEvil("C26", "-reverse", reverseWire, false)
}
