package main

import (
	"bytes"
	"fmt"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// Sweeps: every unit id, address byte, value, quantity, transaction id and
// checksum, each together with every small damage.  What the other scenarios
// try at a few arguments only is repeated here at all of them.

// argsFor yields argument sets in which one argument at a time takes every
// value (addresses and values: every high and every low byte, or all).
func sweep(all bool, f func(v int)) {
	for v := 0; v < 65536; v++ {
		h, l := v>>8, v&255
		if all || l == 0x22 || h == 0x33 || h == l || h == 255-l || h == 0 || l == 0 {
			f(v)
		}
	}
}

// smallDamage lists the small changes of a correct reply: one field off by a
// little, at the level of the PDU and of the frame.
func smallDamage(x xport, e *exch, g *rig, p []byte) [][]byte {
	var out [][]byte
	add := func(b []byte) { out = append(out, append([]byte(nil), b...)) }
	fr := g.frame(e.tid, e.unit, p)
	add(fr)
	// PDU bytes, well framed
	for i := 0; i < len(p); i++ {
		if i >= 5 && i < len(p)-1 {
			continue
		}
		for _, v := range []byte{p[i] ^ 1, p[i] ^ 0x80, p[i] + 1, p[i] - 1, 0, 0xff} {
			if v != p[i] {
				add(g.frame(e.tid, e.unit, put(p, i, v)))
			}
		}
	}
	if len(p) >= 3 {
		sw := append([]byte(nil), p...)
		sw[1], sw[2] = sw[2], sw[1]
		add(g.frame(e.tid, e.unit, sw))
	}
	if len(p) >= 5 {
		sw := append([]byte(nil), p...)
		sw[3], sw[4] = sw[4], sw[3]
		add(g.frame(e.tid, e.unit, sw))
	}
	// lengths
	for _, d := range []int{-2, -1, 1, 2} {
		q := append(append([]byte(nil), p...), 0, 0)[:len(p)+d]
		add(g.frame(e.tid, e.unit, q))
		if len(q) >= 2 {
			add(g.frame(e.tid, e.unit, put(q, 1, byte(int(q[1])+d))))
		}
	}
	// other units
	for _, u := range []byte{e.unit + 1, e.unit - 1, e.unit ^ 0x80, e.unit ^ 1, 0, 0xff, e.pdu[0]} {
		if u != e.unit {
			add(g.frame(e.tid, u, p))
		}
	}
	// the frame's own fields
	switch x {
	case xTCP:
		for _, t := range []int{e.tid ^ 1, e.tid ^ 0x100, e.tid ^ 0x8000, (e.tid + 1) & 0xffff, (e.tid - 1) & 0xffff, 0, 0xffff, e.tid>>8 | e.tid&255<<8} {
			if t != e.tid {
				add(fTCP(t, e.unit, p))
			}
		}
		for _, i := range []int{1, 0x100, 0xffff, int(e.unit), e.tid} {
			if i != 0 {
				add(fTCPpid(e.tid, i, e.unit, p))
			}
		}
	case xRTU:
		n := len(fr)
		lo, hi := fr[n-2], fr[n-1]
		for _, c := range [][2]byte{{lo ^ 1, hi}, {lo, hi ^ 1}, {lo ^ 0x80, hi}, {lo, hi ^ 0x80}, {hi, lo}, {^lo, ^hi}, {0, 0}, {0xff, 0xff}, {lo, 0}, {0, hi}, {lo, lo}, {hi, hi}, {lo, 0xff}, {0xff, hi}, {lo + 1, hi}, {lo, hi - 1}, {lo ^ 0xff, hi}, {lo, hi ^ 0xff}} {
			if c != [2]byte{lo, hi} {
				add(put(put(fr, n-2, c[0]), n-1, c[1]))
			}
		}
	case xASCII:
		b := append([]byte{e.unit}, p...)
		s := lrcRef(b)
		for _, c := range []byte{s ^ 1, s ^ 0x80, s + 1, s - 1, -s, ^s, 0, 0xff, s<<4 | s>>4, s ^ 0xf0} {
			if c != s {
				add([]byte(fmt.Sprintf(":%X%02X\r\n", b, c)))
			}
		}
	}
	return out
}

func damaged(x xport, cl *call) {
	g0, e0 := firstExch(x, cl)
	for _, s := range smallDamage(x, e0, g0, cl.rsp) {
		s := s
		tryReply(x, cl, func(g *rig, e *exch) []byte {
			if e.tid != e0.tid {
				return g.frame(e.tid, e.unit, cl.rsp)
			}
			return s
		})
	}
}

func regReplySweeps(prop string, xs []xport) {
	reg(Scenario{Prop: prop, Name: "reply-arguments", Desc: "every call with every unit id, every high and low address and value byte, and every quantity, answered correctly and with every small damage of the reply", Gen: func(q *Q) {
		for _, x := range xs {
			x := x
			for i, c := range calls(17, 0) {
				i := i
				q.Seq(fmt.Sprintf("%s %s units", x, c.name), func() {
					for u := 1; u < 248; u++ {
						cl := calls(byte(u), u%2)[i]
						damaged(x, &cl)
					}
				})
				for part := 0; part < 4; part++ {
					part := part
					q.Seq(fmt.Sprintf("%s %s addresses and values %d/4", x, c.name, part), func() {
						k := 0
						sweep(false, func(v int) {
							if k++; k%4 != part || !q.Thorough && k%3 != 0 && v>>8 != 0x33 && v&255 != 0x22 {
								return
							}
							p := parsFor(0)
							p.a, p.v1, p.and, p.or, p.on = v, v^0x0f0f, uint16(v), uint16(^v), v%2 == 0
							p.nb, p.nwb, p.nr, p.nw, p.nw2, p.nf = 8, 8, 1, 1, 1, 1
							cl := callsWith(17, p)[i]
							damaged(x, &cl)
						})
					})
				}
				q.Seq(fmt.Sprintf("%s %s quantities", x, c.name), func() {
					max := []int{2000, 2000, 1, 1968, 125, 125, 125, 125, 1, 123, 123, 125, 125, 1, 31}[i]
					for k := 1; k <= max; k++ {
						if !q.Thorough && max > 130 && k > 24 && k < max-16 && k%8 > 1 {
							continue
						}
						if !q.Thorough && max > 130 && k > 100 && k < max-100 && k%5 != 0 {
							continue
						}
						p := parsFor(0)
						c := func(n int) int {
							if k > n {
								return n
							}
							return k
						}
						p.nb, p.nwb, p.nr, p.nw, p.nw2, p.nf, p.pat = k, c(1968), c(125), c(123), c(121), c(31), 3+k%6
						cl := callsWith(17, p)[i]
						damaged(x, &cl)
					}
				})
			}
		}
	}})
}

// checksums tries replies of all contents of one register, so that the
// checksum takes every value, with the checksum right and wrong.
func regChecksums(prop string) {
	reg(Scenario{Prop: prop, Name: "every-checksum", Desc: "replies whose checksum takes every value of each of its bytes (thorough: all 65536), right and with every small damage", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			x := x
			for part := 0; part < 8; part++ {
				part := part
				q.Seq(fmt.Sprintf("%s %d/8", x, part), func() {
					cl := callsWith(17, cpar{a: 0x0107, nb: 8, nwb: 8, nr: 1, nw: 1, nw2: 1, pat: 3})[7]
					for v := part * 8192; v < (part+1)*8192; v++ {
						r := cl
						r.rsp = []byte{3, 2, byte(v >> 8), byte(v)}
						f := newEnv(x).frame(1, 17, r.rsp)
						c := crcRef(f[:len(f)-2])
						lo, hi := byte(c), byte(c>>8)
						pick := lo == 0 || hi == 0 || lo == 0xff || hi == 0xff || lo == hi || lo == 0x11 || hi == 0x33 || lo == '\n' || lo == '\r'
						if x == xASCII {
							s := lrcRef(append([]byte{17}, r.rsp...))
							pick = v>>8 == 7 || v>>8 == 0xff || v&255 == 0x55 || s == 0 && v%5 == 0 || s == 0x0a || s == 0xff && v%3 == 0
						}
						if q.Thorough || pick {
							damaged(x, &r)
						}
					}
				})
			}
		}
	}})
}

func regExcSweeps() {
	reg(Scenario{Prop: "C16", Name: "exception-arguments", Desc: "exceptions of every code (quick: a few besides the unit's and the function's numbers) to every call with every unit id, every high and low address byte and many quantities", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for i, c := range calls(17, 0) {
				i := i
				run := func(cl *call, codes []int) {
					for _, code := range codes {
						p := []byte{cl.req[0] | 0x80, byte(code)}
						excRun(x, cl, func(g *rig, e *exch) [][]byte { return one(g.frame(e.tid, e.unit, p)) }, code, fmt.Sprintf("exception %d", code))
					}
				}
				q.Seq(fmt.Sprintf("%s %s units", x, c.name), func() {
					for u := 1; u < 248; u++ {
						cl := calls(byte(u), 0)[i]
						codes := uniq(0, 1, 2, 3, 4, 6, 11, u, int(cl.req[0]), int(cl.req[0])|0x80, 255)
						if q.Thorough {
							codes = nil
							for k := 0; k < 256; k++ {
								codes = append(codes, k)
							}
						}
						run(&cl, codes)
						// the same with the checksum or the header damaged
						p := []byte{cl.req[0] | 0x80, byte(u)}
						g0, e0 := firstExch(x, &cl)
						for k, s := range smallDamage(x, e0, g0, p) {
							s := s
							if k == 0 {
								continue
							}
							want := -1
							ok, un := excIn(x, e0, &cl, s)
							if un {
								continue
							}
							if ok >= 0 {
								want = ok
							}
							excRun(x, &cl, func(g *rig, e *exch) [][]byte {
								if e.tid != e0.tid {
									return one(g.frame(e.tid, e.unit, cl.rsp))
								}
								return one(s)
							}, want, fmt.Sprintf("a changed exception [%s]", hexs(s)))
						}
					}
				})
				q.Seq(fmt.Sprintf("%s %s addresses", x, c.name), func() {
					sweep(q.Thorough, func(v int) {
						p := parsFor(0)
						p.a, p.v1, p.and, p.or = v, v^0x0f0f, uint16(v), uint16(^v)
						cl := callsWith(17, p)[i]
						run(&cl, uniq(1+v%11, v&255))
					})
				})
			}
		}
	}})
}

// excIn says which exception of the call a changed reply still is, -1 if none;
// unclear: neither a whole exception nor certainly something else.
func excIn(x xport, e *exch, cl *call, s []byte) (code int, unclear bool) {
	judge := func(unit byte, p []byte) (int, bool) {
		if unit != e.unit {
			return -1, false
		}
		if len(p) >= 1 && p[0] == cl.req[0]|0x80 {
			if len(p) == 2 {
				return int(p[1]), false
			}
			return -1, true
		}
		return -1, cl.judge(p)
	}
	switch x {
	case xTCP:
		if len(s) < 8 || u16(s[4:]) != len(s)-6 {
			return -1, true
		}
		if u16(s) != e.tid || u16(s[2:]) != 0 {
			return -1, false
		}
		return judge(s[6], s[7:])
	case xRTU:
		n := len(s)
		if n < 4 {
			return -1, true
		}
		if c := crcRef(s[:n-2]); s[n-2] != byte(c) || s[n-1] != byte(c>>8) {
			return -1, n != 5
		}
		if n != 5 {
			return -1, true
		}
		return judge(s[0], s[1:n-2])
	}
	b, bad := unASCII(s)
	if bad != "" {
		return -1, false
	}
	return judge(b[0], b[1:len(b)-1])
}

// ---- the server ----

// flood sends requests in pipelines and checks every reply and, now and then
// and at the end, all tables.
type flood struct {
	w    *wire
	c    *vnet.TCPConn
	raw  []byte
	n, k int
}

func (f *flood) req(tid int, unit byte, pdu []byte) {
	f.raw = append(f.raw, fTCP(tid&0xffff, unit, pdu)...)
	if f.n++; f.n == 48 {
		f.flush(false)
	}
}

func (f *flood) flush(all bool) {
	vrt.Tick()
	want, _ := f.w.expect(f.raw)
	got := ask(f.c, f.raw)
	Checked()
	if !bytes.Equal(got, want) {
		// where the first difference is
		r, i := f.raw, 0
		for len(r) >= 7 {
			n := 6 + u16(r[4:])
			if len(got) < i+8 || len(want) < i+8 {
				break
			}
			m := 6 + u16(want[i+4:])
			if len(got) < i+m || !bytes.Equal(got[i:i+m], want[i:i+m]) {
				vrt.Fail("request [%s] (among pipelined ones) is answered [%s], want [%s]", hexs(r[:n]), hexs(got[i:]), hexs(want[i:i+m]))
			}
			i += m
			r = r[n:]
		}
		vrt.Fail("pipelined requests [%s] are answered [%s], want [%s]", hexs(f.raw), hexs(got), hexs(want))
	}
	if f.c.EOF() {
		vrt.Fail("the server dropped the connection after [%s]", hexs(f.raw))
	}
	f.raw, f.n = f.raw[:0], 0
	if f.k++; all || f.k%64 == 0 {
		f.w.needSame("requests up to [%s]", hexs(f.raw))
	}
}

func flooded(mk mkWire, ids []byte, l Layout, g func(f *flood)) func() {
	return func() {
		var ls []Layout
		for range ids {
			ls = append(ls, l)
		}
		w := mk(ids, ls)
		f := &flood{w: w, c: w.conn()}
		g(f)
		f.flush(true)
		w.stop()
	}
}

func regServerSweeps(prop, suf string, mk mkWire, l Layout, what string) {
	reg(Scenario{Prop: prop, Name: "every-argument" + suf, Desc: what, Gen: func(q *Q) {
		kinds := []struct {
			name string
			p    func(a int) []byte
		}{
			{"read coils", func(a int) []byte { return pRead(1, a, 1+a%19) }},
			{"read discretes", func(a int) []byte { return pRead(2, a, 1+a%17) }},
			{"read holdings", func(a int) []byte { return pRead(3, a, 1+a%5) }},
			{"read inputs", func(a int) []byte { return pRead(4, a, 1+a%3) }},
			{"write coil", func(a int) []byte { return pW1(5, a, a%2*0xff00) }},
			{"write register", func(a int) []byte { return pW1(6, a, a^0x5a5a) }},
			{"write coils", func(a int) []byte { return pWCoils(a, 1+a%21, packPat(a%97, 24)) }},
			{"write registers", func(a int) []byte { return pWRegs(a, wordsPat(a%89, 1+a%4)) }},
			{"mask", func(a int) []byte { return pMask(a, uint16(a>>1), uint16(^a)) }},
			{"read and write", func(a int) []byte { return pRW(a, 1+a%3, (a*7)&0xffff, wordsPat(a%83, 1+a%2)) }},
			{"read and write here", func(a int) []byte { return pRW(a, 1+a%3, a, wordsPat(a%83, 1+a%2)) }},
		}
		for _, k := range kinds {
			k := k
			for part := 0; part < 2; part++ {
				part := part
				q.Case(Case{Name: fmt.Sprintf("%s, every address %d/2", k.name, part), Fixed: true, Max: 3000000, Body: flooded(mk, []byte{1}, l, func(f *flood) {
					for a := part * 32768; a < part*32768+32768; a++ {
						f.req(a, 1, k.p(a))
					}
				})})
			}
		}
		vals := []struct {
			name string
			p    func(v int) []byte
		}{
			{"write register", func(v int) []byte { return pW1(6, l.hs, v) }},
			{"write coil", func(v int) []byte { return pW1(5, l.cs+1, v) }},
			{"and mask", func(v int) []byte { return pMask(l.hs, uint16(v), 0x5a3c) }},
			{"or mask", func(v int) []byte { return pMask(l.hs, 0xa55a, uint16(v)) }},
			{"write registers", func(v int) []byte { return pWRegs(l.hs, []uint16{uint16(v), uint16(^v)}) }},
			{"write coils", func(v int) []byte { return pWCoils(l.cs+v%5, 16, be(uint16(v))) }},
			{"read and write", func(v int) []byte { return pRW(l.hs, 2, l.hs, []uint16{uint16(v)}) }},
			{"transaction ids", func(v int) []byte { return pRead(3, l.hs, 1) }},
			{"read quantities", func(v int) []byte { return pRead(3, l.hs, v) }},
			{"coil quantities", func(v int) []byte { return pRead(1, l.cs, v) }},
			{"input quantities", func(v int) []byte { return pRead(4, l.is, v) }},
			{"discrete quantities", func(v int) []byte { return pRead(2, l.ds, v) }},
		}
		for _, k := range vals {
			k := k
			q.Case(Case{Name: k.name + ", every value", Fixed: true, Max: 3000000, Body: flooded(mk, []byte{1}, l, func(f *flood) {
				for v := 0; v < 65536; v++ {
					f.req(v*257, 1, k.p(v))
					if v%7 == 0 {
						f.req(v, 1, pRead(3, l.hs, 2))
					}
				}
			})})
		}
		for lo := 0; lo < 256; lo += 64 {
			var ids []byte
			for u := lo; u < lo+64; u++ {
				ids = append(ids, byte(u))
			}
			sm := wireLayouts[0]
			q.Case(Case{Name: fmt.Sprintf("units %d..%d", lo, lo+63), Fixed: true, Max: 3000000, Body: flooded(mk, ids, sm, func(f *flood) {
				for u := 0; u < 256; u++ { // the others are not served: no reply
					for _, k := range kinds {
						for a := 0; a < 12; a += 3 {
							f.req(u*256+a, byte(u), k.p(a))
						}
					}
					for fc := 0; fc < 256; fc++ {
						f.req(fc*255+u, byte(u), []byte{byte(fc), 0, 7, 0, 1})
					}
				}
			})})
		}
	}})
}

func regRequestSweeps() {
	reg(Scenario{Prop: "C13", Name: "request-arguments", Desc: "every call with every high and low byte of the address and of the values (thorough: all), every unit, on every transport", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for part := 0; part < 4; part++ {
				part := part
				q.Seq(fmt.Sprintf("%s addresses and values %d/4", x, part), func() {
					r := newC13(x, -1, -1)
					k := 0
					sweep(q.Thorough, func(a int) {
						if k++; k%4 != part {
							return
						}
						w := []uint16{uint16(a), uint16(^a), uint16(a<<8 | a>>8)}
						wr := invRegs(3, 7, 3, 3, 3)
						wr.w, wr.req = w, pWRegs(7, w)
						wb := invRegsB(3, 7, 3, 6, 3)
						wb.b, wb.req = be(w...), pWRegs(7, w)
						wc := invCoils(3, 7, 16, 2, 3)
						wc.b, wc.req = be(uint16(a)), pWCoils(7, 16, be(uint16(a)))
						for _, v := range []inv{invRead("ReadCoils", 3, a, 1+a%2000), invRead("ReadDiscreteInputs", 3, a, 1+a%2000), invRead("ReadInputRegisters", 3, a, 1+a%125), invRead("ReadHoldingRegistersBytes", 3, a, 1+a%125),
							invRead("ReadInputRegistersBytes", 3, a, 1+a%125), invRead("ReadHoldingRegisters", 3, a, 1+a%125), invCoil(3, a, a%2 == 0), invReg(3, a, ^a&0xffff), invReg(3, 7, a), invMask(3, a, uint16(^a), uint16(a>>1)), invMask(3, 7, uint16(a), uint16(a>>3)), invMask(3, 7, uint16(a>>3), uint16(a)), invFIFO(3, a),
							invCoils(3, a, 9, 2, 3), wc, invRegs(3, a, 1, 1, 3), wr, invRegsB(3, a, 2, 4, 3), wb, invRW(false, 3, a, 1, 0xffff-a, 1, 2, 4), invRW(true, 3, 5, 1, a, 2, 4, 4)} {
							v := v
							r.check(&v)
						}
					})
				})
			}
			q.Seq(fmt.Sprintf("%s every value of one register", x), func() {
				r := newC13(x, -1, -1)
				for v := 0; v < 65536; v++ {
					i := invReg(byte(1+v%247), v>>3, v)
					r.check(&i)
				}
			})
		}
	}})
}

func init() {
	regReplySweeps("C14", []xport{xTCP})
	regReplySweeps("C15", []xport{xRTU, xASCII})
	regChecksums("C15")
	regChecksums("C23")
	regExcSweeps()
	full, mid := wireLayouts[5], Layout{cs: 300, cn: 1000, ds: 33000, dn: 700, is: 60000, in: 500, hs: 513, hn: 40}
	regServerSweeps("C06", "", listenWire, full, "requests of all functions at every address, with every value, transaction id, quantity and unit id, tables of full size, in pipelines; replies and tables compared with the model")
	regServerSweeps("C07", "", listenWire, mid, "requests of all functions at every address, with every value, transaction id, quantity and unit id, small tables in the middle, in pipelines; replies and tables compared with the model")
	regServerSweeps("C26", "/reverse", reverseWire, mid, "requests of all functions at every address, with every value, transaction id, quantity and unit id, to a reverse server; replies and tables compared with the model")
	regRequestSweeps()
	regNodeSweeps()
}

// ---- the node itself, and end to end ----

func regNodeSweeps() {
	mids := []Layout{wireLayouts[5], {cs: 1, cn: 65535, ds: 0, dn: 65535, is: 1, in: 65535, hs: 0, hn: 65535}, {cs: 303, cn: 1000, ds: 33001, dn: 701, is: 60000, in: 500, hs: 513, hn: 41}}
	reg(Scenario{Prop: "C01", Name: "every-argument", Desc: "reads and writes at every address, of every quantity from several addresses, and of every value at every bit offset, in full and in small tables", Gen: func(q *Q) {
		for w := range bitAPIs {
			f := &bitAPIs[w]
			for _, l := range mids {
				l := l
				for part := 0; part < 4; part++ {
					part := part
					q.Seq(fmt.Sprintf("%s %v addresses %d/4", f.name, l, part), func() {
						r, m := newReal(7, l), newModel(7, l)
						fill(r, m, 3)
						t := f.tab(m)
						for a := part * 16384; a < (part+1)*16384; a++ {
							if a%64 == 0 {
								vrt.Tick()
							}
							n := 1 + a%23
							bitRead("", f, r, m, a, n)
							bitWrite("", f, r, m, a, n, packPat(a%101, 24))
							bitRead("", f, r, m, a, 1+a*7%40)
							v, err := f.r1(r, uint16(a))
							if t.ok(a, 1) != (err == nil) || err == nil && v != (t.v[a-t.start] == 1) || err != nil && isExc(err) != 2 {
								vrt.Fail("ReadSingle(%s,%d) of table @%d+%d = %v, %v", f.name, a, t.start, t.n, v, err)
							}
							nv := a%3 == 0
							err = f.w1(r, uint16(a), nv)
							if t.ok(a, 1) != (err == nil) || err != nil && isExc(err) != 2 {
								vrt.Fail("WriteSingle(%s,%d,%v) to table @%d+%d: %v", f.name, a, nv, t.start, t.n, err)
							}
							if err == nil {
								t.v[a-t.start] = uint16(b2i(nv))
							}
							if a%4096 == 4095 {
								needSame(r, m, "accesses up to address %d", a)
							}
						}
						needSame(r, m, "all accesses")
					})
				}
				for part := 0; part < 8; part++ {
					part := part
					q.Seq(fmt.Sprintf("%s %v quantities %d/8", f.name, l, part), func() {
						r, m := newReal(7, l), newModel(7, l)
						fill(r, m, 3)
						t := f.tab(m)
						for n := 1 + part; n < 65536; n += 8 {
							if n%64 < 8 {
								vrt.Tick()
							}
							for k, a := range uniq(t.start, t.start+3, t.start+t.n-n, t.start+t.n-n+1, 65536-n, 65536-n+1) {
								if !q.Thorough && n > 5000 && (n/8+k)%24 != 0 && n&255 > 9 && n < 65000 {
									continue
								}
								bitRead("", f, r, m, a, n)
								if k < 3 && (n < 3000 || n%9 == 0) {
									bitWrite("", f, r, m, a, n, packPat(3+n%7, n))
								}
							}
						}
						needSame(r, m, "all accesses")
					})
				}
			}
			q.Seq(f.name+" values at every bit offset", func() {
				l := bitLayouts(geo{40, 64}, w)
				r, m := newReal(7, l), newModel(7, l)
				for old := 0; old < 2; old++ {
					for o := 0; o < 16; o++ {
						for n := 1; n <= 18; n++ {
							vrt.Tick()
							fill(r, m, old)
							for v := 0; v < 256; v++ {
								for _, hi := range []byte{0, 0xff, byte(v), ^byte(v)} {
									bitWrite("", f, r, m, 40+o, n, []byte{byte(v), hi, ^hi})
									bitRead("", f, r, m, 40+o, n)
								}
							}
							needSame(r, m, "values of %d bits at %d", n, 40+o)
						}
					}
				}
			})
		}
	}})
	reg(Scenario{Prop: "C02", Name: "every-argument", Desc: "reads and writes in both forms at every address, of every quantity from several addresses, and of every value, in full and in small tables", Gen: func(q *Q) {
		for w := range wordAPIs {
			f := &wordAPIs[w]
			for _, l := range mids {
				l := l
				for part := 0; part < 4; part++ {
					part := part
					q.Seq(fmt.Sprintf("%s %v addresses %d/4", f.name, l, part), func() {
						r, m := newReal(7, l), newModel(7, l)
						fill(r, m, 3)
						for a := part * 16384; a < (part+1)*16384; a++ {
							if a%64 == 0 {
								vrt.Tick()
							}
							n := 1 + a%5
							wordRead(f, r, m, a, n)
							wordWrite(f, r, m, a, []uint16{uint16(a), uint16(^a), uint16(a * 7), 9, 5}[:n])
							wordRead(f, r, m, a, 1+a%3)
							wordWriteB(f, r, m, a, n, be(uint16(a*3), uint16(^a*5), uint16(a*11), 9, 5)[:2*n])
							if a%4096 == 4095 {
								needSame(r, m, "accesses up to address %d", a)
							}
						}
						needSame(r, m, "all accesses")
					})
				}
				for part := 0; part < 8; part++ {
					part := part
					q.Seq(fmt.Sprintf("%s %v quantities %d/8", f.name, l, part), func() {
						r, m := newReal(7, l), newModel(7, l)
						fill(r, m, 3)
						t := f.tab(m)
						for n := 1 + part; n < 65536; n += 8 {
							vrt.Tick()
							for k, a := range uniq(t.start, t.start+t.n-n, t.start+t.n-n+1, 65536-n+1) {
								if !q.Thorough && n > 1000 && (n/8+k)%64 != 0 && n&255 > 1 && n < 65500 {
									continue
								}
								wordRead(f, r, m, a, n)
								if k < 2 && (n < 300 || n%9 == 0) {
									wordWrite(f, r, m, a, wordsPat(3+n%7, n))
									wordWriteB(f, r, m, a, n, be(wordsPat(4+n%7, n)...))
								}
							}
						}
						needSame(r, m, "all accesses")
					})
				}
			}
			q.Seq(f.name+" every value", func() {
				l := wordLayouts(geo{40, 9}, w)
				r, m := newReal(7, l), newModel(7, l)
				fill(r, m, 3)
				for v := 0; v < 65536; v++ {
					if v%256 == 0 {
						vrt.Tick()
					}
					a := 40 + v%7
					wordWrite(f, r, m, a, []uint16{uint16(v), uint16(^v)})
					wordRead(f, r, m, a, 2)
					wordWriteB(f, r, m, a+1, 1, be(uint16(v)))
					wordRead(f, r, m, a, 2)
				}
				needSame(r, m, "all values")
			})
		}
	}})
	reg(Scenario{Prop: "C03", Name: "every-argument", Desc: "mask writes with every AND mask, OR mask and old value, alone and related to each other, and at every address of full and small tables", Gen: func(q *Q) {
		rel := []struct {
			name string
			f    func(v uint16) (old, and, or uint16)
		}{
			{"and", func(v uint16) (uint16, uint16, uint16) { return 0xa5c3, v, 0x3c69 }},
			{"or", func(v uint16) (uint16, uint16, uint16) { return 0xa5c3, 0x0ff0, v }},
			{"old", func(v uint16) (uint16, uint16, uint16) { return v, 0x0ff0, 0x3c69 }},
			{"and=or", func(v uint16) (uint16, uint16, uint16) { return 0xa5c3, v, v }},
			{"and=^or", func(v uint16) (uint16, uint16, uint16) { return 0xa5c3, v, ^v }},
			{"old=and", func(v uint16) (uint16, uint16, uint16) { return v, v, 0x3c69 }},
			{"old=or", func(v uint16) (uint16, uint16, uint16) { return v, 0x0ff0, v }},
			{"old=^and", func(v uint16) (uint16, uint16, uint16) { return v, ^v, 0x3c69 }},
			{"old=^or", func(v uint16) (uint16, uint16, uint16) { return v, 0x0ff0, ^v }},
			{"all", func(v uint16) (uint16, uint16, uint16) { return v, v, v }},
			{"mixed", func(v uint16) (uint16, uint16, uint16) { return v * 7, v * 13, v * 29 }},
		}
		try := func(r *modbus.NodeRegister, m *MNode, a int, old, and, or uint16) {
			t := &m.hold
			err := r.WriteHoldings(uint16(a), []uint16{old})
			if t.ok(a, 1) != (err == nil) {
				vrt.Fail("WriteHoldings(%d) on table @%d+%d: %v", a, t.start, t.n, err)
			}
			err = r.MaskWriteHolding(uint16(a), and, or)
			Checked()
			if !t.ok(a, 1) {
				if isExc(err) != 2 {
					vrt.Fail("MaskWriteHolding(%d,%04x,%04x) outside table @%d+%d: %v, want illegal data address", a, and, or, t.start, t.n, err)
				}
				return
			}
			want := old&and | or&^and
			t.v[a-t.start] = want
			if w, e := r.ReadHoldings(uint16(a), 1); err != nil || e != nil || w[0] != want {
				vrt.Fail("MaskWriteHolding(%d,%04x,%04x) of %04x in table @%d+%d: %v, register is %x (%v), want %x", a, and, or, old, t.start, t.n, err, w, e, want)
			}
		}
		for _, k := range rel {
			k := k
			q.Seq("every "+k.name, func() {
				l := wordLayouts(geo{40, 9}, 0)
				r, m := newReal(7, l), newModel(7, l)
				fill(r, m, 3)
				for v := 0; v < 65536; v++ {
					if v%256 == 0 {
						vrt.Tick()
					}
					o, a, b := k.f(uint16(v))
					try(r, m, 40+v%9, o, a, b)
				}
				needSame(r, m, "all masks")
			})
		}
		for _, l := range mids {
			l := l
			q.Seq(fmt.Sprintf("%v every address", l), func() {
				r, m := newReal(7, l), newModel(7, l)
				fill(r, m, 3)
				for a := 0; a < 65536; a++ {
					if a%256 == 0 {
						vrt.Tick()
					}
					for _, k := range [][3]uint16{{0xa5c3, 0xf0f0, 0x3c69}, {uint16(a), 0xffff, 1}, {1, 0, uint16(a)}, {0xa5c3, uint16(a), uint16(^a)}} {
						try(r, m, a, k[0], k[1], k[2])
					}
				}
				needSame(r, m, "all addresses")
			})
		}
	}})
	reg(Scenario{Prop: "C29", Name: "every-argument", Desc: "every kind of call at every address (quick: every high and low byte), with every quantity and value, written by one client and read by another", Gen: func(q *Q) {
		for li, l := range mids {
			l := l
			if li == 1 && !q.Thorough {
				continue
			}
			for part := 0; part < 8; part++ {
				part := part
				q.Seq(fmt.Sprintf("%v addresses %d/8", l, part), func() {
					t := newE2E([]byte{9}, []Layout{l}, 2)
					k := 0
					sweep(q.Thorough, func(a int) {
						if k++; k%8 != part {
							return
						}
						for _, cl := range []call{eCoil(9, a, a%2 == 0), eRead(0, 9, a, 1+a%30), eCoils(9, a, 1+a%37, a%31), eRead(0, 9, a, 1+a%40), eRead(1, 9, a, 1+a%33),
							eReg(9, a, a^0x5a5a), eRead(5, 9, a, 1+a%4), eRegs(9, a, 1+a%6, a%31, a%2 == 0), eRead(4, 9, a, 1+a%7), eRead(3, 9, a, 1+a%5), eRead(2, 9, a, 1+a%5),
							eMask(9, a, uint16(a), uint16(a>>3)), eRW(9, a, 1+a%4, a, 1+a%3, a%29, a%2 == 0), eRW(9, a, 2, 0xffff-a, 2, a%29, a%2 == 1), eRead(5, 9, a, 1)} {
							cl := cl
							t.step(k%2, &cl)
							k++
						}
						k -= 15
					})
					t.w.needSame("all addresses")
					t.stop()
				})
			}
		}
		l := Layout{cs: 303, cn: 2100, ds: 33001, dn: 2100, is: 60000, in: 200, hs: 513, hn: 200}
		for part := 0; part < 8; part++ {
			part := part
			q.Seq(fmt.Sprintf("quantities %d/8", part), func() {
				t := newE2E([]byte{9}, []Layout{l}, 2)
				for n := 1 + part; n <= 2000; n += 8 {
					a := l.cs + n%50
					cs := []call{eRead(0, 9, a, n), eRead(1, 9, l.ds+n%50, n)}
					if n <= 1968 {
						cs = append(cs, eCoils(9, a, n, 3+n%9), eRead(0, 9, a, n))
					}
					if n <= 125 {
						cs = append(cs, eRead(2, 9, l.is+n%7, n), eRead(3, 9, l.is+n%9, n), eRead(4, 9, l.hs+n%7, n), eRead(5, 9, l.hs+n%9, n), eRW(9, l.hs, n, l.hs+1, 1+n%121, 3+n%7, n%16 < 8))
					}
					if n <= 123 {
						cs = append(cs, eRegs(9, l.hs+n%11, n, 3+n%7, n%16 < 8), eRead(5, 9, l.hs+n%11, n))
					}
					if n <= 121 {
						cs = append(cs, eRW(9, l.hs, 1+n%125, l.hs+2, n, 3+n%7, n%16 >= 8), eRead(4, 9, l.hs, 125))
					}
					for i := range cs {
						t.step(i%2, &cs[i])
					}
				}
				t.w.needSame("all quantities")
				t.stop()
			})
			q.Seq(fmt.Sprintf("values %d/8", part), func() {
				t := newE2E([]byte{9}, []Layout{l}, 2)
				for v := part; v < 65536; v += 8 {
					a := l.hs + v%7
					cs := []call{eReg(9, a, v), eRead(5-v/8%2, 9, a, 1)}
					if q.Thorough || v&255 == v>>8 || v>>8 == 0x33 || v&255 == 0x22+part {
						cs = append(cs, eMask(9, a, uint16(v), uint16(v*5)), eRead(5, 9, a, 1), eMask(9, a, uint16(v*5), uint16(v)), eRead(5, 9, a, 1))
					}
					for i := range cs {
						t.step(i%2, &cs[i])
					}
				}
				t.w.needSame("all values")
				t.stop()
			})
		}
	}})
}
