package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// ---- C23: checksums ----

func crcOK(b []byte) {
	if got, want := modbus.CRC16(b), crcRef(b); got != want {
		vrt.Fail("CRC16 of %d bytes [%s] is %04x, want %04x", len(b), hexs(b), got, want)
	}
	nChecks++
}

func lrcOK(b []byte) {
	var l modbus.LRC
	if got, want := l.Reset().Push(b...).Value(), lrcRef(b); got != want {
		vrt.Fail("LRC of %d bytes [%s] is %02x, want %02x", len(b), hexs(b), got, want)
	}
	nChecks++
}

// corrupt makes the call with the reply replaced by its corrupted form s.
func corrupt(x xport, cl *call, s []byte) {
	vrt.Tick()
	g := newRig(x, func(g *rig, e *exch) {
		if e.n == 0 {
			g.send(e, 0, s)
		}
	})
	got, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	nChecks++
	if err == nil && show(got) != show(cl.conv(cl.rsp)) {
		vrt.Fail("%s over %s accepted the corrupted reply [%s] as %s; uncorrupted it says %s", cl.name, x, hexs(s), show(got), show(cl.conv(cl.rsp)))
	}
}

func regC23() {
	reg(Scenario{Prop: "C23", Name: "crc-values", Desc: "CRC-16 of every byte string up to length 2 (thorough: 3) and of every length up to 600 with a basis of patterns", Gen: func(q *Q) {
		for c := 0; c < 256; c++ {
			c := byte(c)
			q.Seq(fmt.Sprintf("strings beginning %02x", c), func() {
				vrt.Tick()
				crcOK(nil)
				crcOK([]byte{})
				crcOK([]byte{c})
				lrcOK(nil)
				lrcOK([]byte{c})
				b := []byte{c, 0, 0}
				for i := 0; i < 256; i++ {
					b[1] = byte(i)
					crcOK(b[:2])
					lrcOK(b[:2])
					if q.Thorough {
						for j := 0; j < 256; j++ {
							b[2] = byte(j)
							crcOK(b)
							lrcOK(b)
						}
					}
				}
			})
		}
		step := q.N(7, 1)
		for n := 3; n <= 600; n++ {
			n := n
			q.Seq(fmt.Sprintf("length %d", n), func() {
				vrt.Tick()
				b := make([]byte, n)
				for _, v := range []byte{0, 0xff, 0x80, 1, 0x55} {
					for i := range b {
						b[i] = v
					}
					crcOK(b)
					lrcOK(b)
				}
				// every single bit of the message (the checksum is linear)
				z := make([]byte, n)
				for i := n % step; i < n; i += step {
					for k := 0; k < 8; k++ {
						z[i] = 1 << uint(k)
						crcOK(z)
						lrcOK(z)
					}
					z[i] = 0
				}
				for p := 3; p < 8; p++ {
					w := be(wordsPat(p, n)...)[:n]
					crcOK(w)
					lrcOK(w)
				}
			})
		}
		q.Seq("check value", func() {
			if v := modbus.CRC16([]byte("123456789")); v != 0x4b37 {
				vrt.Fail("CRC16 of \"123456789\" is %04x, want 4b37", v)
			}
			Checked()
		})
	}})
	reg(Scenario{Prop: "C23", Name: "lrc-pieces", Desc: "the LRC fed in every split into up to three pieces, read in between, and reset", Gen: func(q *Q) {
		for n := 0; n <= q.N(24, 64); n++ {
			n := n
			q.Seq(fmt.Sprintf("length %d", n), func() {
				vrt.Tick()
				b := be(wordsPat(4, n)...)[:n]
				var l modbus.LRC
				for i := 0; i <= n; i++ {
					for j := i; j <= n; j++ {
						l.Reset()
						l.Push(b[:i]...)
						if l.Value() != lrcRef(b[:i]) {
							vrt.Fail("LRC after the first %d of %d bytes is wrong", i, n)
						}
						l.Push(b[i:j]...).Push(b[j:]...)
						if v := l.Value(); v != lrcRef(b) || v != l.Value() {
							vrt.Fail("LRC of [%s] fed as %d+%d+%d bytes is %02x, want %02x", hexs(b), i, j-i, n-j, v, lrcRef(b))
						}
						Checked()
					}
				}
				if v := l.Reset().Value(); v != 0 {
					vrt.Fail("a reset LRC is %02x", v)
				}
			})
		}
	}})
	reg(Scenario{Prop: "C23", Name: "first-use", Race: true, Desc: "the first use of the CRC by two or three goroutines at once, every interleaving within the preemption bound", Gen: func(q *Q) {
		for n := 2; n <= 3; n++ {
			n := n
			q.Case(Case{Name: fmt.Sprintf("%d goroutines", n), P: q.N(2, 3), Body: func() {
				var ths []*vrt.Thread
				for i := 0; i < n; i++ {
					i := i
					ths = append(ths, vrt.GoNamed(fmt.Sprint("user", i), func() {
						for k := 0; k < 2; k++ {
							b := be(wordsPat(i+3+k, 5)...)
							got := modbus.CRC16(b)
							Checked()
							if got != crcRef(b) {
								vrt.Fail("concurrent first use: CRC16 of [%s] is %04x, want %04x", hexs(b), got, crcRef(b))
							}
						}
					}))
				}
				for _, t := range ths {
					vrt.Join(t)
				}
			}})
		}
		q.Case(Case{Name: "two RTU clients", P: q.N(2, 3), Body: func() {
			var ths []*vrt.Thread
			gs := []*rig{newEnv(xRTU)}
			gs = append(gs, newEnvOn(xRTU, gs))
			for i, g := range gs {
				g := g
				cl := calls(byte(3+i), i)[6]
				g.handle = func(e *exch) { g.reply(e, cl.rsp) }
				ths = append(ths, vrt.GoNamed(fmt.Sprint("client", i), func() {
					c := modbus.NewClient(g.provider())
					got, err := attempt(cl.name, func() (interface{}, error) { return cl.do(c) })
					if err != nil || show(got) != show(cl.conv(cl.rsp)) || len(g.reqs) != 1 || !bytes.Equal(g.reqs[0].raw, g.frame(0, cl.unit, cl.req)) {
						vrt.Fail("two clients at once: %s sent %s and returned %s, %v", cl.name, g.sent(), show(got), err)
					}
				}))
			}
			for _, t := range ths {
				vrt.Join(t)
			}
		}})
	}})
	for _, x := range []xport{xRTU, xASCII} {
		x := x
		reg(Scenario{Prop: "C23", Name: "corrupt-bytes/" + x.String(), Desc: "every byte of a correct reply replaced by every other value: an error or the uncorrupted content", Gen: func(q *Q) {
			for k := 0; k < 4; k++ {
				all := append(calls(17, k), pduCalls(calls(17, k))...)
				for i := range all {
					cl := &all[i]
					if !q.Thorough && (k == 2 || k > 0 && i >= 15) {
						continue
					}
					n := len((&rig{t: x}).frame(0, cl.unit, cl.rsp))
					for lo := 0; lo < n; lo += 16 {
						lo := lo
						q.Seq(fmt.Sprintf("%s k=%d bytes %d-%d", cl.name, k, lo, lo+15), func() {
							fr := (&rig{t: x}).frame(0, cl.unit, cl.rsp)
							for i := lo; i < lo+16 && i < n; i++ {
								for v := 0; v < 256; v++ {
									if byte(v) != fr[i] {
										corrupt(x, cl, put(fr, i, byte(v)))
									}
								}
							}
						})
					}
				}
			}
		}})
	}
	reg(Scenario{Prop: "C23", Name: "corrupt-bursts/rtu", Desc: "every error burst up to 8 (thorough: 12, and 16 for three calls) bits at every position of a correct RTU reply", Gen: func(q *Q) {
		for _, k := range []int{0, 3} {
			all := append(calls(17, k), pduCalls(calls(17, k))...)
			for i := range all {
				cl := &all[i]
				if !q.Thorough && k > 0 && i >= 15 {
					continue
				}
				w := q.N(8, 12)
				if q.Thorough && k == 0 && (i == 5 || i == 8 || i == 16) {
					w = 16
				}
				fr := fRTU(cl.unit, cl.rsp)
				for at := 0; at < 8*len(fr); at++ {
					at := at
					q.Seq(fmt.Sprintf("%s k=%d at bit %d", cl.name, k, at), func() {
						for b := uint32(1); b < 1<<uint(w); b += 2 {
							s := append([]byte(nil), fr...)
							out := false
							for j := 0; j < w; j++ {
								if b>>uint(j)&1 != 0 {
									p := at + j
									if p >= 8*len(s) {
										out = true
										break
									}
									s[p/8] ^= 1 << uint(p%8)
								}
							}
							if !out {
								corrupt(xRTU, cl, s)
							}
						}
					})
				}
			}
		}
	}})
}

// ---- C29: end to end ----

// ecall is a typed call on the real stack with the request it stands for.
func eRead(i int, unit byte, a, q int) call {
	fc := []byte{1, 2, 4, 4, 3, 3}[i]
	A, Q := uint16(a), uint16(q)
	return call{name: fmt.Sprintf("%s(%d,%d)", readNames[i], a, q), unit: unit, req: pRead(fc, a, q), conv: map[bool]func([]byte) interface{}{true: resWords(2), false: resBytes(2)}[i == 3 || i == 5],
		do: func(c modbus.Client) (interface{}, error) {
			switch i {
			case 0:
				return c.ReadCoils(unit, A, Q)
			case 1:
				return c.ReadDiscreteInputs(unit, A, Q)
			case 2:
				return c.ReadInputRegistersBytes(unit, A, Q)
			case 3:
				return c.ReadInputRegisters(unit, A, Q)
			case 4:
				return c.ReadHoldingRegistersBytes(unit, A, Q)
			}
			return c.ReadHoldingRegisters(unit, A, Q)
		}}
}

func eDo(name string, unit byte, req []byte, f func(c modbus.Client) error) call {
	return call{name: name, unit: unit, req: req, conv: resNone, do: func(c modbus.Client) (interface{}, error) { return nil, f(c) }}
}

func eCoil(unit byte, a int, on bool) call {
	v := 0
	if on {
		v = 0xff00
	}
	return eDo(fmt.Sprintf("WriteSingleCoil(%d,%v)", a, on), unit, pW1(5, a, v), func(c modbus.Client) error { return c.WriteSingleCoil(unit, uint16(a), on) })
}

func eCoils(unit byte, a, q, pat int) call {
	b := packPat(pat, q)
	return eDo(fmt.Sprintf("WriteMultipleCoils(%d,%d,#%d)", a, q, pat), unit, pWCoils(a, q, b), func(c modbus.Client) error { return c.WriteMultipleCoils(unit, uint16(a), uint16(q), b) })
}

func eReg(unit byte, a, v int) call {
	return eDo(fmt.Sprintf("WriteSingleRegister(%d,%04x)", a, v), unit, pW1(6, a, v), func(c modbus.Client) error { return c.WriteSingleRegister(unit, uint16(a), uint16(v)) })
}

func eRegs(unit byte, a, q, pat int, bytes bool) call {
	w := wordsPat(pat, q)
	return eDo(fmt.Sprintf("WriteMultipleRegisters(%d,%d,#%d,bytes=%v)", a, q, pat, bytes), unit, pWRegs(a, w), func(c modbus.Client) error {
		if bytes {
			return c.WriteMultipleRegistersBytes(unit, uint16(a), uint16(q), be(w...))
		}
		return c.WriteMultipleRegisters(unit, uint16(a), uint16(q), w)
	})
}

func eMask(unit byte, a int, and, or uint16) call {
	return eDo(fmt.Sprintf("MaskWriteRegister(%d,%04x,%04x)", a, and, or), unit, pMask(a, and, or), func(c modbus.Client) error { return c.MaskWriteRegister(unit, uint16(a), and, or) })
}

func eRW(unit byte, ra, rq, wa, wq, pat int, asBytes bool) call {
	w := wordsPat(pat, wq)
	cl := call{name: fmt.Sprintf("ReadWriteMultipleRegisters(%d,%d,%d,%d,#%d,bytes=%v)", ra, rq, wa, wq, pat, asBytes), unit: unit, req: pRW(ra, rq, wa, w), conv: resWords(2)}
	cl.do = func(c modbus.Client) (interface{}, error) {
		return c.ReadWriteMultipleRegisters(unit, uint16(ra), uint16(rq), uint16(wa), uint16(wq), be(w...))
	}
	if asBytes {
		cl.conv = resBytes(2)
		cl.do = func(c modbus.Client) (interface{}, error) {
			return c.ReadWriteMultipleRegistersBytes(unit, uint16(ra), uint16(rq), uint16(wa), uint16(wq), be(w...))
		}
	}
	return cl
}

func eFIFO(unit byte, a int) call {
	return call{name: fmt.Sprintf("ReadFIFOQueue(%d)", a), unit: unit, req: pFIFO(a), conv: resBytes(5), do: func(c modbus.Client) (interface{}, error) { return c.ReadFIFOQueue(unit, uint16(a)) }}
}

func ePdu(unit byte, req []byte) call {
	return call{name: fmt.Sprintf("SendPdu[%s]", hexs(req)), unit: unit, req: req, conv: resBytes(0), do: func(c modbus.Client) (interface{}, error) { return c.SendPdu(unit, req) }}
}

// e2e is the real server with real clients on one network.
type e2e struct {
	sv *server
	w  *wire
	cs []modbus.Client
}

func newE2E(units []byte, ls []Layout, clients int) *e2e {
	t := &e2e{w: &wire{RT: tm.RT}}
	nodes := t.w.nodesFor(units, ls)
	t.sv = startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, nodes...)
	for i := 0; i < clients; i++ {
		t.cs = append(t.cs, modbus.NewClient(modbus.NewTCPClientProvider(t.sv.addr, modbus.WithTCPTimeout(cliTimeout))))
	}
	return t
}

// eResult renders what a call must return on a node in the model's state.
func eResult(m *MNode, cl *call) string {
	rsp := m.Exec(cl.req)
	if rsp[0]&0x80 != 0 {
		return fmt.Sprintf("exception %d", rsp[1])
	}
	return show(cl.conv(rsp))
}

func eGot(v interface{}, err error) string {
	if err == nil {
		return show(v)
	}
	if k := isExc(err); k >= 0 {
		return fmt.Sprintf("exception %d", k)
	}
	return "error: " + err.Error()
}

func (t *e2e) step(i int, cl *call) {
	vrt.Tick()
	c := t.cs[i]
	v, err := attempt(cl.name, func() (interface{}, error) { return cl.do(c) })
	Checked()
	m := t.w.models[cl.unit]
	if m == nil {
		if err == nil || isExc(err) >= 0 {
			vrt.Fail("client %d: %s on the absent unit %d returned %s", i, cl.name, cl.unit, eGot(v, err))
		}
		return
	}
	if want, got := eResult(m, cl), eGot(v, err); got != want {
		vrt.Fail("client %d, unit %d: %s returned %s, the model says %s", i, cl.unit, cl.name, got, want)
	}
}

func (t *e2e) stop() {
	for _, c := range t.cs {
		_ = c.Close()
	}
	_ = t.sv.s.Close()
}

// around are legal-quantity calls over a table of one unit: inside, at both
// ends and one past them.
func eAlphabet(u byte, l Layout) []call {
	var r []call
	c0, cN, h0, hN := l.cs, l.cs+l.cn, l.hs, l.hs+l.hn
	r = append(r,
		eRead(0, u, c0, l.cn), eRead(0, u, cN-3, 3), eRead(0, u, cN-3, 4), eRead(1, u, l.ds, l.dn), eRead(1, u, l.ds+l.dn-1, 2),
		eRead(2, u, l.is, l.in), eRead(3, u, l.is+1, 2), eRead(3, u, l.is+l.in-1, 2),
		eRead(4, u, h0, l.hn), eRead(5, u, hN-2, 2), eRead(5, u, hN-1, 2), eRead(5, u, h0, l.hn),
		eCoil(u, c0, true), eCoil(u, c0, false), eCoil(u, cN-1, true), eCoil(u, cN, true), eCoils(u, c0+1, 9, 3), eCoils(u, cN-8, 8, 4), eCoils(u, cN-8, 9, 1),
		eReg(u, h0, 0xff00), eReg(u, hN-1, 0x8001), eReg(u, hN, 1), eRegs(u, h0, 2, 5, false), eRegs(u, hN-3, 3, 6, true), eRegs(u, hN-1, 2, 6, false),
		eMask(u, h0, 0x00f2, 0x1225), eMask(u, hN-1, 0xff0f, 0x0010), eMask(u, hN, 0, 1),
		eRW(u, h0, 3, h0+1, 2, 7, false), eRW(u, hN-2, 2, h0, 1, 8, true), eRW(u, hN-1, 2, h0, 2, 9, false), eRW(u, h0, 2, hN-1, 2, 9, true),
		eFIFO(u, h0), ePdu(u, pRead(3, h0+1, 2)), ePdu(u, []byte{0x2b, 0x0e, 1, 0}))
	if c0 > 0 {
		r = append(r, eRead(0, u, c0-1, 2), eReg(u, h0-1, 1), eMask(u, h0-1, 0, 1), eCoil(u, c0-1, true))
	}
	return r
}

func regC29() {
	ls := []Layout{{0, 20, 0, 11, 0, 4, 0, 5}, {19, 20, 107, 13, 8, 5, 40, 6}, {65500, 36, 65520, 16, 65530, 6, 65525, 11}}
	reg(Scenario{Prop: "C29", Name: "sequences", Desc: "every sequence of two (thorough: three) calls of a 40-call alphabet, alternating between two clients and two units of different layout", Gen: func(q *Q) {
		for li := range ls {
			l, l2 := ls[li], ls[(li+1)%len(ls)]
			ab := eAlphabet(1, l)
			for i := range ab {
				for swap := 0; swap < 2; swap++ {
					i, swap := i, swap
					q.Seq(fmt.Sprintf("%v first %s by client %d", l, ab[i].name, swap), func() {
						t := newE2E([]byte{1, 247}, []Layout{l, l2}, 2)
						ab := eAlphabet(1, l)
						other := eAlphabet(247, l2)
						for j := range ab {
							t.step(swap, &ab[i])
							t.step(1-swap, &ab[j])
							t.step(swap, &other[(i*7+j)%len(other)])
							for k := range ab {
								if q.Thorough || k == i || k == j || (i+3*j+k)%7 == 0 {
									t.step(swap, &ab[i])
									t.step(1-swap, &ab[j])
									if k != i && k%2 == 1 {
										t.step(1-swap, &ab[k])
									} else {
										t.step(swap, &ab[k])
									}
								}
							}
							t.w.needSame("%s, %s", ab[i].name, ab[j].name)
						}
						t.stop()
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C29", Name: "quantities", Desc: "every kind of call with the quantities around the protocol limits (thorough: all) at the start, middle and end of large tables, written and read back through another client", Gen: func(q *Q) {
		big := []Layout{{0, 4100, 0, 2500, 0, 300, 0, 300}, {61000, 4536, 63036, 2500, 65236, 300, 65236, 300}, {300, 2000, 301, 2001, 302, 125, 303, 125}, {5, 17, 6, 9, 7, 3, 8, 2}}
		bq := []int{1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 257, 1023, 1024, 1967, 1968, 1999, 2000}
		rq := []int{1, 2, 3, 63, 64, 99, 120, 121, 122, 123, 124, 125}
		if q.Thorough {
			bq, rq = nil, nil
			for i := 1; i <= 2000; i++ {
				bq = append(bq, i)
			}
			for i := 1; i <= 125; i++ {
				rq = append(rq, i)
			}
		}
		places := func(s, n, k int) []int {
			return uniq(s, s+1, s+n/2, s+n-k-1, s+n-k, s+n-k+1, s+n-1)
		}
		for _, l := range big {
			l := l
			ok := func(as []int) []int {
				var r []int
				for _, a := range as {
					if a >= 0 && a <= 65535 {
						r = append(r, a)
					}
				}
				return r
			}
			for _, n := range bq {
				n := n
				q.Seq(fmt.Sprintf("%v bits %d", l, n), func() {
					t := newE2E([]byte{9}, []Layout{l}, 2)
					for p, a := range ok(places(l.cs, l.cn, n)) {
						if n <= 1968 {
							cl := eCoils(9, a, n, 3+p)
							t.step(0, &cl)
						}
						cl := eRead(0, 9, a, n)
						t.step(1, &cl)
					}
					for _, a := range ok(places(l.ds, l.dn, n)) {
						cl := eRead(1, 9, a, n)
						t.step(0, &cl)
					}
					t.w.needSame("calls for %d bits", n)
					t.stop()
				})
			}
			for _, n := range rq {
				n := n
				q.Seq(fmt.Sprintf("%v registers %d", l, n), func() {
					t := newE2E([]byte{9}, []Layout{l}, 2)
					for p, a := range ok(places(l.hs, l.hn, n)) {
						for by := 0; by < 2; by++ {
							if n <= 123 {
								cl := eRegs(9, a, n, 3+p+by, by == 1)
								t.step(0, &cl)
							}
							cl := eRead(4+by, 9, a, n)
							t.step(1, &cl)
							for _, m := range uniq(1, 2, 120, 121) {
								for _, b := range ok(places(l.hs, l.hn, m)) {
									cl := eRW(9, a, n, b, m, 3+p+m, by == 1)
									t.step(m%2, &cl)
									if n <= 121 {
										cl = eRW(9, b, m, a, n, 4+p+m, by == 1)
										t.step(m%2, &cl)
									}
								}
							}
						}
					}
					for _, a := range ok(places(l.is, l.in, n)) {
						for by := 2; by < 4; by++ {
							cl := eRead(by, 9, a, n)
							t.step(0, &cl)
						}
					}
					t.w.needSame("calls for %d registers", n)
					t.stop()
				})
			}
		}
	}})
	reg(Scenario{Prop: "C29", Name: "units", Desc: "every unit id answered or not, several units served at once, each with tables of its own", Gen: func(q *Q) {
		for _, set := range [][]byte{{1}, {1, 2, 247}, {17, 18}, {}} {
			set := set
			q.Seq(fmt.Sprintf("units %v", set), func() {
				var lay []Layout
				for i := range set {
					lay = append(lay, ls[i%len(ls)])
				}
				t := newE2E(set, lay, 2)
				for u := 1; u <= 247; u++ {
					l := ls[0]
					if m := t.w.models[byte(u)]; m != nil {
						for i := range set {
							if set[i] == byte(u) {
								l = lay[i]
							}
						}
					}
					ab := eAlphabet(byte(u), l)
					for i := range ab {
						if t.w.models[byte(u)] != nil || i == u%len(ab) {
							t.step((i+u)%2, &ab[i])
						}
					}
				}
				t.w.needSame("calls for all units")
				t.stop()
			})
		}
	}})
	reg(Scenario{Prop: "C29", Name: "reconnecting", Desc: "the server is stopped and started between calls, or the client closed and connected again: errors in between, afterwards the tables are as they were", Gen: func(q *Q) {
		ab := eAlphabet(1, ls[1])
		for i := range ab {
			for kind := 0; kind < 3; kind++ {
				i, kind := i, kind
				q.Seq(fmt.Sprintf("%s, %s", ab[i].name, []string{"server restarts", "client reconnects", "both"}[kind]), func() {
					t := newE2E([]byte{1}, ls[1:2], 2)
					ab := eAlphabet(1, ls[1])
					t.step(0, &ab[i])
					t.step(1, &ab[(i+5)%len(ab)])
					if kind != 1 {
						_ = t.sv.s.Close()
						v, err := attempt(ab[i].name, func() (interface{}, error) { return ab[i].do(t.cs[0]) })
						if err == nil || isExc(err) >= 0 {
							vrt.Fail("%s while the server is closed returned %s", ab[i].name, eGot(v, err))
						}
						vrt.Join(t.sv.th)
						t.sv.serve()
					}
					for _, c := range t.cs {
						if kind != 0 {
							_ = c.Close()
						}
						if err := c.Connect(); err != nil && kind != 0 {
							vrt.Fail("Connect to the running server: %v", err)
						}
					}
					if kind == 0 {
						// the second client has not noticed yet
						_, _ = attempt("", func() (interface{}, error) { return t.cs[1].ReadCoils(1, 19, 1) })
					}
					for j := range ab {
						t.step(j%2, &ab[j])
					}
					t.w.needSame("all calls")
					t.stop()
				})
			}
		}
	}})
	reg(Scenario{Prop: "C29", Name: "concurrent", Race: true, Desc: "two clients calling at the same time, one or two calls each, all interleavings within the preemption bound; linearized against the register model", Gen: func(q *Q) {
		l := ls[1]
		h := l.hs
		ops := func(k int) []call {
			return []call{
				eRW(1, h, 3, h, 2, 5+k, false), eRW(1, h, 2, h+1, 2, 8+k, true), eMask(1, h+1, 0x0ff0, uint16(0x1230+k)), eMask(1, h+1, 0xff00, uint16(0x0056+k)),
				eRegs(1, h, 3, 11+k, false), eReg(1, h+1, 0x8880+k), eRead(5, 1, h, 3), eRead(4, 1, h+1, 2), eCoils(1, l.cs, 9, 13+k), eRead(0, 1, l.cs, 9), eCoil(1, l.cs+3, k == 0), eRead(5, 1, h+l.hn-1, 2),
			}
		}
		n := len(ops(0))
		run := func(prog [][]int) func() {
			return func() {
				t := newE2E([]byte{1}, []Layout{l}, len(prog))
				for i, c := range t.cs {
					if err := c.Connect(); err != nil {
						vrt.Fail("client %d: Connect: %v", i, err)
					}
				}
				vrt.Settle()
				var hist []*linOp
				var ths []*vrt.Thread
				for i := range prog {
					i := i
					ths = append(ths, vrt.GoNamed(fmt.Sprint("client", i), func() {
						os := ops(i)
						for _, k := range prog[i] {
							cl := os[k]
							h := &linOp{thr: i, name: cl.name, call: stamp(), apply: func(m *MNode) string { return eResult(m, &cl) }}
							v, err := attempt(cl.name, func() (interface{}, error) { return cl.do(t.cs[i]) })
							h.ret, h.got = stamp(), eGot(v, err)
							hist = append(hist, h)
						}
					}))
				}
				for _, th := range ths {
					vrt.Join(th)
				}
				vrt.Settle()
				why := ""
				if s := linearizable(hist, t.w.models[1], func(f *MNode) bool { why = same(t.w.reals[1], f); return why == "" }); s != "" {
					vrt.Fail("%s\n  %s", s, why)
				}
				o := ""
				for _, h := range hist {
					o += fmt.Sprint(h.thr, h.got, ";")
				}
				Outcome(o)
				t.stop()
			}
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if q.Race && (a+b)%3 != 0 {
					continue
				}
				q.Case(Case{Name: fmt.Sprintf("%s || %s", ops(0)[a].name, ops(1)[b].name), P: q.N(1, 2), BC: 1, Body: run([][]int{{a}, {b}})})
				if (a*5+b)%q.N(9, 2) == 0 && !q.Race {
					q.Case(Case{Name: fmt.Sprintf("%s, + || %s, +", ops(0)[a].name, ops(1)[b].name), P: 1, BC: 1, Body: run([][]int{{a, 6}, {b, 0}})})
				}
			}
		}
		q.Case(Case{Name: "three clients", P: 1, BC: 1, Body: run([][]int{{0}, {2}, {6}})})
	}})
}

// ---- C30: logging ----

type memLog struct{ lines []string }

func (l *memLog) Errorf(f string, v ...interface{}) { l.add(f, v...) }
func (l *memLog) Debugf(f string, v ...interface{}) { l.add(f, v...) }
func (l *memLog) add(f string, v ...interface{}) {
	l.lines = append(l.lines, fmt.Sprintf(f, v...))
}

func (l *memLog) take() string {
	s := strings.Join(l.lines, "\n")
	l.lines = nil
	return s
}

// shows says whether a log shows a frame, in hexadecimal or verbatim.
func shows(log string, frame []byte) bool {
	sq := strings.ToLower(strings.NewReplacer(" ", "", ",", "", "0x", "").Replace(log))
	return strings.Contains(sq, hex.EncodeToString(frame)) || strings.Contains(log, string(frame)) || strings.Contains(log, fmt.Sprintf("%q", frame)) || strings.Contains(log, strings.TrimSpace(string(frame))) && len(frame) > 8
}

// stdout is a file that stands in for os.Stdout while something is built.
var stdout struct {
	once sync.Once
	f    *os.File
}

func stdFile() *os.File {
	stdout.once.Do(func() {
		f, err := os.CreateTemp("", "mc-stdout")
		if err != nil {
			panic(err)
		}
		_ = os.Remove(f.Name())
		stdout.f = f
	})
	return stdout.f
}

// withStdout runs f with os.Stdout replaced; what loggers made in it write ends
// up in the file.
func withStdout(f func()) {
	old := os.Stdout
	os.Stdout = stdFile()
	stdTake()
	defer func() { os.Stdout = old }()
	f()
}

func stdTake() string {
	f := stdFile()
	n, _ := f.Seek(0, 1)
	b := make([]byte, n)
	_, _ = f.ReadAt(b, 0)
	_ = f.Truncate(0)
	_, _ = f.Seek(0, 0)
	return string(b)
}

type logCall struct {
	cl    call
	reply func(g *rig, e *exch) []byte // nil: silence
	good  bool                         // a proper frame comes back
}

func logScript(x xport, k int) []logCall {
	var r []logCall
	cs := calls(17, k)
	if x == xTCP || true {
		cs = append(cs, pduCalls(calls(17, k))[6])
	}
	for i := range cs {
		cl := cs[i]
		r = append(r, logCall{cl, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, cl.rsp) }, true})
	}
	c := calls(17, k)[5]
	r = append(r,
		logCall{c, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, []byte{c.req[0] | 0x80, 2}) }, true},
		logCall{c, nil, false},
		logCall{c, func(g *rig, e *exch) []byte {
			f := g.frame(e.tid, e.unit, c.rsp)
			f[len(f)/2] ^= 0x21
			return f
		}, false},
		logCall{c, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, c.rsp)[:6] }, false},
		logCall{c, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, put(c.rsp, 1, c.rsp[1]+2)) }, false})
	return r
}

// logRun runs a script and returns everything observable; set is called
// before each call, and on tells what the log must do.
func logRun(x xport, script []logCall, opts func(l *memLog) []modbus.ClientProviderOption, set func(c modbus.Client, i int), on func(i int) bool, def bool) string {
	g := newEnv(x)
	cur := 0
	var got []byte
	g.handle = func(e *exch) {
		if rp := script[cur].reply; rp != nil {
			got = rp(g, e)
			g.send(e, 3*ms, got)
		}
	}
	l := &memLog{}
	var c modbus.Client
	mk := func() { c = modbus.NewClient(g.provider(opts(l)...)) }
	take := l.take
	if def {
		withStdout(mk)
		take = stdTake
	} else {
		mk()
	}
	o := ""
	for i := range script {
		vrt.Tick()
		cur, got = i, nil
		g.reqs = nil
		s := &script[i]
		set(c, i)
		v, err := attempt(s.cl.name, func() (interface{}, error) { return s.cl.do(c) })
		Checked()
		o += fmt.Sprintf("%s: sent %s at %d, returned %s %v\n", s.cl.name, g.sent(), vrt.Since0(), show(v), err)
		lg := take()
		switch {
		case !on(i):
			if lg != "" {
				vrt.Fail("%s over %s, logging off: the log says %q", s.cl.name, x, lg)
			}
		default:
			if len(g.reqs) != 1 {
				vrt.Fail("%s over %s sent %s", s.cl.name, x, g.sent())
			}
			if !shows(lg, g.reqs[0].raw) {
				vrt.Fail("%s over %s, logging on: the frame sent [%s] is not in the log %q", s.cl.name, x, hexs(g.reqs[0].raw), lg)
			}
			if s.good && !shows(lg, got) {
				vrt.Fail("%s over %s, logging on: the frame received [%s] is not in the log %q", s.cl.name, x, hexs(got), lg)
			}
		}
	}
	_ = c.Close()
	if lg := take(); lg != "" && !on(len(script)-1) {
		vrt.Fail("logging off, Close over %s: the log says %q", x, lg)
	}
	return o
}

func noOpts(*memLog) []modbus.ClientProviderOption { return nil }
func noSet(modbus.Client, int)                     {}
func never(int) bool                               { return false }
func always(int) bool                              { return true }

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := "nothing"
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("%q became %q", x[i], z)
		}
	}
	return ""
}

func regC30() {
	for _, x := range xports {
		x := x
		reg(Scenario{Prop: "C30", Name: "client-config/" + x.String(), Desc: "all calls, exceptions, silence and damaged replies with logging off, on, and with a provider given in any order: same bytes, results and times; nothing logged when off, every frame when on", Gen: func(q *Q) {
			type cfg struct {
				name string
				opts func(l *memLog) []modbus.ClientProviderOption
				on   bool
				def  bool
			}
			O := func(o ...modbus.ClientProviderOption) []modbus.ClientProviderOption { return o }
			cfgs := []cfg{
				{"provider only", func(l *memLog) []modbus.ClientProviderOption { return O(modbus.WithLogProvider(l)) }, false, false},
				{"enabled, then provider", func(l *memLog) []modbus.ClientProviderOption {
					return O(modbus.WithEnableLogger(), modbus.WithLogProvider(l))
				}, true, false},
				{"provider, then enabled", func(l *memLog) []modbus.ClientProviderOption {
					return O(modbus.WithLogProvider(l), modbus.WithEnableLogger())
				}, true, false},
				{"provider, then nil provider", func(l *memLog) []modbus.ClientProviderOption {
					return O(modbus.WithLogProvider(l), modbus.WithEnableLogger(), modbus.WithLogProvider(nil))
				}, true, false},
				{"two providers", func(l *memLog) []modbus.ClientProviderOption {
					return O(modbus.WithLogProvider(&memLog{}), modbus.WithEnableLogger(), modbus.WithLogProvider(l))
				}, true, false},
				{"default, off", noOpts, false, true},
				{"default, on", func(l *memLog) []modbus.ClientProviderOption { return O(modbus.WithEnableLogger()) }, true, true},
			}
			for k := 0; k < 4; k++ {
				for _, cf := range cfgs {
					k, cf := k, cf
					q.Seq(fmt.Sprintf("%s, calls %d", cf.name, k), func() {
						sc := logScript(x, k)
						base := logRun(x, sc, noOpts, noSet, never, true)
						on := never
						if cf.on {
							on = always
						}
						if o := logRun(x, sc, cf.opts, noSet, on, cf.def); shift(o) != shift(base) {
							vrt.Fail("logging (%s) changes the behaviour over %s: %s", cf.name, x, firstDiff(shift(base), shift(o)))
						}
					})
				}
			}
		}})
		reg(Scenario{Prop: "C30", Name: "client-toggles/" + x.String(), Desc: "every pattern of switching the log between the calls of a script", Gen: func(q *Q) {
			n := q.N(6, 10)
			for w := 0; w < 21; w += n - 2 {
				for def := 0; def < 2; def++ {
					for top := 0; top < 4; top++ {
						w, def, top := w, def, top
						q.Seq(fmt.Sprintf("calls from %d, default provider %d, part %d", w, def, top), func() {
							sc := logScript(x, w%3)
							hi := w + n
							if hi > len(sc) {
								hi = len(sc)
							}
							if w >= hi {
								return
							}
							sc = sc[w:hi]
							base := shift(logRun(x, sc, noOpts, noSet, never, true))
							for pat := top; pat < 1<<uint(len(sc)); pat += 4 {
								on := func(i int) bool { return pat>>uint(i)&1 != 0 }
								opts := func(l *memLog) []modbus.ClientProviderOption {
									return []modbus.ClientProviderOption{modbus.WithLogProvider(l)}
								}
								if def == 1 {
									opts = noOpts
								}
								o := shift(logRun(x, sc, opts, func(c modbus.Client, i int) { c.LogMode(on(i)) }, on, def == 1))
								if o != base {
									vrt.Fail("switching the log in pattern %b changes the behaviour over %s: %s", pat, x, firstDiff(base, o))
								}
							}
						})
					}
				}
			}
		}})
		reg(Scenario{Prop: "C30", Name: "client-inflight/" + x.String(), Race: true, Desc: "the log is switched by another goroutine while calls are under way, every interleaving within the preemption bound", Gen: func(q *Q) {
			for _, i := range []int{5, 9, 15, 16, 17, 18} {
				for start := 0; start < 2; start++ {
					for _, sw := range [][]bool{{true}, {false}, {true, false}, {false, true}, {true, false, true}} {
						i, start, sw := i, start, sw
						q.Case(Case{Name: fmt.Sprintf("call %d, starting with %d, switched %v", i, start, sw), P: q.N(2, 3), BC: 1, Body: func() {
							sc := logScript(x, 0)
							two := []logCall{sc[i], sc[6]}
							base := shift(logRun(x, two, noOpts, noSet, never, true))
							g := newEnv(x)
							cur := 0
							g.handle = func(e *exch) {
								if rp := two[cur].reply; rp != nil {
									g.send(e, 3*ms, rp(g, e))
								}
							}
							l := &memLog{}
							opts := []modbus.ClientProviderOption{modbus.WithLogProvider(l)}
							if start == 1 {
								opts = append(opts, modbus.WithEnableLogger())
							}
							c := modbus.NewClient(g.provider(opts...))
							o := ""
							th := vrt.GoNamed("switch", func() {
								for _, b := range sw {
									c.LogMode(b)
								}
							})
							for j := range two {
								cur = j
								g.reqs = nil
								v, err := attempt(two[j].cl.name, func() (interface{}, error) { return two[j].cl.do(c) })
								Checked()
								o += fmt.Sprintf("%s: sent %s at %d, returned %s %v\n", two[j].cl.name, g.sent(), vrt.Since0(), show(v), err)
							}
							vrt.Join(th)
							if o = shift(o); o != base {
								vrt.Fail("switching the log during calls changes the behaviour over %s: %s", x, firstDiff(base, o))
							}
							Outcome(len(l.lines))
							l.take()
							v, err := attempt("", func() (interface{}, error) { return two[1].cl.do(c) })
							if err != nil {
								vrt.Fail("the call afterwards returned %s, %v", show(v), err)
							}
							if lg := l.take(); sw[len(sw)-1] != shows(lg, g.reqs[len(g.reqs)-1].raw) || !sw[len(sw)-1] && lg != "" {
								vrt.Fail("log last switched to %v, afterwards it says %q", sw[len(sw)-1], lg)
							}
						}})
					}
				}
			}
		}})
	}
	regC30servers()
}

// shift drops the time part's origin: the lines carry times relative to the
// start of the run only if runs start at the same virtual time.
func shift(s string) string {
	ls := strings.Split(s, "\n")
	var t0 int64 = -1
	for i, l := range ls {
		p := strings.LastIndex(l, " at ")
		e := strings.Index(l, ", returned ")
		if p < 0 || e < p {
			continue
		}
		var t int64
		_, _ = fmt.Sscan(l[p+4:e], &t)
		if t0 < 0 {
			t0 = t
		}
		ls[i] = fmt.Sprintf("%s +%d%s", l[:p], t-t0, l[e:])
	}
	return strings.Join(ls, "\n")
}

// logServer is a server whose default logger writes to the stand-in.
type logServer struct {
	mode func(bool)
	conn func() *vnet.TCPConn
	stop func()
	m    *MNode
}

func mkLogServer(reverse bool, early int) *logServer {
	return mkLogServerD(reverse, early, nil, nil, "10.0.0.9:1502")
}

func mkLogServerD(reverse bool, early int, conf func(s interface {
	RegisterFunctionHandler(uint8, modbus.FunctionHandler)
}), dial func() error, remote string, lay ...Layout) *logServer {
	ls := &logServer{}
	l := append(lay, wireLayouts[0])[0]
	r, m := newReal(1, l), newModel(1, l)
	fill(r, m, 3)
	ls.m = m
	if !reverse {
		var s *modbus.TCPServer
		withStdout(func() { s = modbus.NewTCPServer() })
		s.SetReadTimeout(wRT())
		s.SetWriteTimeout(wWT())
		ls.mode = s.LogMode
		if early >= 0 {
			s.LogMode(early == 1)
		}
		s.AddNodes(r)
		if conf != nil {
			conf(s)
		}
		sv := &server{s: s, n: vnet.NewNetwork(), addr: "127.0.0.1:1502"}
		sv.serve()
		ls.conn = sv.connect
		ls.stop = func() {
			_ = s.Close()
			vrt.Join(sv.th)
		}
		return ls
	}
	var s *modbus.TCPServerSpecial
	withStdout(func() { s = modbus.NewTCPServerSpecial() })
	n := vnet.NewNetwork()
	var peer *vnet.TCPConn
	n.OnDial = func(q *vnet.DialReq) vnet.DialPlan {
		if dial != nil {
			if err := dial(); err != nil {
				return vnet.DialPlan{Err: err}
			}
		}
		return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peer = p }}
	}
	if conf != nil {
		conf(s)
	}
	s.SetReadTimeout(wRT()).SetWriteTimeout(wWT()).SetReconnectInterval(300 * ms)
	ls.mode = s.LogMode
	if early >= 0 {
		s.LogMode(early == 1)
	}
	s.AddNodes(r)
	if err := s.AddRemoteServer(remote); err != nil {
		vrt.Fail("AddRemoteServer: %v", err)
	}
	if err := s.Start(); err != nil {
		vrt.Fail("Start: %v", err)
	}
	ls.conn = func() *vnet.TCPConn {
		if peer != nil {
			_ = peer.Close()
			peer = nil
		}
		vrt.Block(func() bool { return peer != nil }, nil)
		vrt.Settle()
		return peer
	}
	ls.stop = func() {
		_ = s.Close()
		if peer != nil {
			_ = peer.Close()
		}
		vrt.Sleep(int64(10 * sec))
	}
	return ls
}

func (ls *logServer) ask(c *vnet.TCPConn, tid int, pdu []byte, on bool) {
	raw := fTCP(tid, 1, pdu)
	want := fTCP(tid, 1, ls.m.Exec(pdu))
	got := ask(c, raw)
	Checked()
	if !bytes.Equal(got, want) {
		vrt.Fail("logging %v: request [%s] is answered [%s], want [%s]", on, hexs(raw), hexs(got), hexs(want))
	}
	lg := stdTake()
	if !on && lg != "" {
		vrt.Fail("logging off: the request [%s] is logged as %q", hexs(raw), lg)
	}
	if on && (!shows(lg, raw) || !shows(lg, want)) {
		vrt.Fail("logging on: the request [%s] or its reply [%s] is missing in the log %q", hexs(raw), hexs(want), lg)
	}
}

func regC30servers() {
	for _, rev := range []bool{false, true} {
		rev := rev
		name := map[bool]string{false: "server", true: "reverse-server"}[rev]
		// a listening server is also switched before it listens
		reg(Scenario{Prop: "C30", Name: name + "-toggles", Desc: "every pattern of switching the log before the start and between the requests of live and new connections: replies per the model, silent when off, every frame when on", Gen: func(q *Q) {
			n := q.N(6, 9)
			for early := -1; early < 2; early++ {
				for part := 0; part < 8; part++ {
					early, part := early, part
					q.Seq(fmt.Sprintf("before the start %d, part %d", early, part), func() {
						reqs := [][]byte{pRead(3, 7, 3), pW1(6, 8, 0x1234), pRead(3, 9, 9), pRW(7, 3, 7, []uint16{0x1111, 0x2222}), pMask(8, 0x0ff0, 0x1234), pRead(1, 5, 9), {0x41, 1, 2}, pWCoils(5, 9, []byte{0x55, 1}), pRead(4, 3, 2)}
						for pat := part; pat < 1<<uint(2*n); pat += 8 {
							if c := pat >> uint(n); !q.Thorough && c != 0 && c != 1<<uint(n-2) && c != 8 {
								continue
							}
							vrt.Tick()
							ls := mkLogServer(rev, early)
							on := early == 1
							c := ls.conn()
							stdTake()
							for i := 0; i < n; i++ {
								if want := pat>>uint(i)&1 != 0; want != on || pat&3 == 0 {
									on = want
									ls.mode(on)
								}
								if pat>>uint(n+i)&1 != 0 { // on a new connection
									if !rev {
										_ = c.Close()
									}
									c = ls.conn()
									if lg := stdTake(); lg != "" && !on {
										vrt.Fail("logging off: connecting is logged as %q", lg)
									}
								}
								ls.ask(c, 5+i, reqs[i%len(reqs)], on)
							}
							ls.stop()
							if lg := stdTake(); lg != "" && !on {
								vrt.Fail("logging off: closing is logged as %q", lg)
							}
						}
					})
				}
			}
		}})
		reg(Scenario{Prop: "C30", Name: name + "-failures", Desc: "everything a server has reason to complain about - failing dials, unsupported schemes, panicking handlers, broken frames, lost connections - with logging never touched, off, and switched off after being on: silent, and the same bytes on the wire as with logging on", Gen: func(q *Q) {
			for ev := 0; ev < 8; ev++ {
				ev := ev
				q.Seq(fmt.Sprint("event ", ev), func() {
					var base string
					for k := 0; k < 4; k++ { // on; off; untouched; on, then off
						vrt.Tick()
						early := []int{1, 0, -1, 1}[k]
						fail := ev == 6
						ls := mkLogServerD(rev, early, func(s interface {
							RegisterFunctionHandler(uint8, modbus.FunctionHandler)
						}) {
							s.RegisterFunctionHandler(0x60, func(*modbus.NodeRegister, []byte) ([]byte, error) { panic("handler") })
							s.RegisterFunctionHandler(0x61, func(*modbus.NodeRegister, []byte) ([]byte, error) { return nil, rtErr{} })
						}, func() error {
							if fail {
								return errors.New("dial tcp: connection refused")
							}
							return nil
						}, map[bool]string{false: "10.0.0.9:1502", true: "udp://10.0.0.9:1502"}[ev == 7])
						if k == 3 {
							vrt.Sleep(int64(700 * ms))
							ls.mode(false)
							stdTake()
						}
						quiet := func(what string) {
							lg := stdTake()
							Checked()
							if k > 0 && lg != "" {
								vrt.Fail("logging off: %s is logged as %q", what, lg)
							}
						}
						o := ""
						if ev >= 6 {
							vrt.Sleep(int64(2 * sec))
							quiet("a failing dial")
						} else {
							c := ls.conn()
							if k > 0 {
								stdTake()
							}
							raw := [][]byte{fTCP(3, 1, []byte{0x60, 1}), fTCP(3, 1, []byte{0x61, 1}), fTCPpid(3, 5, 1, []byte{3, 0, 7, 0, 1}), {0, 3, 0, 0, 2, 0, 1, 3}, {0, 3, 0, 0, 0, 0}, fTCP(3, 1, pRead(3, 7, 3))[:9]}[ev]
							o = hexs(ask(c, raw))
							quiet(fmt.Sprintf("[%x]", raw))
							if ev < 2 {
								o += " " + hexs(ask(c, fTCP(4, 1, pRead(3, 7, 3))))
								quiet("a request")
							}
							c.Abort()
							vrt.Sleep(int64(3 * sec))
							quiet("a lost connection")
						}
						ls.stop()
						quiet("closing")
						if k == 0 {
							base = o
						}
						if o != base {
							vrt.Fail("with logging off the answers are [%s], with logging on [%s]", o, base)
						}
						Outcome(o)
					}
				})
				if !rev && ev == 5 {
					break
				}
			}
		}})
		reg(Scenario{Prop: "C30", Name: name + "-long-frames", Desc: "requests and replies of every length up to the largest, good and refused: every frame whole in the log when on, nothing when off, the same replies", Gen: func(q *Q) {
			for on := 0; on < 2; on++ {
				on := on
				q.Seq(fmt.Sprintf("logging %v", on == 1), func() {
					l := wireLayouts[1]
					ls := mkLogServerD(rev, on, nil, nil, "10.0.0.9:1502", l)
					c := ls.conn()
					stdTake()
					tid := 0
					do := func(p []byte) {
						tid++
						ls.ask(c, tid, p, on == 1)
					}
					for n := 1; n <= 125; n++ {
						do(pRead(3, l.hs, n))
						do(pRead(4, l.is+300-n, n))
						if n <= 123 {
							do(pWRegs(l.hs+n, wordsPat(n, n)))
							do(pWRegs(0, wordsPat(n, n)))
						}
						if n <= 121 {
							do(pRW(l.hs, 126-n, l.hs+n, wordsPat(n+1, n)))
						}
					}
					for n := 1; n <= 2000; n += 1 + n%5 {
						do(pRead(1, l.cs, n))
						if n <= 1968 {
							do(pWCoils(l.cs, n, packPat(n%7, n)))
						}
					}
					for n := 1; n <= 253; n++ {
						do(append([]byte{0x41}, packPat(3, 8*(n-1))...))
					}
					ls.stop()
					if lg := stdTake(); lg != "" && on == 0 {
						vrt.Fail("logging off: closing is logged as %q", lg)
					}
				})
			}
		}})
		reg(Scenario{Prop: "C30", Name: name + "-inflight", Race: true, Desc: "the log is switched by another goroutine while the server starts, accepts and answers, every interleaving within the preemption bound", Gen: func(q *Q) {
			for early := 0; early < 2; early++ {
				for _, sw := range [][]bool{{true}, {false}, {true, false}, {false, true}} {
					early, sw := early, sw
					q.Case(Case{Name: fmt.Sprintf("starting with %d, switched %v", early, sw), P: q.N(2, 3), BC: 1, Body: func() {
						ls := mkLogServer(rev, early)
						var c *vnet.TCPConn
						if !rev {
							c = ls.conn()
						}
						th := vrt.GoNamed("switch", func() {
							for _, b := range sw {
								ls.mode(b)
							}
						})
						if rev {
							c = ls.conn()
						}
						for i, p := range [][]byte{pW1(6, 8, 0x1234), pRead(3, 7, 3)} {
							vrt.Tick()
							_, _ = c.Write(fTCP(i+1, 1, p))
							f, err := recvFrame(c)
							Checked()
							if want := fTCP(i+1, 1, ls.m.Exec(p)); err != nil || !bytes.Equal(f, want) {
								vrt.Fail("switching the log: reply [%s] (%v), want [%s]", hexs(f), err, hexs(want))
							}
						}
						vrt.Join(th)
						vrt.Settle()
						Outcome(len(stdTake()))
						on := sw[len(sw)-1]
						ls.ask(c, 9, pRead(3, 7, 2), on)
						ls.stop()
						if lg := stdTake(); !on && lg != "" {
							vrt.Fail("logging off: closing is logged as %q", lg)
						}
					}})
				}
			}
		}})
	}
}

func init() {
	regC23()
	regC29()
	regC30()
}
