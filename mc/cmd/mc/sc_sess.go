package main

import (
	"bytes"
	"fmt"

	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// Connections over time: requests spaced out on one connection (C06, C08,
// C26), and sessions that come, go and overlap (C10, C26).

// regPaced: a connection on which every request is complete well within the
// read timeout of the one before stays up and is served, however long it lasts.
func regPaced(prop, suf string, mk mkWire, cut bool) {
	desc := "every sequence of requests spaced by nothing up to nine tenths of the read timeout on one connection that outlives the timeout: all are answered"
	if cut {
		desc = "every sequence of requests cut inside the header or body with pauses, each complete within the read timeout of the previous, on one connection that outlives the timeout: all are answered"
	}
	reg(Scenario{Prop: prop, Name: map[bool]string{false: "paced-requests", true: "paced-segments"}[cut] + suf, Desc: desc, Gen: func(q *Q) {
		depth := q.N(6, 9)
		if cut {
			depth = q.N(4, 5)
		}
		pdus := [][]byte{pRead(3, 7, 3), pW1(6, 8, 0x1234), pRead(1, 0, 1), pRead(3, 0xfff0, 2), pW1(6, 8, 0x4321), pRead(4, 7, 1)}
		body := func(depth int) func() {
			return func() {
				w := mk([]byte{1, 14}, []Layout{wireLayouts[0], wireLayouts[0]})
				c := w.conn()
				rt := int64(w.RT) * int64(ms)
				hist := ""
				for i := 0; i < depth; i++ {
					pdu := pdus[i%len(pdus)]
					unit := byte(1 + 13*(i&1))
					gap, at, pause := int64(0), 0, int64(0)
					if cut {
						gap = []int64{0, rt * 45 / 100}[vrt.Pick(2)]
						at = []int{0, 1, 6, 7, 8, 11}[vrt.Pick(6)]
						if at > 0 {
							pause = rt * 45 / 100
						}
					} else {
						gap = []int64{0, rt / 2, rt * 9 / 10}[vrt.Pick(3)]
					}
					hist += fmt.Sprintf(" +%dms@%d", (gap+pause)/int64(ms), at)
					vrt.Sleep(gap)
					raw := fTCP(100+i, unit, pdu)
					want, _ := w.expect(raw)
					if at > 0 {
						_, _ = c.Write(raw[:at])
						vrt.Sleep(pause)
					}
					_, _ = c.Write(raw[at:])
					vrt.Settle()
					got := c.Take()
					Checked()
					if !bytes.Equal(got, want) || c.EOF() {
						vrt.Fail("read timeout %dms, requests at%s: the last is answered [%s], want [%s], dropped=%v", w.RT, hist, hexs(got), hexs(want), c.EOF())
					}
					w.needSame("%s", hist)
				}
				w.stop()
			}
		}
		q.Case(Case{Name: fmt.Sprint("depth ", depth), Split: true, Max: 400000, Body: body(depth)})
		less := q.N(3, 4)
		wireTimes(func(t times) {
			q.At(t, func() { q.Case(Case{Name: fmt.Sprint("depth ", less), Split: true, Max: 400000, Body: body(less)}) })
		})
	}})
}

// sessCase: every history of connections that open, send half or whole
// requests, leave in good order or not, and of time passing, over n slots.
func sessCase(n, depth int) func() {
	return func() {
		l := wireLayouts[0]
		r, m := newReal(1, l), newModel(1, l)
		fill(r, m, 3)
		w := &wire{models: map[byte]*MNode{1: m}}
		sv := startServer(nil, r)
		sv.s.SetReadTimeout(wRT()).SetWriteTimeout(wWT())
		type slot struct {
			c    *vnet.TCPConn
			half []byte // what is left of a request
			want []byte
			used bool
			last int64
		}
		slots := make([]slot, n)
		hist := ""
		check := func(i int, want []byte) {
			s := &slots[i]
			vrt.Settle()
			got := s.c.Take()
			Checked()
			if !bytes.Equal(got, want) || s.c.EOF() {
				vrt.Fail("history%s: connection %d received [%s], want [%s], dropped=%v", hist, i, hexs(got), hexs(want), s.c.EOF())
			}
			s.last = vrt.Now()
		}
		for d := 0; d < depth; d++ {
			type op struct {
				name string
				f    func()
			}
			var ops []op
			for i := range slots {
				i, s := i, &slots[i]
				add := func(name string, f func()) { ops = append(ops, op{fmt.Sprintf(" %s%d", name, i), f}) }
				if s.c == nil {
					add("open", func() { s.c = sv.connect(); s.used = true; check(i, nil) })
					if !s.used {
						break // slots are opened in order first
					}
					continue
				}
				pdus := [][]byte{pW1(6, 8, 0x100*i+d), pRead(3, 8, 2), pMask(8, 0xf0f0, uint16(d))}
				raw := fTCP(0x100*i+d, 1, pdus[i%3])
				if s.half == nil {
					add("whole", func() { want, _ := w.expect(raw); _, _ = s.c.Write(raw); check(i, want) })
					add("half", func() { at := []int{10, 5, 9}[i%3]; _, _ = s.c.Write(raw[:at]); s.half = raw; vrt.Settle() })
				} else {
					add("rest", func() {
						at := []int{10, 5, 9}[i%3]
						want, _ := w.expect(s.half)
						_, _ = s.c.Write(s.half[at:])
						s.half = nil
						check(i, want)
					})
				}
				add("leave", func() { _ = s.c.Close(); s.c, s.half = nil, nil; vrt.Settle() })
				add("reset", func() { s.c.Abort(); s.c, s.half = nil, nil; vrt.Settle() })
			}
			ops = append(ops, op{" wait", func() {
				vrt.Sleep(int64(wRT()) * 6 / 10)
				for i := range slots {
					if s := &slots[i]; s.c != nil && vrt.Now()-s.last > int64(wRT())*9/10 {
						s.c.Abort() // too long idle to say anything
						s.c, s.half = nil, nil
						vrt.Settle()
					}
				}
			}})
			o := ops[vrt.Pick(len(ops))]
			hist += o.name
			o.f()
			for i, s := range slots {
				if s.c == nil {
					continue
				}
				if b := s.c.Take(); len(b) > 0 || s.c.EOF() {
					vrt.Fail("history%s: connection %d received [%s] unasked, dropped=%v", hist, i, hexs(b), s.c.EOF())
				}
			}
			if s := same(r, m); s != "" {
				vrt.Fail("history%s: %s", hist, s)
			}
			open := 0
			for _, s := range slots {
				open += b2i(s.c != nil)
			}
			if k := sv.n.OpenLib(); k != open {
				vrt.Fail("history%s: the server holds %d connections, %d clients are there", hist, k, open)
			}
		}
		_ = sv.s.Close()
	}
}

// regReconnects: sessions of the reverse server one after the other.
func regReconnects() {
	reg(Scenario{Prop: "C26", Name: "sessions-in-sequence", Desc: "every sequence of sessions that carry nothing, half a request, a request, or both and end in good order or not; every reply and all tables compared with the model", Gen: func(q *Q) {
		depth := q.N(5, 6)
		q.Case(Case{Name: fmt.Sprint("depth ", depth), Split: true, Max: 400000, Body: func() {
			w := reverseWire([]byte{1, 14}, []Layout{wireLayouts[0], wireLayouts[0]})
			hist := ""
			for d := 0; d < depth; d++ {
				c := w.conn()
				k := vrt.Pick(7)
				hist += fmt.Sprint(" ", k)
				if k&1 != 0 || k == 6 {
					w.step(c, d, 14, pW1(6, 8, 0x55*d))
				}
				if k == 6 {
					w.step(c, d+7, 1, pRead(3, 7, 3))
				}
				if k&2 != 0 && k < 6 {
					_, _ = c.Write(fTCP(9, 1, pW1(6, 9, 0xbad))[:7+d])
					vrt.Settle()
				}
				if k&4 != 0 {
					c.Abort()
				}
				w.needSame("sessions%s", hist)
			}
			w.stop()
		}})
	}})
}

func init() {
	regPaced("C06", "", listenWire, false)
	regPaced("C08", "", listenWire, true)
	regPaced("C26", "/reverse", reverseWire, false)
	regPaced("C26", "/reverse", reverseWire, true)
	regReconnects()
	reg(Scenario{Prop: "C10", Name: "sessions", Desc: "every history of connections that open, send half and whole requests, leave in good order or abruptly, with time passing, overlapping: every reply goes to its connection and is what the model gives, and no connection is held for clients that left", Gen: func(q *Q) {
		q.Case(Case{Name: "two slots", Split: true, Max: 400000, Body: sessCase(2, q.N(8, 10))})
		q.Case(Case{Name: "three slots", Split: true, Max: 400000, Body: sessCase(3, q.N(7, 9))})
	}})
}
