package main

import (
	"bytes"
	"fmt"
	rtime "time"

	"verifmc/modbus"
	"verifmc/vrt"
)

// C13, C14, C15, C16, C17, C28: one call on a scripted device.

// replyFor builds a correct reply PDU to a well-formed request.
func replyFor(req []byte, seed int) []byte {
	if len(req) < 1 {
		return nil
	}
	q := func(i int) int { return u16(req[i:]) }
	switch {
	case (req[0] == 1 || req[0] == 2) && len(req) == 5:
		b := packPat(seed+3, q(3))
		return append([]byte{req[0], byte(len(b))}, b...)
	case (req[0] == 3 || req[0] == 4) && len(req) == 5 || req[0] == 23 && len(req) > 5:
		b := be(wordsPat(seed+3, q(3))...)
		return append([]byte{req[0], byte(len(b))}, b...)
	case (req[0] == 5 || req[0] == 6) && len(req) == 5 || req[0] == 22 && len(req) == 7:
		return append([]byte(nil), req...)
	case (req[0] == 15 || req[0] == 16) && len(req) > 5:
		return append([]byte(nil), req[:5]...)
	case req[0] == 24 && len(req) == 3:
		n := seed % 4
		return append(append([]byte{24}, be(uint16(2+2*n), uint16(n))...), be(wordsPat(seed+3, n)...)...)
	}
	return nil
}

// ---- C13 ----

type inv struct {
	what string
	unit byte
	ok   bool // everything but the unit is within the limits
	read bool
	req  []byte
	alt  []byte // another acceptable request
	b    []byte
	w    []uint16
	do   func(c modbus.Client, b []byte, w []uint16) error
}

func no2(_ interface{}, err error) error { return err }

func invRead(name string, unit byte, a, q int) inv {
	v := inv{what: fmt.Sprintf("%s(%d,%d,%d)", name, unit, a, q), unit: unit, read: true}
	A, Q := uint16(a), uint16(q)
	max := 125
	var fc byte
	switch name {
	case "ReadCoils":
		fc, max = 1, 2000
		v.do = func(c modbus.Client, _ []byte, _ []uint16) error { _, e := c.ReadCoils(unit, A, Q); return e }
	case "ReadDiscreteInputs":
		fc, max = 2, 2000
		v.do = func(c modbus.Client, _ []byte, _ []uint16) error { _, e := c.ReadDiscreteInputs(unit, A, Q); return e }
	case "ReadInputRegistersBytes":
		fc = 4
		v.do = func(c modbus.Client, _ []byte, _ []uint16) error {
			_, e := c.ReadInputRegistersBytes(unit, A, Q)
			return e
		}
	case "ReadInputRegisters":
		fc = 4
		v.do = func(c modbus.Client, _ []byte, _ []uint16) error { _, e := c.ReadInputRegisters(unit, A, Q); return e }
	case "ReadHoldingRegistersBytes":
		fc = 3
		v.do = func(c modbus.Client, _ []byte, _ []uint16) error {
			_, e := c.ReadHoldingRegistersBytes(unit, A, Q)
			return e
		}
	case "ReadHoldingRegisters":
		fc = 3
		v.do = func(c modbus.Client, _ []byte, _ []uint16) error {
			_, e := c.ReadHoldingRegisters(unit, A, Q)
			return e
		}
	}
	v.ok = q >= 1 && q <= max
	v.req = pRead(fc, a, q)
	return v
}

var readNames = []string{"ReadCoils", "ReadDiscreteInputs", "ReadInputRegistersBytes", "ReadInputRegisters", "ReadHoldingRegistersBytes", "ReadHoldingRegisters"}

func invCoil(unit byte, a int, on bool) inv {
	val := 0
	if on {
		val = 0xff00
	}
	return inv{what: fmt.Sprintf("WriteSingleCoil(%d,%d,%v)", unit, a, on), unit: unit, ok: true, req: pW1(5, a, val),
		do: func(c modbus.Client, _ []byte, _ []uint16) error { return c.WriteSingleCoil(unit, uint16(a), on) }}
}

func invReg(unit byte, a, val int) inv {
	return inv{what: fmt.Sprintf("WriteSingleRegister(%d,%d,%#x)", unit, a, val), unit: unit, ok: true, req: pW1(6, a, val),
		do: func(c modbus.Client, _ []byte, _ []uint16) error {
			return c.WriteSingleRegister(unit, uint16(a), uint16(val))
		}}
}

func invMask(unit byte, a int, and, or uint16) inv {
	return inv{what: fmt.Sprintf("MaskWriteRegister(%d,%d,%#x,%#x)", unit, a, and, or), unit: unit, ok: true, req: pMask(a, and, or),
		do: func(c modbus.Client, _ []byte, _ []uint16) error {
			return c.MaskWriteRegister(unit, uint16(a), and, or)
		}}
}

func invFIFO(unit byte, a int) inv {
	return inv{what: fmt.Sprintf("ReadFIFOQueue(%d,%d)", unit, a), unit: unit, ok: true, read: true, req: pFIFO(a),
		do: func(c modbus.Client, _ []byte, _ []uint16) error { _, e := c.ReadFIFOQueue(unit, uint16(a)); return e }}
}

// invCoils: n value bytes; the bits beyond the quantity are zero in the last
// addressed byte and anything beyond it.
func invCoils(unit byte, a, q, n, pat int) inv {
	b := packPat(pat, 8*n)
	need := (q + 7) / 8
	if q%8 != 0 && need <= n && need > 0 {
		b[need-1] &= byte(1<<uint(q%8)) - 1
	}
	v := inv{what: fmt.Sprintf("WriteMultipleCoils(%d,%d,%d,%d bytes)", unit, a, q, n), unit: unit, b: b,
		ok: q >= 1 && q <= 1968 && n >= need,
		do: func(c modbus.Client, b []byte, _ []uint16) error {
			return c.WriteMultipleCoils(unit, uint16(a), uint16(q), b)
		}}
	if v.ok {
		v.req = pWCoils(a, q, b[:need])
	}
	return v
}

// invCoilsDirty has the padding bits set in the value; the request may carry
// the caller's bits there or zeros.
func invCoilsDirty(unit byte, a, q, n, pat int) inv {
	v := invCoils(unit, a, q, n, pat)
	need := (q + 7) / 8
	if v.ok && q%8 != 0 {
		v.what += " with the padding bits set"
		v.alt = v.req
		v.b[need-1] |= ^(byte(1<<uint(q%8)) - 1)
		v.req = pWCoils(a, q, v.b[:need])
	}
	return v
}

func invRegsB(unit byte, a, q, n, pat int) inv {
	b := packPat(pat, 8*n)
	v := inv{what: fmt.Sprintf("WriteMultipleRegistersBytes(%d,%d,%d,%d bytes)", unit, a, q, n), unit: unit, b: b,
		ok: q >= 1 && q <= 123 && n == 2*q,
		do: func(c modbus.Client, b []byte, _ []uint16) error {
			return c.WriteMultipleRegistersBytes(unit, uint16(a), uint16(q), b)
		}}
	if v.ok {
		v.req = append(append([]byte{16}, be(uint16(a), uint16(q))...), append([]byte{byte(n)}, b...)...)
	}
	return v
}

func invRegs(unit byte, a, q, n, pat int) inv {
	w := wordsPat(pat, n)
	v := inv{what: fmt.Sprintf("WriteMultipleRegisters(%d,%d,%d,%d words)", unit, a, q, n), unit: unit, w: w,
		ok: q >= 1 && q <= 123 && n == q,
		do: func(c modbus.Client, _ []byte, w []uint16) error {
			return c.WriteMultipleRegisters(unit, uint16(a), uint16(q), w)
		}}
	if v.ok {
		v.req = pWRegs(a, w)
	}
	return v
}

func invRW(words bool, unit byte, ra, rq, wa, wq, n, pat int) inv {
	b := packPat(pat, 8*n)
	name := "ReadWriteMultipleRegistersBytes"
	if words {
		name = "ReadWriteMultipleRegisters"
	}
	v := inv{what: fmt.Sprintf("%s(%d,%d,%d,%d,%d,%d bytes)", name, unit, ra, rq, wa, wq, n), unit: unit, b: b, read: true,
		ok: rq >= 1 && rq <= 125 && wq >= 1 && wq <= 121 && n == 2*wq,
		do: func(c modbus.Client, b []byte, _ []uint16) error {
			if words {
				_, e := c.ReadWriteMultipleRegisters(unit, uint16(ra), uint16(rq), uint16(wa), uint16(wq), b)
				return e
			}
			_, e := c.ReadWriteMultipleRegistersBytes(unit, uint16(ra), uint16(rq), uint16(wa), uint16(wq), b)
			return e
		}}
	if v.ok {
		v.req = append(append([]byte{23}, be(uint16(ra), uint16(rq), uint16(wa), uint16(wq))...), append([]byte{byte(n)}, b...)...)
	}
	return v
}

var bitQs = []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 257, 1967, 1968, 1969, 1976, 1999, 2000, 2001, 2040, 2047, 2048, 2049, 4096, 0x7fff, 0x8000, 0x8001, 0xfff8, 0xfffe, 0xffff}
var regQs = []int{0, 1, 2, 3, 63, 64, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0x8002, 0xffff}
var someAddrs = []int{0, 1, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xfffe, 0xffff}

// invsFor is the table of invocations for a unit.
func invsFor(unit byte, dense bool) []inv {
	var r []inv
	for _, a := range someAddrs {
		for _, n := range readNames {
			qs := regQs
			if n == "ReadCoils" || n == "ReadDiscreteInputs" {
				qs = bitQs
			}
			for _, q := range qs {
				r = append(r, invRead(n, unit, a, q))
			}
		}
		r = append(r, invCoil(unit, a, true), invCoil(unit, a, false), invFIFO(unit, a))
		for _, v := range []int{0, 1, 0xff, 0x100, 0xff00, 0x1234, 0xffff} {
			r = append(r, invReg(unit, a, v), invMask(unit, a, uint16(v), uint16(^v)), invMask(unit, a, uint16(v>>4), uint16(v)))
		}
	}
	for i, q := range bitQs {
		need := (q + 7) / 8
		a := someAddrs[i%len(someAddrs)]
		for _, n := range uniq(0, 1, 2, need-1, need, need+1, need+2, 2*need, 246, 247, 255, 256, 300) {
			if n >= 0 && n < 9000 {
				r = append(r, invCoils(unit, a, q, n, 3+i%3), invCoilsDirty(unit, a, q, n, 3+i%3))
			}
		}
	}
	for i, q := range regQs {
		a := someAddrs[i%len(someAddrs)]
		for _, n := range uniq(0, 1, 2, q-1, q, q+1, 2*q-1, 2*q, 2*q+1, 2*q+2, (2*q)&0xffff, (2*q)&0xff, 246, 248, 250, 252) {
			if n >= 0 && n < 600 {
				r = append(r, invRegsB(unit, a, q, n, 3+i%3), invRegs(unit, a, q, n, 3+i%3))
				r = append(r, invRW(i%2 == 0, unit, a, 1+i, 0x2345, q, n, 3+i%3), invRW(i%2 == 1, unit, 0x2345, 2, a, q, n, 3))
			}
		}
		for _, wq := range []int{0, 1, 2, 121, 122} {
			r = append(r, invRW(i%2 == 0, unit, a, q, 0x0102, wq, 2*wq, 4), invRW(i%2 == 1, unit, a, q, 0x0102, wq, 2*wq, 5))
		}
	}
	return r
}

// unitClass: 1 must transmit, 0 must refuse, -1 either.
func unitClass(v *inv, min, max byte) int {
	switch {
	case v.unit > max || v.read && v.unit < min:
		return 0
	case !v.read && v.unit != 0 && v.unit < min:
		return -1
	}
	return 1
}

type c13rig struct {
	g        *rig
	min, max byte
}

func newC13(x xport, min, max int) *c13rig {
	var o []modbus.Option
	r := &c13rig{min: 1, max: 247}
	if min >= 0 {
		o = append(o, modbus.WithAddressMin(byte(min)))
		r.min = byte(min)
	}
	if max >= 0 {
		o = append(o, modbus.WithAddressMax(byte(max)))
		r.max = byte(max)
	}
	r.g = newRig(x, func(g *rig, e *exch) {
		if e.bad == "" {
			if p := replyFor(e.pdu, len(e.pdu)); p != nil {
				g.reply(e, p)
			}
		}
	}, o...)
	return r
}

func (r *c13rig) check(v *inv) {
	vrt.Tick()
	g := r.g
	g.reqs, g.junk = nil, nil
	const pad = 8
	bb := make([]byte, len(v.b)+pad)
	wb := make([]uint16, len(v.w)+pad)
	copy(bb, v.b)
	copy(wb, v.w)
	for i := 0; i < pad; i++ {
		bb[len(v.b)+i], wb[len(v.w)+i] = byte(0xa5+i), uint16(0xa5a5+i)
	}
	_, err := attempt(v.what, func() (interface{}, error) { return nil, v.do(g.c, bb[:len(v.b)], wb[:len(v.w)]) })
	Checked()
	for i := range bb {
		if i < len(v.b) && bb[i] != v.b[i] || i >= len(v.b) && bb[i] != byte(0xa5+i-len(v.b)) {
			vrt.Fail("%s over %s modified the caller's buffer at index %d (of %d)", v.what, g.t, i, len(v.b))
		}
	}
	for i := range wb {
		if i < len(v.w) && wb[i] != v.w[i] || i >= len(v.w) && wb[i] != uint16(0xa5a5+i-len(v.w)) {
			vrt.Fail("%s over %s modified the caller's buffer at word %d (of %d)", v.what, g.t, i, len(v.w))
		}
	}
	cls := unitClass(v, r.min, r.max)
	if cls == 0 || !v.ok {
		if err == nil {
			vrt.Fail("%s over %s with unit limits %d..%d returned no error", v.what, g.t, r.min, r.max)
		}
		if len(g.reqs) > 0 || len(g.junk) > 0 {
			vrt.Fail("%s over %s with unit limits %d..%d must not transmit anything but sent %s", v.what, g.t, r.min, r.max, g.sent())
		}
		return
	}
	if cls < 0 && err != nil && len(g.reqs) == 0 && len(g.junk) == 0 {
		return
	}
	if len(g.reqs) != 1 || len(g.junk) > 0 {
		vrt.Fail("%s over %s with unit limits %d..%d must transmit exactly one request [%s] but sent %s (result: %v)", v.what, g.t, r.min, r.max, hexs(v.req), g.sent(), err)
	}
	e := g.reqs[0]
	want := g.frame(e.tid, v.unit, v.req)
	if v.alt != nil && bytes.Equal(e.raw, g.frame(e.tid, v.unit, v.alt)) {
		return
	}
	if !bytes.Equal(e.raw, want) {
		vrt.Fail("%s over %s sent [%s], the specification prescribes [%s]", v.what, g.t, hexs(e.raw), hexs(want))
	}
}

func (g *rig) sent() string {
	s := ""
	for _, e := range g.reqs {
		s += fmt.Sprintf("[%s] ", hexs(e.raw))
	}
	if len(g.junk) > 0 {
		s += fmt.Sprintf("and the loose bytes [%s]", hexs(g.junk))
	}
	if s == "" {
		return "nothing"
	}
	return s
}

func regC13() {
	reg(Scenario{Prop: "C13", Name: "request-frames", Desc: "every call over tables of boundary units, addresses, quantities, values and value lengths on every transport", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for _, lim := range [][2]int{{-1, -1}, {0, 255}, {5, 10}, {1, 255}, {10, 5}, {0, 0}, {248, 255}} {
				lim := lim
				for _, u := range []byte{0, 1, 4, 5, 10, 11, 17, 127, 128, 246, 247, 248, 255} {
					u := u
					if !q.Thorough && lim[0] >= 0 && lim != [2]int{5, 10} && lim != [2]int{0, 255} {
						continue
					}
					q.Seq(fmt.Sprintf("%s limits %v unit %d", x, lim, u), func() {
						r := newC13(x, lim[0], lim[1])
						for _, v := range invsFor(u, false) {
							v := v
							r.check(&v)
						}
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C13", Name: "request-units", Desc: "every unit id against unit limits", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for _, lim := range [][2]int{{-1, -1}, {0, 255}, {1, 255}, {5, 10}, {0, 247}, {-1, 20}, {20, -1}, {255, 255}, {9, 3}} {
				lim := lim
				q.Seq(fmt.Sprintf("%s limits %v", x, lim), func() {
					r := newC13(x, lim[0], lim[1])
					for u := 0; u < 256; u++ {
						b := byte(u)
						for _, n := range readNames {
							v := invRead(n, b, 7, 3)
							r.check(&v)
						}
						for _, v := range []inv{invCoil(b, 1, true), invReg(b, 2, 3), invMask(b, 1, 2, 3), invFIFO(b, 4), invCoils(b, 1, 9, 2, 3), invRegsB(b, 1, 2, 4, 3), invRegs(b, 1, 2, 2, 3), invRW(true, b, 1, 2, 3, 4, 8, 3), invRW(false, b, 1, 2, 3, 4, 8, 3)} {
							v := v
							r.check(&v)
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C13", Name: "request-quantities", Desc: "every quantity of every read and write (all 65536 in the thorough tier)", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			top := q.N(2100, 65536)
			for _, n := range readNames {
				n := n
				for lo := 0; lo < top; lo += 8192 {
					lo := lo
					q.Seq(fmt.Sprintf("%s %s from %d", x, n, lo), func() {
						r := newC13(x, -1, -1)
						for k := lo; k < top && k < lo+8192; k++ {
							v := invRead(n, 17, 0x0102, k)
							r.check(&v)
						}
					})
				}
			}
			for lo := 0; lo < top; lo += 8192 {
				lo := lo
				q.Seq(fmt.Sprintf("%s writes from %d", x, lo), func() {
					r := newC13(x, -1, -1)
					for k := lo; k < top && k < lo+8192; k++ {
						n := (k + 7) / 8
						if n > 300 {
							n = 300
						}
						w := k
						if w > 300 {
							w = 2 * (k & 0x7f)
						}
						for _, v := range []inv{invCoils(17, 5, k, n, 4), invCoils(17, 5, k, n+3, 4), invRegsB(17, 5, k, 2*w, 4), invRegs(17, 5, k, w, 4), invRW(true, 17, 3, k, 4, 2, 4, 4), invRW(false, 17, 3, 2, 4, k, 2*w, 4)} {
							v := v
							r.check(&v)
						}
					}
				})
			}
			if q.Thorough {
				for lo := 0; lo < 65536; lo += 16384 {
					lo := lo
					q.Seq(fmt.Sprintf("%s addresses from %d", x, lo), func() {
						r := newC13(x, -1, -1)
						for a := lo; a < lo+16384; a++ {
							for _, v := range []inv{invRead("ReadCoils", 3, a, 5), invRead("ReadDiscreteInputs", 3, a, 5), invRead("ReadInputRegisters", 3, a, 5), invRead("ReadHoldingRegistersBytes", 3, a, 5), invCoil(3, a, true), invReg(3, a, ^a&0xffff), invReg(3, 7, a), invMask(3, a, uint16(^a), uint16(a>>1)), invFIFO(3, a), invCoils(3, a, 9, 2, 3), invRegs(3, a, 1, 1, 3), invRW(false, 3, a, 1, 0xffff-a, 1, 2, 4)} {
								v := v
								r.check(&v)
							}
						}
					})
				}
			}
		}
	}})
}

// ---- C14 / C15 ----

// accepted lists the PDUs a reply stream may legitimately yield, and whether
// the stream is exactly one correct reply.
func (g *rig) accepted(e *exch, cl *call, s []byte) (ok [][]byte, exact bool) {
	switch g.t {
	case xTCP:
		if len(s) < 8 || len(s) < 6+u16(s[4:]) || u16(s[4:]) < 2 || u16(s[4:]) > 254 {
			return
		}
		f := s[:6+u16(s[4:])]
		if u16(f) != e.tid || u16(f[2:]) != 0 || f[6] != e.unit || !cl.judge(f[7:]) {
			return
		}
		return [][]byte{f[7:]}, len(f) == len(s)
	case xRTU:
		for n := 4; n <= len(s) && n <= 256; n++ {
			c := crcRef(s[:n-2])
			if s[n-2] == byte(c) && s[n-1] == byte(c>>8) && s[0] == e.unit && cl.judge(s[1:n-2]) {
				ok = append(ok, s[1:n-2])
				exact = exact || n == len(s)
			}
		}
	case xASCII:
		for n := 9; n <= len(s) && n <= 513; n++ {
			if s[n-1] != '\n' || s[n-2] != '\r' {
				continue
			}
			b, bad := unASCII(s[:n])
			if bad == "" && b[0] == e.unit && cl.judge(b[1:len(b)-1]) {
				ok = append(ok, b[1:len(b)-1])
				exact = exact || n == len(s) && bytes.Equal(s, fASCII(b[0], b[1:len(b)-1]))
			}
		}
	}
	return
}

// tryReply makes one call against a device that answers with the given bytes.
func tryReply(x xport, cl *call, stream func(g *rig, e *exch) []byte) {
	vrt.Tick()
	var s []byte
	g := newRig(x, func(g *rig, e *exch) {
		if e.n == 0 {
			s = stream(g, e)
			g.send(e, 0, s)
		}
	})
	t0 := vrt.Now()
	got, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	Checked()
	if d := rtime.Duration(vrt.Now() - t0); d > 5*g.T+2*sec {
		vrt.Fail("%s over %s took %v for the reply [%s]", cl.name, x, d, hexs(s))
	}
	if len(g.reqs) != 1 || g.reqs[0].bad != "" {
		vrt.Fail("%s over %s sent %s", cl.name, x, g.sent())
	}
	ok, exact := g.accepted(g.reqs[0], cl, s)
	if err == nil {
		for _, p := range ok {
			if show(got) == show(cl.conv(p)) {
				return
			}
		}
		vrt.Fail("%s over %s (request [%s]) accepted the reply [%s] and returned %s", cl.name, x, hexs(g.reqs[0].raw), hexs(s), show(got))
	}
	if exact && !cl.loose {
		vrt.Fail("%s over %s (request [%s]) refused the correct reply [%s]: %v", cl.name, x, hexs(g.reqs[0].raw), hexs(s), err)
	}
}

// firstExch is the first request of a fresh client.
func firstExch(x xport, cl *call) (*rig, *exch) {
	var e0 *exch
	g0 := newRig(x, func(g *rig, e *exch) {
		if e0 == nil {
			e0 = e
		}
	})
	_, _ = attempt(cl.name, func() (interface{}, error) { return cl.do(g0.c) })
	if e0 == nil {
		vrt.Fail("%s sent nothing", cl.name)
	}
	return g0, e0
}

func cat(b ...[]byte) []byte {
	var r []byte
	for _, x := range b {
		r = append(r, x...)
	}
	return r
}

func put(b []byte, i int, v byte) []byte {
	r := append([]byte(nil), b...)
	r[i] = v
	return r
}

// pduMutants are reply PDUs around a correct one.
func pduMutants(cl *call, full bool, f func(p []byte)) {
	p := cl.rsp
	f(p)
	lim := len(p)
	if !full && lim > 12 {
		lim = 12
	}
	for i := 0; i < len(p); i++ {
		if i >= lim && i < len(p)-2 {
			continue
		}
		for v := 0; v < 256; v++ {
			f(put(p, i, byte(v)))
		}
	}
	for n := 0; n < len(p); n++ {
		f(p[:n])
	}
	for n := 1; n <= 4; n++ {
		f(cat(p, make([]byte, n)))
		f(cat(p, p[len(p)-1:], make([]byte, n)))
	}
	// every length, with consistent, expected and other counts
	fill := packPat(5, 8*253)
	for n := 0; n <= 252; n++ {
		cs := uniq(n-1, n, n+1, len(p)-2, len(p)-1, len(p)-3, n/2, 2*n, 0, 255, 128)
		if n == 0 {
			f(p[:1])
			continue
		}
		for _, c := range cs {
			if c >= 0 && c < 256 {
				f(cat([]byte{p[0], byte(c)}, fill[:n-1]))
			}
		}
	}
	// request echoes
	f(cl.req)
	for n := 1; n < len(cl.req); n++ {
		f(cl.req[:n])
	}
	if p[0] == 24 {
		for bc := 0; bc <= 70; bc++ {
			for _, fcnt := range uniq(0, 1, 2, 3, 4, 5, 29, 30, 31, 32, 33, 255, 256, 257, bc/2-1, (bc-1)/2, bc/2, bc, 0x8001) {
				if fcnt < 0 {
					continue
				}
				for _, dl := range uniq(bc-2, bc-3, bc-1, 0, 2, 2*fcnt) {
					if dl >= 0 && dl <= 248 {
						f(cat([]byte{24}, be(uint16(bc), uint16(fcnt)), fill[:dl]))
					}
				}
			}
		}
	}
	// pairs of positions
	for i := 0; i < lim && i < 6; i++ {
		for j := i + 1; j < lim && j < 6; j++ {
			for _, a := range []byte{0, 1, 2, 0x7f, 0x80, 0xff, p[i] + 1, p[i] - 1, p[i] ^ 0x80} {
				for _, b := range []byte{0, 1, 2, 0x7f, 0x80, 0xff, p[j] + 1, p[j] - 1, p[j] ^ 0x80} {
					f(put(put(p, i, a), j, b))
				}
			}
		}
	}
}

// rawMutants are reply streams around a correct frame.
func rawMutants(x xport, cl *call, e *exch, fr []byte, full bool, f func(name string, s []byte)) {
	lim := len(fr)
	if !full && lim > 40 {
		lim = 24
	}
	for i := 0; i < len(fr); i++ {
		if i >= lim && i < len(fr)-5 {
			continue
		}
		for v := 0; v < 256; v++ {
			f("byte", put(fr, i, byte(v)))
		}
	}
	for n := 0; n < len(fr); n++ {
		f("cut", fr[:n])
		f("tail", fr[n+1:])
		if n < lim {
			f("drop", cat(fr[:n], fr[n+1:]))
			f("dup", cat(fr[:n+1], fr[n:]))
		}
	}
	for v := 0; v < 256; v++ {
		f("append", cat(fr, []byte{byte(v)}))
		f("prepend", cat([]byte{byte(v)}, fr))
	}
	f("twice", cat(fr, fr))
	f("request", e.raw)
	f("request+reply", cat(e.raw, fr))
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 100, 255, 256, 257, 259, 260, 261, 300, 512, 513, 514, 600} {
		for _, v := range []byte{0, 0xff, ':', '0', '\r', '\n', fr[0], fr[1]} {
			f("run", bytes.Repeat([]byte{v}, n))
		}
		f("long", cat(fr, packPat(5, 8*n)))
		f("noise", packPat(5, 8*n))
	}
	if x == xTCP {
		for l := 0; l <= 65535; l++ {
			if l > 600 && l < 65000 && l%251 != 0 {
				continue
			}
			h := cat(fr[:4], be(uint16(l)), fr[6:])
			f("length", h)
			if l <= 300 {
				f("length+", cat(h, packPat(5, 8*300)))
			}
		}
		for v := 0; v < 65536; v++ {
			if v == e.tid || v%257 == 0 || v&(v-1) == 0 || v == e.tid+1 || v == e.tid-1 || byte(v) == byte(e.tid) || v>>8 == e.tid>>8 {
				f("tid", cat(be(uint16(v)), fr[2:]))
				f("pid", cat(fr[:2], be(uint16(v)), fr[4:]))
			}
		}
	}
}

func regReplies(prop string, xs []xport) {
	reg(Scenario{Prop: prop, Name: "reply-pdus", Desc: "well-framed replies whose PDU is any single-byte change, truncation, extension, length/count combination around a correct one", Gen: func(q *Q) {
		for _, x := range xs {
			x := x
			for k := 0; k < 4; k++ {
				if k == 2 && !q.Thorough || k == 1 && !q.Thorough && x == xASCII {
					continue
				}
				for i := range calls(17, k) {
					k, i := k, i
					cl := calls(17, k)[i]
					q.Seq(fmt.Sprintf("%s %s/%d", x, cl.name, k), func() {
						pduMutants(&cl, q.Thorough, func(p []byte) {
							if len(p) <= 253 {
								tryReply(x, &cl, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, p) })
							}
						})
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: prop, Name: "reply-bytes", Desc: "replies that are any single-byte change, truncation, extension, duplication of a correct frame, or noise", Gen: func(q *Q) {
		for _, x := range xs {
			x := x
			for k := 0; k < 3; k++ {
				for i := range calls(17, k) {
					k, i := k, i
					cl := calls(17, k)[i]
					// also to a unit that bears the function code as its number
					if k == 1 {
						cl = calls(cl.req[0], k)[i]
					}
					if k >= 1 && !q.Thorough && (k > 1 || x == xASCII && i%3 != 0) {
						continue
					}
					q.Seq(fmt.Sprintf("%s %s/%d", x, cl.name, k), func() {
						g0, e0 := firstExch(x, &cl)
						rawMutants(x, &cl, e0, g0.frame(e0.tid, e0.unit, cl.rsp), q.Thorough, func(name string, s []byte) {
							tryReply(x, &cl, func(g *rig, e *exch) []byte {
								if e.tid != e0.tid {
									return g.frame(e.tid, e.unit, cl.rsp)
								}
								return s
							})
						})
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: prop, Name: "reply-small", Desc: "all replies of up to two bytes, raw and as a framed PDU", Gen: func(q *Q) {
		for _, x := range xs {
			x := x
			for i, cl := range calls(17, 0) {
				cl := cl
				if !q.Thorough && i%4 != 0 && cl.name != "ReadFIFOQueue" {
					continue
				}
				q.Seq(fmt.Sprintf("%s %s", x, cl.name), func() {
					try := func(p []byte) {
						tryReply(x, &cl, func(g *rig, e *exch) []byte { return p })
						tryReply(x, &cl, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, p) })
					}
					for a := 0; a < 256; a++ {
						try([]byte{byte(a)})
						for b := 0; b < 256; b++ {
							if q.Thorough || byte(a)&0x7f == cl.req[0] || b < 2 {
								try([]byte{byte(a), byte(b)})
							}
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: prop, Name: "reply-units", Desc: "correct replies from every unit id, to every unit id", Gen: func(q *Q) {
		for _, x := range xs {
			x := x
			for _, u := range []byte{0, 1, 17, 247} {
				cs := calls(u, 0)
				if u == 17 || u == 0 {
					cs = append(cs, pduCalls(cs)...)
				}
				for i := range cs {
					cl := cs[i]
					if u == 0 {
						if cl.read {
							continue // not sent to unit 0
						}
						cl.loose = x != xTCP // a broadcast on a serial line has no reply
					}
					q.Seq(fmt.Sprintf("%s %s unit %d", x, cl.name, u), func() {
						for v := 0; v < 256; v++ {
							tryReply(x, &cl, func(g *rig, e *exch) []byte { return g.frame(e.tid, byte(v), cl.rsp) })
						}
					})
				}
			}
		}
	}})
	// a long life: every call answered correctly, the previous reply never is
	reg(Scenario{Prop: prop, Name: "reply-sequence", Desc: "sequences of calls on one client, each answered with its own reply (beyond the transaction id wrap-around for TCP)", Gen: func(q *Q) {
		for _, x := range xs {
			x := x
			n := q.N(400, 4000)
			if x == xTCP {
				n = 66000
			}
			q.Seq(fmt.Sprintf("%s %d calls", x, n), func() {
				cs := append(calls(17, 0), calls(4, 1)...)
				var cur *call
				seed := 0
				var sent []byte
				g := newRig(x, func(g *rig, e *exch) {
					sent = replyFor(e.pdu, seed)
					g.reply(e, sent)
				})
				for k := 0; k < n; k++ {
					vrt.Tick()
					cur, seed = &cs[k%len(cs)], k%13
					g.reqs, g.junk = g.reqs[:0], nil
					got, err := attempt(cur.name, func() (interface{}, error) { return cur.do(g.c) })
					Checked()
					if err != nil {
						vrt.Fail("call %d (%s) over %s failed although its reply [%s] is correct: %v", k, cur.name, x, hexs(sent), err)
					}
					if len(g.reqs) != 1 {
						vrt.Fail("call %d (%s) sent %s", k, cur.name, g.sent())
					}
					if show(got) != show(cur.conv(sent)) {
						vrt.Fail("call %d (%s) returned %s for the reply [%s]", k, cur.name, show(got), hexs(sent))
					}
				}
			})
		}
	}})
}

// ---- C16 ----

// sendPdu wraps a call's request in the raw PDU call.
func pduCalls(cs []call) []call {
	var r []call
	for _, c := range cs {
		c := c
		n := c
		n.name = "SendPdu:" + c.name
		n.do = func(cl modbus.Client) (interface{}, error) {
			b, err := cl.SendPdu(c.unit, c.req)
			if err != nil {
				return nil, err
			}
			return append([]byte{}, b...), nil
		}
		n.conv = func(rsp []byte) interface{} { return append([]byte{}, rsp...) }
		n.jd = func(rsp []byte) bool { return len(rsp) >= 2 && rsp[0] == c.req[0] }
		r = append(r, n)
		m := c
		m.name = "Send:" + c.name
		m.do = func(cl modbus.Client) (interface{}, error) {
			p, err := cl.Send(c.unit, modbus.ProtocolDataUnit{FuncCode: c.req[0], Data: c.req[1:]})
			if err != nil {
				return nil, err
			}
			return append([]byte{p.FuncCode}, p.Data...), nil
		}
		m.conv, m.jd = n.conv, n.jd
		r = append(r, m)
	}
	return r
}

func excRun(x xport, cl *call, s func(g *rig, e *exch) [][]byte, want int, what string) {
	vrt.Tick()
	var sent [][]byte
	g := newRig(x, func(g *rig, e *exch) {
		if e.n == 0 {
			sent = s(g, e)
			for i, b := range sent {
				g.send(e, rtime.Duration(i)*ms, b)
			}
		} else {
			g.reply(e, cl.rsp)
		}
	})
	v, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	Checked()
	if err == nil {
		vrt.Fail("%s over %s: %s was accepted as success (%s)", cl.name, x, what, show(v))
	}
	got := isExc(err)
	if got != want {
		if want < 0 {
			vrt.Fail("%s over %s: %s (reply % x) is reported as device exception %d", cl.name, x, what, sent, got)
		}
		vrt.Fail("%s over %s: %s (reply % x) is reported as %q (exception code %d), not as exception %d", cl.name, x, what, sent, err, got, want)
	}
	if want < 0 {
		return
	}
	v, err = attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	if err != nil || show(v) != show(cl.conv(cl.rsp)) {
		vrt.Fail("%s over %s: the call after %s gives %s, %v instead of the reply [%s]", cl.name, x, what, show(v), err, hexs(cl.rsp))
	}
}

func one(b []byte) [][]byte { return [][]byte{b} }

func regC16() {
	reg(Scenario{Prop: "C16", Name: "exceptions", Desc: "every exception code for every call on every transport, whole and cut at every byte, then a good call", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			cs := append(calls(17, 0), pduCalls(calls(17, 0))...)
			if q.Thorough {
				cs = append(cs, calls(247, 2)...)
				cs = append(cs, calls(1, 3)...)
			}
			for _, cl := range cs {
				cl := cl
				q.Seq(fmt.Sprintf("%s %s", x, cl.name), func() {
					for code := 0; code < 256; code++ {
						p := []byte{cl.req[0] | 0x80, byte(code)}
						excRun(x, &cl, func(g *rig, e *exch) [][]byte { return one(g.frame(e.tid, e.unit, p)) }, code, fmt.Sprintf("exception %d", code))
						if code > 12 && code < 254 && !q.Thorough {
							continue
						}
						n := map[xport]int{xTCP: 9, xRTU: 5, xASCII: 11}[x]
						for c := 1; c < n; c++ {
							for d := c; d < n; d++ {
								excRun(x, &cl, func(g *rig, e *exch) [][]byte {
									f := g.frame(e.tid, e.unit, p)
									if d == c {
										return [][]byte{f[:c], f[c:]}
									}
									return [][]byte{f[:c], f[c:d], f[d:]}
								}, code, fmt.Sprintf("exception %d in pieces (%d,%d)", code, c, d))
							}
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C16", Name: "not-exceptions", Desc: "replies with every other function code, and exception replies of other units, requests or protocols, and damaged ones", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for _, cl := range append(calls(17, 0), pduCalls(calls(17, 0))...) {
				cl := cl
				q.Seq(fmt.Sprintf("%s %s", x, cl.name), func() {
					for f := 0; f < 256; f++ {
						if byte(f) == cl.req[0] || byte(f) == cl.req[0]|0x80 {
							continue
						}
						for _, tail := range [][]byte{{2}, {0}, {byte(f)}, {}, {1, 2}, cl.rsp[1:]} {
							p := append([]byte{byte(f)}, tail...)
							excRun(x, &cl, func(g *rig, e *exch) [][]byte { return one(g.frame(e.tid, e.unit, p)) }, -1, fmt.Sprintf("a reply of function %d", f))
						}
					}
					p := []byte{cl.req[0] | 0x80, 3}
					for u := 0; u < 256; u++ {
						if byte(u) != cl.unit {
							excRun(x, &cl, func(g *rig, e *exch) [][]byte { return one(g.frame(e.tid, byte(u), p)) }, -1, fmt.Sprintf("an exception of unit %d", u))
						}
					}
					switch x {
					case xTCP:
						for k := 1; k < 65536; k++ {
							if k < 300 || k&(k-1) == 0 || k > 65000 || q.Thorough && k%7 == 0 {
								excRun(x, &cl, func(g *rig, e *exch) [][]byte { return one(fTCP(e.tid^k, e.unit, p)) }, -1, "an exception of another transaction")
								excRun(x, &cl, func(g *rig, e *exch) [][]byte { return one(fTCPpid(e.tid, k, e.unit, p)) }, -1, "an exception of another protocol")
							}
						}
					default:
						f0 := newEnv(x).frame(0, cl.unit, p)
						for i := range f0 {
							for b := 0; b < 256; b++ {
								s := put(f0, i, byte(b))
								if x == xASCII {
									if d, bad := unASCII(s); bad == "" && len(d) == 4 && d[0] == cl.unit && d[1] == p[0] && d[2] == p[1] {
										continue // a lower-case digit
									}
								}
								if !bytes.Equal(s, f0) {
									excRun(x, &cl, func(g *rig, e *exch) [][]byte { return one(s) }, -1, "a damaged exception")
								}
							}
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C16", Name: "exception-sequences", Desc: "sequences of good and exception replies on one client", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			depth := q.N(3, 4)
			q.Case(Case{Name: fmt.Sprintf("%s sequences of %d", x, depth), Split: true, Body: func() {
				cs := calls(17, 0)
				pool := []call{cs[0], cs[7], cs[3], cs[12], cs[13], cs[14]}
				var cur *call
				exc := -1
				g := newRig(x, func(g *rig, e *exch) {
					if exc >= 0 {
						g.reply(e, []byte{e.pdu[0] | 0x80, byte(exc)})
					} else {
						g.reply(e, cur.rsp)
					}
				})
				h := ""
				for i := 0; i < depth; i++ {
					cur = &pool[vrt.Pick(len(pool))]
					exc = vrt.Pick(4) - 1
					if exc == 2 {
						exc = 11
					}
					h += fmt.Sprintf(" %s/%d", cur.name, exc)
					v, err := attempt(cur.name, func() (interface{}, error) { return cur.do(g.c) })
					Checked()
					if exc < 0 && (err != nil || show(v) != show(cur.conv(cur.rsp))) {
						vrt.Fail("%s:%s: got %s, %v", x, h, show(v), err)
					}
					if exc >= 0 && isExc(err) != exc {
						vrt.Fail("%s:%s: got %s, %v", x, h, show(v), err)
					}
				}
			}})
		}
	}})
}

// ---- C17 ----

func chunked(x xport, cl *call, cuts []int, gap rtime.Duration) {
	vrt.Tick()
	g := newRig(x, func(g *rig, e *exch) {
		f := g.frame(e.tid, e.unit, cl.rsp)
		p := 0
		for i := 0; i <= len(cuts); i++ {
			end := len(f)
			if i < len(cuts) {
				end = cuts[i]
			}
			g.send(e, rtime.Duration(i)*gap, f[p:end])
			p = end
		}
	})
	for k := 0; k < 2; k++ {
		v, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
		Checked()
		if err != nil || show(v) != show(cl.conv(cl.rsp)) {
			vrt.Fail("%s over %s: the correct reply [%s] cut at %v with pauses of %v gives %s, %v", cl.name, x, hexs(g.frame(1, cl.unit, cl.rsp)), cuts, gap, show(v), err)
		}
	}
}

func regC17() {
	reg(Scenario{Prop: "C17", Name: "chunks", Desc: "every call's correct reply cut at every one and two positions and byte by byte, with pauses within the time-out", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for k := 0; k < 4; k++ {
				k := k
				cs := calls(17, k)
				cs = append(cs, pduCalls([]call{cs[0], cs[14]})...)
				for _, cl := range cs {
					cl := cl
					n := len(newEnv(x).frame(1, cl.unit, cl.rsp))
					q.Seq(fmt.Sprintf("%s %s/%d", x, cl.name, k), func() {
						gaps := []rtime.Duration{0, ms, 50 * ms, 400 * ms}
						chunked(x, &cl, nil, 0)
						for a := 1; a < n; a++ {
							for _, gap := range gaps {
								chunked(x, &cl, []int{a}, gap)
							}
							if n > 60 && !q.Thorough && a > 14 && a < n-6 && a%8 != 0 {
								continue
							}
							for b := a + 1; b < n; b++ {
								if n > 60 && b > 14 && b < n-6 && (!q.Thorough || b%8 != 0) {
									continue
								}
								for _, gap := range gaps {
									chunked(x, &cl, []int{a, b}, gap)
								}
							}
						}
						var all []int
						for a := 1; a < n; a++ {
							all = append(all, a)
						}
						for _, gap := range []rtime.Duration{0, ms / 4, cliTimeout * 9 / 10 / rtime.Duration(n)} {
							chunked(x, &cl, all, gap)
						}
						for _, m := range []int{2, 3, 4, 5, 7, 8} {
							var some []int
							for a := m; a < n; a += m {
								some = append(some, a)
							}
							for _, gap := range []rtime.Duration{0, cliTimeout * 8 / 10 / rtime.Duration(n/m+1)} {
								chunked(x, &cl, some, gap)
							}
						}
						// three cuts for short replies
						if n <= 24 && q.Thorough {
							for a := 1; a < n; a++ {
								for b := a + 1; b < n; b++ {
									for c := b + 1; c < n; c++ {
										chunked(x, &cl, []int{a, b, c}, ms)
										chunked(x, &cl, []int{a, b, c}, 250*ms)
									}
								}
							}
						}
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C17", Name: "fifo-lengths", Desc: "FIFO replies of every legal length, cut everywhere", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for nf := 0; nf <= 31; nf++ {
				nf := nf
				q.Seq(fmt.Sprintf("%s FIFO of %d", x, nf), func() {
					cl := calls(17, 0)[14]
					ff := be(wordsPat(5, nf)...)
					cl.rsp = cat([]byte{24}, be(uint16(2+len(ff)), uint16(nf)), ff)
					n := len(newEnv(x).frame(1, cl.unit, cl.rsp))
					var all []int
					for a := 1; a < n; a++ {
						all = append(all, a)
						for _, gap := range []rtime.Duration{0, ms, 400 * ms} {
							chunked(x, &cl, []int{a}, gap)
							for _, b := range []int{a + 1, a + 2, n - 2, n - 1} {
								if b > a && b < n {
									chunked(x, &cl, []int{a, b}, gap)
								}
							}
						}
					}
					chunked(x, &cl, all, 0)
					chunked(x, &cl, all, ms)
				})
			}
		}
	}})
}

// ---- C28 ----

// plausible says whether the request is one the specification defines, so that
// the reply's length follows from it.
func plausible(req []byte) bool { return replyFor(req, 1) != nil }

func rawPdu(x xport, viaSend bool, req, rsp []byte) {
	vrt.Tick()
	g := newRig(x, func(g *rig, e *exch) {
		if rsp != nil && len(rsp) <= 253 && e.bad == "" {
			g.reply(e, rsp)
		}
	})
	in := append([]byte(nil), req...)
	what := fmt.Sprintf("SendPdu of %d bytes [%s] over %s", len(req), hexs(req), x)
	if viaSend {
		what = "Send for " + what
	}
	out, err := attempt(what, func() (interface{}, error) {
		if viaSend {
			p, err := g.c.Send(17, modbus.ProtocolDataUnit{FuncCode: in[0], Data: in[1:]})
			return append([]byte{p.FuncCode}, p.Data...), err
		}
		b, err := g.c.SendPdu(17, in)
		return append([]byte{}, b...), err
	})
	Checked()
	if !bytes.Equal(in, req) {
		vrt.Fail("%s modified the caller's buffer", what)
	}
	if len(req) < 1 || len(req) > 253 {
		if err == nil || len(g.reqs) > 0 || len(g.junk) > 0 {
			vrt.Fail("%s must be refused without transmitting: error %v, sent %s", what, err, g.sent())
		}
		return
	}
	wire := cat(g.junk)
	tid := 0
	if len(g.reqs) > 0 {
		wire, tid = cat(g.reqs[0].raw, g.junk), g.reqs[0].tid
	}
	if len(g.reqs) > 1 || !bytes.Equal(wire, g.frame(tid, 17, req)) {
		vrt.Fail("%s sent %s instead of [%s] (error %v)", what, g.sent(), hexs(g.frame(tid, 17, req)), err)
	}
	if len(rsp) > 253 {
		return
	}
	if rsp == nil {
		if err == nil {
			vrt.Fail("%s returned [%s] although the device is silent", what, hexs(out.([]byte)))
		}
		return
	}
	if err != nil || !bytes.Equal(out.([]byte), rsp) {
		vrt.Fail("%s: the device answers with PDU [%s] (%d bytes) but the call returns [%s], %v", what, hexs(rsp), len(rsp), hexs(out.([]byte)), err)
	}
}

func regC28() {
	reg(Scenario{Prop: "C28", Name: "pdu-lengths", Desc: "raw PDUs of every length 0..300 and every function code", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for _, vs := range []bool{false, true} {
				vs := vs
				for f := 0; f < 256; f++ {
					f := f
					q.Seq(fmt.Sprintf("%s function %d send=%v", x, f, vs), func() {
						for n := 0; n <= 300; n++ {
							if n == 0 && vs {
								continue
							}
							if n > 20 && n < 245 && !q.Thorough && n%16 != 0 && f != 3 && f != 100 {
								continue
							}
							if n > 265 && n < 300 && !q.Thorough {
								continue
							}
							req := packPat(5, 8*n)
							if n > 0 {
								req[0] = byte(f)
							}
							if x == xRTU && f&0x80 == 0 && stdFC(byte(f)) {
								rawPdu(x, vs, req, replyFor(req, 1)) // nil: silent
							} else if f&0x80 != 0 {
								rawPdu(x, vs, req, nil)
							} else {
								m := 2 + (n*7+f)%252
								p := packPat(4, 8*m)
								p[0] = byte(f)
								rawPdu(x, vs, req, p)
							}
						}
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C28", Name: "pdu-replies", Desc: "replies of every length to raw PDUs", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for _, f := range []byte{1, 3, 5, 16, 17, 22, 23, 24, 43, 65, 100, 127} {
				f := f
				if x == xRTU && stdFC(f) {
					continue // the reply's length follows from the request there
				}
				q.Seq(fmt.Sprintf("%s function %d", x, f), func() {
					for m := 2; m <= 253; m++ {
						p := packPat(4, 8*m)
						p[0] = f
						for _, n := range []int{1, 2, 5, 6, 253} {
							req := packPat(5, 8*n)
							req[0] = f
							rawPdu(x, false, req, p)
							if q.Thorough {
								rawPdu(x, true, req, p)
							}
						}
					}
				})
			}
			q.Seq(fmt.Sprintf("%s typed requests", x), func() {
				for k := 0; k < 4; k++ {
					for _, cl := range calls(17, k) {
						rawPdu(x, false, cl.req, cl.rsp)
						rawPdu(x, true, cl.req, cl.rsp)
						for n := 1; n < len(cl.req); n++ { // cut short
							if x == xRTU && stdFC(cl.req[0]) {
								rawPdu(x, false, cl.req[:n], nil)
							}
						}
					}
				}
			})
		}
	}})
	reg(Scenario{Prop: "C28", Name: "pdu-reply-checks", Desc: "wrong, damaged and foreign replies to raw PDU calls", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for i, cl := range pduCalls(calls(17, 0)) {
				cl := cl
				if !q.Thorough && i%6 > 1 {
					continue
				}
				q.Seq(fmt.Sprintf("%s %s", x, cl.name), func() {
					cl := cl
					cl.loose = x == xRTU // the reply's length follows from the request there
					pduMutants(&cl, false, func(p []byte) {
						if len(p) <= 253 {
							tryReply(x, &cl, func(g *rig, e *exch) []byte { return g.frame(e.tid, e.unit, p) })
						}
					})
					g0, e0 := firstExch(x, &cl)
					rawMutants(x, &cl, e0, g0.frame(e0.tid, cl.unit, cl.rsp), false, func(name string, s []byte) {
						tryReply(x, &cl, func(g *rig, e *exch) []byte { return s })
					})
					for v := 0; v < 256; v++ {
						tryReply(x, &cl, func(g *rig, e *exch) []byte { return g.frame(e.tid, byte(v), cl.rsp) })
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C28", Name: "raw-frames", Desc: "raw frames of length 0..12, up to 300 and all correct requests", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			min := map[xport]int{xTCP: 8, xRTU: 4, xASCII: 9}[x]
			run := func(req []byte, rsp []byte) {
				vrt.Tick()
				g := newEnv(x)
				var got []byte
				arrive := func(send func(b []byte)) {
					if rsp != nil && (len(got) == len(req) || len(got) == 0) {
						send(rsp)
					}
				}
				if x == xTCP {
					g.setup = nil
					g.net.OnDial = vnetOnData(func(b []byte, send func([]byte)) {
						got = append(got, b...)
						arrive(send)
					})
				} else {
					g.line.OnWrite = lineOnData(func(b []byte, send func([]byte)) {
						got = append(got, b...)
						arrive(send)
					})
				}
				g.p = g.provider()
				g.c = modbus.NewClient(g.p)
				in := append([]byte(nil), req...)
				what := fmt.Sprintf("SendRawFrame of %d bytes [%s] over %s", len(req), hexs(req), x)
				out, err := attempt(what, func() (interface{}, error) {
					b, err := g.c.SendRawFrame(in)
					return append([]byte{}, b...), err
				})
				Checked()
				if !bytes.Equal(in, req) {
					vrt.Fail("%s modified the caller's buffer", what)
				}
				if len(req) < min && err != nil && len(got) == 0 {
					return // refusing what cannot be a frame is fine
				}
				if !bytes.Equal(got, req) {
					vrt.Fail("%s transmitted [%s] (error %v)", what, hexs(got), err)
				}
				if rsp == nil && err == nil {
					vrt.Fail("%s returned [%s] although the device is silent", what, hexs(out.([]byte)))
				}
				if rsp != nil && len(req) >= min && (err != nil || !bytes.Equal(out.([]byte), rsp)) {
					vrt.Fail("%s: the device answers [%s] but the call returns [%s], %v", what, hexs(rsp), hexs(out.([]byte)), err)
				}
			}
			q.Seq(fmt.Sprintf("%s short", x), func() {
				for n := 0; n <= 12; n++ {
					for f := 0; f < 256; f++ {
						for pat := 0; pat < 5; pat++ {
							b := packPat(pat, 8*n)
							if n > 1 {
								b[1] = byte(f)
							}
							run(b, nil)
							if n == 0 {
								break
							}
						}
						if n < 2 {
							break
						}
					}
				}
				for n := 13; n <= 600; n++ {
					run(packPat(5, 8*n), nil)
				}
			})
			q.Seq(fmt.Sprintf("%s requests", x), func() {
				g := newEnv(x)
				for k := 0; k < 4; k++ {
					for _, cl := range calls(17, k) {
						for _, tid := range []int{0, 1, 0x1234, 0xffff} {
							run(g.frame(tid, cl.unit, cl.req), g.frame(tid, cl.unit, cl.rsp))
							run(g.frame(tid, cl.unit, cl.req), g.frame(tid, cl.unit, []byte{cl.req[0] | 0x80, byte(tid)}))
							if x != xTCP {
								break
							}
						}
					}
				}
				// raw replies need not be checked against the request (except what
				// RTU needs to find the frame's end)
				for m := 2; m <= 253; m++ {
					p := packPat(5, 8*m)
					p[0] = 100
					run(g.frame(7, 17, []byte{100, 1, 2}), g.frame(7, 17, p))
					run(g.frame(7, 17, []byte{100}), g.frame(7, 17, p))
				}
			})
		}
	}})
}

func stdFC(f byte) bool {
	switch f {
	case 1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24:
		return true
	}
	return false
}

func init() {
	regC13()
	regReplies("C14", []xport{xTCP})
	regReplies("C15", []xport{xRTU, xASCII})
	regC16()
	regC17()
	regC28()
}
