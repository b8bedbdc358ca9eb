package main

import (
	"bytes"
	"fmt"

	"verifmc/modbus"
	"verifmc/vrt"
)

// The reference model of a node: four independent tables, nothing else.

// MTab is one table; bits are stored as 0/1.
type MTab struct {
	start, n int
	v        []uint16
}

func mtab(start, n int) MTab { return MTab{start, n, make([]uint16, n)} }

func (t *MTab) ok(a, q int) bool { return q >= 1 && a >= t.start && a+q <= t.start+t.n }

// MNode is the model of one unit.
type MNode struct {
	unit                  byte
	coils, disc, in, hold MTab
}

// Layout places the tables.
type Layout struct {
	cs, cn, ds, dn, is, in, hs, hn int
}

func (l Layout) String() string {
	return fmt.Sprintf("coils@%d+%d discrete@%d+%d input@%d+%d holding@%d+%d", l.cs, l.cn, l.ds, l.dn, l.is, l.in, l.hs, l.hn)
}

func newModel(unit byte, l Layout) *MNode {
	return &MNode{unit, mtab(l.cs, l.cn), mtab(l.ds, l.dn), mtab(l.is, l.in), mtab(l.hs, l.hn)}
}

func (m *MNode) clone() *MNode {
	c := *m
	for _, t := range []*MTab{&c.coils, &c.disc, &c.in, &c.hold} {
		t.v = append([]uint16(nil), t.v...)
	}
	return &c
}

func (m *MNode) key() string { return fmt.Sprint(m.coils.v, m.disc.v, m.in.v, m.hold.v) }

func newReal(unit byte, l Layout) *modbus.NodeRegister {
	return modbus.NewNodeRegister(unit, uint16(l.cs), uint16(l.cn), uint16(l.ds), uint16(l.dn), uint16(l.is), uint16(l.in), uint16(l.hs), uint16(l.hn))
}

// pattern gives the k-th bit / word of fill pattern p.
func patBit(p, k int) uint16 {
	switch p {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return uint16(k+1) & 1
	}
	return uint16((uint32(k)*2654435761+uint32(p)*40503*7919)>>29) & 1
}

func patWord(p, k int) uint16 {
	switch p {
	case 0:
		return 0
	case 1:
		return 0xffff
	case 2:
		return uint16(0x0102 + k*0x0101)
	}
	return uint16((uint32(k+1)*2654435761 + uint32(p)*40503*7919) >> 15)
}

// pack puts n pattern bits into bytes.
func packPat(p, n int) []byte {
	b := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		b[i/8] |= byte(patBit(p, i)) << uint(i%8)
	}
	return b
}

func wordsPat(p, n int) []uint16 {
	w := make([]uint16, n)
	for i := range w {
		w[i] = patWord(p, i)
	}
	return w
}

func be(w ...uint16) []byte {
	b := make([]byte, 0, 2*len(w))
	for _, v := range w {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}

func u16(b []byte) int { return int(b[0])<<8 | int(b[1]) }

func packBits(v []uint16) []byte {
	b := make([]byte, (len(v)+7)/8)
	for i, x := range v {
		b[i/8] |= byte(x&1) << uint(i%8)
	}
	return b
}

func (t *MTab) readBits(a, q int) []byte { return packBits(t.v[a-t.start : a-t.start+q]) }

func (t *MTab) writeBits(a, q int, b []byte) {
	for i := 0; i < q; i++ {
		t.v[a-t.start+i] = uint16(b[i/8]>>uint(i%8)) & 1
	}
}

func (t *MTab) read(a, q int) []uint16 { return append([]uint16(nil), t.v[a-t.start:a-t.start+q]...) }

func (t *MTab) write(a int, w []uint16) { copy(t.v[a-t.start:], w) }

func words(b []byte) []uint16 {
	w := make([]uint16, len(b)/2)
	for i := range w {
		w[i] = uint16(u16(b[2*i:]))
	}
	return w
}

func eqWords(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fill sets every table of a node and its model to pattern p.
func fill(r *modbus.NodeRegister, m *MNode, p int) {
	vrt.Tick()
	if m.coils.n > 0 {
		b := packPat(p, m.coils.n)
		if err := r.WriteCoils(uint16(m.coils.start), uint16(m.coils.n), b); err != nil {
			vrt.Fail("WriteCoils(%d,%d) over the whole table: %v", m.coils.start, m.coils.n, err)
		}
		m.coils.writeBits(m.coils.start, m.coils.n, b)
	}
	if m.disc.n > 0 {
		b := packPat(p+1, m.disc.n)
		if err := r.WriteDiscretes(uint16(m.disc.start), uint16(m.disc.n), b); err != nil {
			vrt.Fail("WriteDiscretes(%d,%d) over the whole table: %v", m.disc.start, m.disc.n, err)
		}
		m.disc.writeBits(m.disc.start, m.disc.n, b)
	}
	if m.in.n > 0 {
		w := wordsPat(p, m.in.n)
		if err := r.WriteInputs(uint16(m.in.start), w); err != nil {
			vrt.Fail("WriteInputs(%d,[%d]) over the whole table: %v", m.in.start, m.in.n, err)
		}
		m.in.write(m.in.start, w)
	}
	if m.hold.n > 0 {
		w := wordsPat(p+1, m.hold.n)
		if err := r.WriteHoldings(uint16(m.hold.start), w); err != nil {
			vrt.Fail("WriteHoldings(%d,[%d]) over the whole table: %v", m.hold.start, m.hold.n, err)
		}
		m.hold.write(m.hold.start, w)
	}
}

// same compares a whole node with its model; "" if equal.
func same(r *modbus.NodeRegister, m *MNode) string {
	vrt.Tick()
	Checked()
	bits := func(what string, t *MTab, f func(a, q uint16) ([]byte, error)) string {
		if t.n == 0 {
			return ""
		}
		b, err := f(uint16(t.start), uint16(t.n))
		if err != nil {
			return fmt.Sprintf("%s: reading the whole table @%d+%d: %v", what, t.start, t.n, err)
		}
		if w := packBits(t.v); !bytes.Equal(b, w) {
			return fmt.Sprintf("%s @%d+%d are [% x], want [% x]", what, t.start, t.n, clip(b), clip(w))
		}
		return ""
	}
	ws := func(what string, t *MTab, f func(a, q uint16) ([]uint16, error)) string {
		if t.n == 0 {
			return ""
		}
		b, err := f(uint16(t.start), uint16(t.n))
		if err != nil {
			return fmt.Sprintf("%s: reading the whole table @%d+%d: %v", what, t.start, t.n, err)
		}
		if !eqWords(b, t.v) {
			return fmt.Sprintf("%s @%d+%d are %x, want %x", what, t.start, t.n, clipw(b), clipw(t.v))
		}
		return ""
	}
	if s := bits("coils", &m.coils, r.ReadCoils); s != "" {
		return s
	}
	if s := bits("discrete inputs", &m.disc, r.ReadDiscretes); s != "" {
		return s
	}
	if s := ws("input registers", &m.in, r.ReadInputs); s != "" {
		return s
	}
	return ws("holding registers", &m.hold, r.ReadHoldings)
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func clipw(b []uint16) []uint16 {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// Exec executes one request PDU and returns the reply PDU.
func (m *MNode) Exec(pdu []byte) []byte {
	fc, d := pdu[0], pdu[1:]
	exc := func(c byte) []byte { return []byte{fc | 0x80, c} }
	switch fc {
	case 1, 2:
		if len(d) != 4 {
			return exc(3)
		}
		a, q := u16(d), u16(d[2:])
		if q < 1 || q > 2000 {
			return exc(3)
		}
		t := &m.coils
		if fc == 2 {
			t = &m.disc
		}
		if !t.ok(a, q) {
			return exc(2)
		}
		b := t.readBits(a, q)
		return append([]byte{fc, byte(len(b))}, b...)
	case 3, 4:
		if len(d) != 4 {
			return exc(3)
		}
		a, q := u16(d), u16(d[2:])
		if q < 1 || q > 125 {
			return exc(3)
		}
		t := &m.hold
		if fc == 4 {
			t = &m.in
		}
		if !t.ok(a, q) {
			return exc(2)
		}
		return append([]byte{fc, byte(2 * q)}, be(t.read(a, q)...)...)
	case 5:
		if len(d) != 4 {
			return exc(3)
		}
		a, v := u16(d), u16(d[2:])
		if v != 0 && v != 0xff00 {
			return exc(3)
		}
		if !m.coils.ok(a, 1) {
			return exc(2)
		}
		m.coils.v[a-m.coils.start] = uint16(v >> 15)
		return append([]byte(nil), pdu...)
	case 6:
		if len(d) != 4 {
			return exc(3)
		}
		a := u16(d)
		if !m.hold.ok(a, 1) {
			return exc(2)
		}
		m.hold.v[a-m.hold.start] = uint16(u16(d[2:]))
		return append([]byte(nil), pdu...)
	case 15:
		if len(d) < 5 {
			return exc(3)
		}
		a, q, c := u16(d), u16(d[2:]), int(d[4])
		if q < 1 || q > 1968 || c != (q+7)/8 || len(d) != 5+c {
			return exc(3)
		}
		if !m.coils.ok(a, q) {
			return exc(2)
		}
		m.coils.writeBits(a, q, d[5:])
		return append([]byte(nil), pdu[:5]...)
	case 16:
		if len(d) < 5 {
			return exc(3)
		}
		a, q, c := u16(d), u16(d[2:]), int(d[4])
		if q < 1 || q > 123 || c != 2*q || len(d) != 5+c {
			return exc(3)
		}
		if !m.hold.ok(a, q) {
			return exc(2)
		}
		m.hold.write(a, words(d[5:]))
		return append([]byte(nil), pdu[:5]...)
	case 22:
		if len(d) != 6 {
			return exc(3)
		}
		a := u16(d)
		and, or := uint16(u16(d[2:])), uint16(u16(d[4:]))
		if !m.hold.ok(a, 1) {
			return exc(2)
		}
		p := &m.hold.v[a-m.hold.start]
		*p = *p&and | or&^and
		return append([]byte(nil), pdu...)
	case 23:
		if len(d) < 9 {
			return exc(3)
		}
		ra, rq, wa, wq, c := u16(d), u16(d[2:]), u16(d[4:]), u16(d[6:]), int(d[8])
		if rq < 1 || rq > 125 || wq < 1 || wq > 121 || c != 2*wq || len(d) != 9+c {
			return exc(3)
		}
		if !m.hold.ok(ra, rq) || !m.hold.ok(wa, wq) {
			return exc(2)
		}
		m.hold.write(wa, words(d[9:]))
		return append([]byte{fc, byte(2 * rq)}, be(m.hold.read(ra, rq)...)...)
	}
	return exc(1)
}

// request builders

func pRead(fc byte, a, q int) []byte { return append([]byte{fc}, be(uint16(a), uint16(q))...) }

func pW1(fc byte, a, v int) []byte { return append([]byte{fc}, be(uint16(a), uint16(v))...) }

func pWCoils(a, q int, b []byte) []byte {
	return append(append(append([]byte{15}, be(uint16(a), uint16(q))...), byte(len(b))), b...)
}

func pWRegs(a int, w []uint16) []byte {
	return append(append(append([]byte{16}, be(uint16(a), uint16(len(w)))...), byte(2*len(w))), be(w...)...)
}

func pMask(a int, and, or uint16) []byte { return append([]byte{22}, be(uint16(a), and, or)...) }

func pRW(ra, rq, wa int, w []uint16) []byte {
	return append(append(append([]byte{23}, be(uint16(ra), uint16(rq), uint16(wa), uint16(len(w)))...), byte(2*len(w))), be(w...)...)
}

func pFIFO(a int) []byte { return append([]byte{24}, be(uint16(a))...) }

// frames

func crcRef(b []byte) uint16 {
	c := uint16(0xffff)
	for _, v := range b {
		c ^= uint16(v)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xa001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

func lrcRef(b []byte) byte {
	s := 0
	for _, v := range b {
		s += int(v)
	}
	return byte(256 - s%256)
}

func fTCP(tid int, unit byte, pdu []byte) []byte {
	return append(append(be(uint16(tid), 0, uint16(len(pdu)+1)), unit), pdu...)
}

func fTCPpid(tid, pid int, unit byte, pdu []byte) []byte {
	return append(append(be(uint16(tid), uint16(pid), uint16(len(pdu)+1)), unit), pdu...)
}

func fRTU(unit byte, pdu []byte) []byte {
	b := append([]byte{unit}, pdu...)
	c := crcRef(b)
	return append(b, byte(c), byte(c>>8))
}

func fASCII(unit byte, pdu []byte) []byte {
	b := append([]byte{unit}, pdu...)
	b = append(b, lrcRef(b))
	s := ":"
	for _, v := range b {
		s += fmt.Sprintf("%02X", v)
	}
	return []byte(s + "\r\n")
}
