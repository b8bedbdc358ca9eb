package main

import (
	"bytes"
	"fmt"

	"verifmc/modbus"
	"verifmc/vrt"
)

func uniq(xs ...int) []int {
	m := map[int]bool{}
	var r []int
	for _, x := range xs {
		if x >= 0 && x <= 65535 && !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

// addrsAround lists addresses worth trying for a table.
func addrsAround(start, n int, dense bool) []int {
	xs := []int{start - 9, start - 8, start - 3, start - 2, start - 1}
	if dense {
		for i := 0; i <= n+2; i++ {
			xs = append(xs, start+i)
		}
	} else {
		for _, o := range []int{0, 1, 2, 7, 8, 9, 15, 16, 255, 256, n / 2, n/2 + 1} {
			xs = append(xs, start+o, start+n-o)
		}
		xs = append(xs, start+n+1, start+n+2)
	}
	xs = append(xs, 0, 1, 255, 256, 32767, 32768, 65534, 65535, (start+n)&0xffff, (start+n-1)&0xffff)
	return uniq(xs...)
}

func qtysAround(a, start, n int, dense bool) []int {
	var xs []int
	if dense {
		for i := 1; i <= n+3; i++ {
			xs = append(xs, i)
		}
	} else {
		xs = append(xs, 1, 2, 7, 8, 9, 15, 16, 17, 255, 256, 257, 1999, 2000, 2001, n/2, n-1, n, n+1)
	}
	end := start + n - a // quantity that ends exactly at the table's end
	xs = append(xs, end-1, end, end+1, 65536-a-1, 65536-a, 65536-a+1, 65536-a+(start), 65536-a+start+n, 32767, 32768, 32769, 65534, 65535, 65528, 65529)
	r := uniq(xs...)
	out := r[:0]
	for _, v := range r {
		if v > 0 {
			out = append(out, v)
		}
	}
	return out
}

type geo struct{ s, n int }

func geometries(thorough bool) (small, large []geo) {
	for _, n := range []int{0, 1, 2, 7, 8, 9, 16, 17} {
		for _, s := range []int{0, 1, 5, 8, 250, 32767, 65536 - n - 1, 65536 - n} {
			if s >= 0 && s+n <= 65536 && s <= 65535 {
				small = append(small, geo{s, n})
			}
		}
	}
	if thorough {
		for _, n := range []int{3, 15, 24, 33} {
			for _, s := range []int{0, 3, 249, 65536 - n} {
				small = append(small, geo{s, n})
			}
		}
	}
	large = []geo{{0, 2500}, {7, 2003}, {65536 - 2100, 2100}, {0, 40000}, {30000, 35536}, {0, 65535}, {1, 65535}}
	return
}

// withOther places the other tables so that neighbours share storage.
func bitLayouts(g geo, which int) Layout {
	if which == 0 {
		return Layout{cs: g.s, cn: g.n, ds: (g.s + 3) & 0xff, dn: 11, is: 2, in: 3, hs: 4, hn: 3}
	}
	return Layout{cs: (g.s + 5) & 0xff, cn: 13, ds: g.s, dn: g.n, is: 2, in: 3, hs: 4, hn: 3}
}

type bitAPI struct {
	name  string
	tab   func(m *MNode) *MTab
	read  func(r *modbus.NodeRegister, a, q uint16) ([]byte, error)
	write func(r *modbus.NodeRegister, a, q uint16, b []byte) error
	r1    func(r *modbus.NodeRegister, a uint16) (bool, error)
	w1    func(r *modbus.NodeRegister, a uint16, v bool) error
}

var bitAPIs = []bitAPI{
	{"Coils", func(m *MNode) *MTab { return &m.coils }, (*modbus.NodeRegister).ReadCoils, (*modbus.NodeRegister).WriteCoils, (*modbus.NodeRegister).ReadSingleCoil, (*modbus.NodeRegister).WriteSingleCoil},
	{"Discretes", func(m *MNode) *MTab { return &m.disc }, (*modbus.NodeRegister).ReadDiscretes, (*modbus.NodeRegister).WriteDiscretes, (*modbus.NodeRegister).ReadSingleDiscrete, (*modbus.NodeRegister).WriteSingleDiscrete},
}

// bitRead / bitWrite perform one access on the node and on the model and
// compare the outcome (not yet the rest of the node).
func bitRead(p string, f *bitAPI, r *modbus.NodeRegister, m *MNode, a, q int) {
	t := f.tab(m)
	b, err := f.read(r, uint16(a), uint16(q))
	Checked()
	if t.ok(a, q) {
		if err != nil {
			vrt.Fail("%s: Read%s(%d,%d) of table @%d+%d refused: %v", p, f.name, a, q, t.start, t.n, err)
		}
		if w := t.readBits(a, q); !bytes.Equal(b, w) {
			vrt.Fail("%s: Read%s(%d,%d) of table @%d+%d = [%s], want [%s]", p, f.name, a, q, t.start, t.n, hexs(b), hexs(w))
		}
		for i := range b {
			b[i] = ^b[i] // results must be copies
		}
	} else if err == nil {
		vrt.Fail("%s: Read%s(%d,%d) of table @%d+%d accepted (returned %d bytes)", p, f.name, a, q, t.start, t.n, len(b))
	} else if isExc(err) != 2 {
		vrt.Fail("%s: Read%s(%d,%d) of table @%d+%d refused with %v, want illegal data address", p, f.name, a, q, t.start, t.n, err)
	}
}

func bitWrite(p string, f *bitAPI, r *modbus.NodeRegister, m *MNode, a, q int, v []byte) {
	t := f.tab(m)
	keep := append([]byte(nil), v...)
	err := f.write(r, uint16(a), uint16(q), v)
	Checked()
	if !bytes.Equal(keep, v) {
		vrt.Fail("%s: Write%s(%d,%d) changed the caller's buffer", p, f.name, a, q)
	}
	if t.ok(a, q) && len(v)*8 >= q {
		if err != nil {
			vrt.Fail("%s: Write%s(%d,%d,[%d bytes]) to table @%d+%d refused: %v", p, f.name, a, q, len(v), t.start, t.n, err)
		}
		t.writeBits(a, q, keep)
	} else if err == nil {
		vrt.Fail("%s: Write%s(%d,%d,[%d bytes]) to table @%d+%d accepted", p, f.name, a, q, len(v), t.start, t.n)
	} else if isExc(err) != 2 {
		vrt.Fail("%s: Write%s(%d,%d,[%d bytes]) to table @%d+%d refused with %v, want illegal data address", p, f.name, a, q, len(v), t.start, t.n, err)
	}
	for i := range v {
		v[i] = ^v[i] // the node must not keep the caller's buffer
	}
}

func needSame(r *modbus.NodeRegister, m *MNode, f string, a ...interface{}) {
	geo := func(what string, t *MTab, g func() (uint16, uint16)) {
		if st, n := g(); int(st) != t.start || int(n) != t.n {
			vrt.Fail("after "+fmt.Sprintf(f, a...)+": %s() = %d, %d on a table created @%d+%d", append([]interface{}{}, what, st, n, t.start, t.n)...)
		}
	}
	geo("CoilsAddrParam", &m.coils, r.CoilsAddrParam)
	geo("DiscreteParam", &m.disc, r.DiscreteParam)
	geo("InputAddrParam", &m.in, r.InputAddrParam)
	geo("HoldingAddrParam", &m.hold, r.HoldingAddrParam)
	if s := same(r, m); s != "" {
		vrt.Fail("after "+fmt.Sprintf(f, a...)+": %s", s)
	}
}

func bitGeo(f *bitAPI, which int, g geo, dense bool, pats []int) {
	l := bitLayouts(g, which)
	for _, p := range pats {
		r, m := newReal(7, l), newModel(7, l)
		fill(r, m, p)
		needSame(r, m, "filling %v", l)
		t := f.tab(m)
		for _, a := range addrsAround(t.start, t.n, dense) {
			if t.n <= 64 || a%3 == 0 {
				vrt.Tick()
			}
			v, err := f.r1(r, uint16(a))
			Checked()
			if t.ok(a, 1) != (err == nil) || err == nil && v != (t.v[a-t.start] == 1) || err != nil && isExc(err) != 2 {
				vrt.Fail("ReadSingle(%s,%d) of table @%d+%d = %v, %v", f.name, a, t.start, t.n, v, err)
			}
			for _, nv := range []bool{true, false, true} {
				err = f.w1(r, uint16(a), nv)
				Checked()
				if t.ok(a, 1) != (err == nil) || err != nil && isExc(err) != 2 {
					vrt.Fail("WriteSingle(%s,%d,%v) to table @%d+%d: %v", f.name, a, nv, t.start, t.n, err)
				}
				if err == nil {
					t.v[a-t.start] = map[bool]uint16{true: 1}[nv]
				}
				if t.n <= 64 {
					needSame(r, m, "WriteSingle %s(%d,%v) on %v", f.name, a, nv, l)
				}
			}
			if t.n > 64 {
				needSame(r, m, "WriteSingle %s(%d) on %v", f.name, a, l)
			}
			for _, q := range qtysAround(a, t.start, t.n, dense) {
				bitRead("", f, r, m, a, q)
				for vp := 0; vp < 4; vp++ {
					if !dense && vp != 3 && vp != (a+q)%3 {
						continue
					}
					b := packPat(vp, q)
					if vp == 1 { // set the bits beyond the quantity as well
						for i := range b {
							b[i] = 0xff
						}
					}
					bitWrite("", f, r, m, a, q, b)
					if t.n <= 64 {
						needSame(r, m, "Write%s(%d,%d,pattern %d) on %v", f.name, a, q, vp, l)
					}
				}
				n := (q + 7) / 8
				bitWrite("short value", f, r, m, a, q, make([]byte, n-1))
				bitWrite("empty value", f, r, m, a, q, nil)
				lb := packPat(4, 8*n+16)
				bitWrite("long value", f, r, m, a, q, lb)
				needSame(r, m, "long and short Write%s(%d,%d) on %v", f.name, a, q, l)
			}
		}
	}
}

// word tables

type wordAPI struct {
	name   string
	tab    func(m *MNode) *MTab
	read   func(r *modbus.NodeRegister, a, q uint16) ([]uint16, error)
	readB  func(r *modbus.NodeRegister, a, q uint16) ([]byte, error)
	write  func(r *modbus.NodeRegister, a uint16, w []uint16) error
	writeB func(r *modbus.NodeRegister, a, q uint16, b []byte) error
}

var wordAPIs = []wordAPI{
	{"Holdings", func(m *MNode) *MTab { return &m.hold }, (*modbus.NodeRegister).ReadHoldings, (*modbus.NodeRegister).ReadHoldingsBytes, (*modbus.NodeRegister).WriteHoldings, (*modbus.NodeRegister).WriteHoldingsBytes},
	{"Inputs", func(m *MNode) *MTab { return &m.in }, (*modbus.NodeRegister).ReadInputs, (*modbus.NodeRegister).ReadInputsBytes, (*modbus.NodeRegister).WriteInputs, (*modbus.NodeRegister).WriteInputsBytes},
}

func wordLayouts(g geo, which int) Layout {
	if which == 0 {
		return Layout{cs: 1, cn: 9, ds: 2, dn: 7, is: (g.s + 3) & 0xff, in: 4, hs: g.s, hn: g.n}
	}
	return Layout{cs: 1, cn: 9, ds: 2, dn: 7, is: g.s, in: g.n, hs: (g.s + 3) & 0xff, hn: 4}
}

func wordRead(f *wordAPI, r *modbus.NodeRegister, m *MNode, a, q int) {
	t := f.tab(m)
	w, err := f.read(r, uint16(a), uint16(q))
	b, errB := f.readB(r, uint16(a), uint16(q))
	Checked()
	if t.ok(a, q) {
		want := t.read(a, q)
		if err != nil || errB != nil {
			vrt.Fail("Read%s(%d,%d) of table @%d+%d refused: %v / %v", f.name, a, q, t.start, t.n, err, errB)
		}
		if !eqWords(w, want) {
			vrt.Fail("Read%s(%d,%d) of table @%d+%d = %x, want %x", f.name, a, q, t.start, t.n, clipw(w), clipw(want))
		}
		if !bytes.Equal(b, be(want...)) {
			vrt.Fail("Read%sBytes(%d,%d) of table @%d+%d = [%s], want [%s]", f.name, a, q, t.start, t.n, hexs(b), hexs(be(want...)))
		}
		for i := range w {
			w[i] ^= 0xffff
		}
		for i := range b {
			b[i] ^= 0xff
		}
		return
	}
	if err == nil || errB == nil {
		vrt.Fail("Read%s(%d,%d) of table @%d+%d accepted (word form: %v, byte form: %v)", f.name, a, q, t.start, t.n, err, errB)
	}
	if isExc(err) < 0 || isExc(errB) < 0 {
		vrt.Fail("Read%s(%d,%d) refused without an exception: %v / %v", f.name, a, q, err, errB)
	}
}

func wordWrite(f *wordAPI, r *modbus.NodeRegister, m *MNode, a int, w []uint16) {
	t := f.tab(m)
	keep := append([]uint16(nil), w...)
	err := f.write(r, uint16(a), w)
	Checked()
	if !eqWords(keep, w) {
		vrt.Fail("Write%s(%d,[%d]) changed the caller's slice", f.name, a, len(w))
	}
	if t.ok(a, len(w)) {
		if err != nil {
			vrt.Fail("Write%s(%d,[%d words]) to table @%d+%d refused: %v", f.name, a, len(w), t.start, t.n, err)
		}
		t.write(a, keep)
	} else if err == nil {
		vrt.Fail("Write%s(%d,[%d words]) to table @%d+%d accepted", f.name, a, len(w), t.start, t.n)
	} else if isExc(err) < 0 {
		vrt.Fail("Write%s(%d,[%d words]) refused without an exception: %v", f.name, a, len(w), err)
	}
	for i := range w {
		w[i] ^= 0xffff
	}
}

func wordWriteB(f *wordAPI, r *modbus.NodeRegister, m *MNode, a, q int, b []byte) {
	t := f.tab(m)
	keep := append([]byte(nil), b...)
	err := f.writeB(r, uint16(a), uint16(q), b)
	Checked()
	if !bytes.Equal(keep, b) {
		vrt.Fail("Write%sBytes(%d,%d) changed the caller's buffer", f.name, a, q)
	}
	if t.ok(a, q) && len(b) == 2*q {
		if err != nil {
			vrt.Fail("Write%sBytes(%d,%d,[%d bytes]) to table @%d+%d refused: %v", f.name, a, q, len(b), t.start, t.n, err)
		}
		t.write(a, words(keep))
	} else if err == nil {
		vrt.Fail("Write%sBytes(%d,%d,[%d bytes]) to table @%d+%d accepted", f.name, a, q, len(b), t.start, t.n)
	} else if isExc(err) < 0 {
		vrt.Fail("Write%sBytes(%d,%d,[%d bytes]) refused without an exception: %v", f.name, a, q, len(b), err)
	}
	for i := range b {
		b[i] ^= 0xff
	}
}

func wordGeo(f *wordAPI, which int, g geo, dense bool, pats []int) {
	l := wordLayouts(g, which)
	for _, p := range pats {
		r, m := newReal(7, l), newModel(7, l)
		fill(r, m, p)
		needSame(r, m, "filling %v", l)
		t := f.tab(m)
		for _, a := range addrsAround(t.start, t.n, dense) {
			for _, q := range qtysAround(a, t.start, t.n, dense) {
				vrt.Tick()
				wordRead(f, r, m, a, q)
				for vp := 1; vp < 5; vp++ {
					if !dense && vp != 3 {
						continue
					}
					wordWrite(f, r, m, a, wordsPat(vp, q))
					if t.n <= 64 {
						needSame(r, m, "Write%s(%d,[%d] pattern %d) on %v", f.name, a, q, vp, l)
					}
					wordWriteB(f, r, m, a, q, be(wordsPat(vp+1, q)...))
					if t.n <= 64 {
						needSame(r, m, "Write%sBytes(%d,%d pattern %d) on %v", f.name, a, q, vp+1, l)
					}
				}
				for _, n := range []int{0, 1, 2*q - 2, 2*q - 1, 2*q + 1, 2*q + 2, 2*q - 65536, 2*q + 65536, q} {
					if n >= 0 && n != 2*q {
						wordWriteB(f, r, m, a, q, be(wordsPat(3, n/2+1)...)[:n])
					}
				}
				needSame(r, m, "Write%s and wrong-length Write%sBytes(%d,%d) on %v", f.name, f.name, a, q, l)
			}
			for _, n := range []int{65536, 65537, 65536 + t.n} {
				wordWrite(f, r, m, a, wordsPat(3, n))
			}
			needSame(r, m, "very long Write%s(%d) on %v", f.name, a, l)
		}
	}
}

func maskGeo(g geo, dense bool) {
	l := wordLayouts(g, 0)
	r, m := newReal(7, l), newModel(7, l)
	fill(r, m, 3)
	t := &m.hold
	vals := []uint16{0, 0xffff, 0x5555, 0xaaaa, 0x00f2, 0x0025, 0x8001, 0x0012, 0xff00}
	for _, a := range addrsAround(t.start, t.n, dense) {
		for _, and := range vals {
			for _, or := range vals {
				for _, old := range vals {
					vrt.Tick()
					if t.ok(a, 1) {
						if err := r.WriteHoldings(uint16(a), []uint16{old}); err != nil {
							vrt.Fail("WriteHoldings(%d) on %v: %v", a, l, err)
						}
						t.v[a-t.start] = old
					}
					err := r.MaskWriteHolding(uint16(a), and, or)
					Checked()
					if !t.ok(a, 1) {
						if isExc(err) != 2 {
							vrt.Fail("MaskWriteHolding(%d,%04x,%04x) outside table @%d+%d: %v, want illegal data address", a, and, or, t.start, t.n, err)
						}
						continue
					}
					if err != nil {
						vrt.Fail("MaskWriteHolding(%d,%04x,%04x) in table @%d+%d refused: %v", a, and, or, t.start, t.n, err)
					}
					t.v[a-t.start] = old&and | or&^and
					if t.n <= 64 {
						needSame(r, m, "MaskWriteHolding(%d,%04x,%04x) of %04x on %v", a, and, or, old, l)
					} else if w, err := r.ReadHoldings(uint16(a), 1); err != nil || w[0] != t.v[a-t.start] {
						vrt.Fail("MaskWriteHolding(%d,%04x,%04x) of %04x on %v: register is %x (%v), want %x", a, and, or, old, l, w, err, t.v[a-t.start])
					}
				}
			}
		}
		needSame(r, m, "MaskWriteHolding(%d) on %v", a, l)
	}
}

func init() {
	reg(Scenario{Prop: "C01", Name: "bit-ranges", Desc: "every address x quantity x value around tables of every alignment, whole node compared after each access",
		Gen: func(q *Q) {
			small, large := geometries(q.Thorough)
			for w := range bitAPIs {
				for _, g := range small {
					w, g := w, g
					q.Seq(fmt.Sprintf("%s @%d+%d", bitAPIs[w].name, g.s, g.n), func() { bitGeo(&bitAPIs[w], w, g, true, []int{0, 1, 3}) })
				}
				for _, g := range large {
					w, g := w, g
					q.Seq(fmt.Sprintf("%s @%d+%d", bitAPIs[w].name, g.s, g.n), func() { bitGeo(&bitAPIs[w], w, g, false, []int{3}) })
				}
			}
		}})
	reg(Scenario{Prop: "C01", Name: "bit-histories", Desc: "all operation sequences of bit reads and writes up to a depth on one node",
		Gen: func(q *Q) {
			depth := q.N(3, 4)
			for w := range bitAPIs {
				w := w
				l := bitLayouts(geo{3, 10}, w)
				f := &bitAPIs[w]
				type op struct {
					a, q int
					pat  int // -1 read
				}
				var ops []op
				for _, aq := range [][2]int{{3, 1}, {4, 9}, {3, 10}, {5, 8}, {12, 1}, {12, 2}, {2, 3}, {9, 4}} {
					ops = append(ops, op{aq[0], aq[1], -1}, op{aq[0], aq[1], 1}, op{aq[0], aq[1], 3})
				}
				for first := range ops {
					first := first
					q.Seq(fmt.Sprintf("%s first op %d", f.name, first), func() {
						var rec func(seq []op)
						rec = func(seq []op) {
							r, m := newReal(9, l), newModel(9, l)
							fill(r, m, 2)
							for _, o := range seq {
								if o.pat < 0 {
									bitRead(fmt.Sprint("history ", seq), f, r, m, o.a, o.q)
								} else {
									bitWrite(fmt.Sprint("history ", seq), f, r, m, o.a, o.q, packPat(o.pat, o.q))
								}
							}
							needSame(r, m, "history %v", seq)
							if len(seq) == depth {
								return
							}
							for _, o := range ops {
								rec(append(seq[:len(seq):len(seq)], o))
							}
						}
						rec([]op{ops[first]})
					})
				}
			}
		}})
	reg(Scenario{Prop: "C02", Name: "word-ranges", Desc: "every address x quantity x value around word tables, byte and word forms, whole node compared after each access",
		Gen: func(q *Q) {
			small, large := geometries(q.Thorough)
			for w := range wordAPIs {
				for _, g := range small {
					w, g := w, g
					q.Seq(fmt.Sprintf("%s @%d+%d", wordAPIs[w].name, g.s, g.n), func() { wordGeo(&wordAPIs[w], w, g, true, []int{0, 3}) })
				}
				for _, g := range large {
					w, g := w, g
					q.Seq(fmt.Sprintf("%s @%d+%d", wordAPIs[w].name, g.s, g.n), func() { wordGeo(&wordAPIs[w], w, g, false, []int{3}) })
				}
			}
		}})
	reg(Scenario{Prop: "C02", Name: "word-histories", Desc: "all operation sequences of word reads, writes and mask writes up to a depth on one node",
		Gen: func(q *Q) {
			depth := q.N(3, 4)
			for w := range wordAPIs {
				w := w
				l := wordLayouts(geo{4, 4}, w)
				f := &wordAPIs[w]
				type op struct{ kind, a, q int }
				var ops []op
				for _, aq := range [][2]int{{4, 1}, {4, 4}, {5, 2}, {7, 1}, {7, 2}, {3, 2}} {
					for k := 0; k < 3; k++ {
						ops = append(ops, op{k, aq[0], aq[1]})
					}
				}
				for first := range ops {
					first := first
					q.Seq(fmt.Sprintf("%s first op %d", f.name, first), func() {
						var rec func(seq []op)
						rec = func(seq []op) {
							r, m := newReal(9, l), newModel(9, l)
							fill(r, m, 2)
							for i, o := range seq {
								switch o.kind {
								case 0:
									wordRead(f, r, m, o.a, o.q)
								case 1:
									wordWrite(f, r, m, o.a, wordsPat(3+i, o.q))
								case 2:
									wordWriteB(f, r, m, o.a, o.q, be(wordsPat(3+i, o.q)...))
								}
							}
							needSame(r, m, "history %v", seq)
							if len(seq) == depth {
								return
							}
							for _, o := range ops {
								rec(append(seq[:len(seq):len(seq)], o))
							}
						}
						rec([]op{ops[first]})
					})
				}
			}
		}})
	reg(Scenario{Prop: "C03", Name: "mask-write", Desc: "every address around holding tables of every placement x old value x masks, whole node compared after each",
		Gen: func(q *Q) {
			small, large := geometries(q.Thorough)
			for _, g := range small {
				g := g
				q.Seq(fmt.Sprintf("@%d+%d", g.s, g.n), func() { maskGeo(g, true) })
			}
			for _, g := range large {
				g := g
				q.Seq(fmt.Sprintf("@%d+%d", g.s, g.n), func() { maskGeo(g, false) })
			}
		}})
}
