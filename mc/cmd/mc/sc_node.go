package main

import (
	"fmt"
	"sort"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// C04: concurrent node operations; C05: the unit directory.

type nodeOp struct {
	name  string
	fam   int // table: 0 coils 1 discretes 2 holding 3 input 4 none
	run   func(r *modbus.NodeRegister) string
	apply func(m *MNode) string
}

var concLayout = Layout{cs: 3, cn: 10, ds: 2, dn: 10, is: 4, in: 3, hs: 5, hn: 3}

func nodeOps() []nodeOp {
	var ops []nodeOp
	e := func(err error) string {
		if err != nil {
			return "exc " + fmt.Sprint(isExc(err))
		}
		return "ok"
	}
	wb := func(fam int, a, q, p int) {
		f := &bitAPIs[fam]
		ops = append(ops, nodeOp{fmt.Sprintf("Write%s(%d,%d,p%d)", f.name, a, q, p), fam,
			func(r *modbus.NodeRegister) string {
				return e(f.write(r, uint16(a), uint16(q), packPat(p, q)))
			}, func(m *MNode) string {
				if !f.tab(m).ok(a, q) {
					return "exc 2"
				}
				f.tab(m).writeBits(a, q, packPat(p, q))
				return "ok"
			}})
	}
	rb := func(fam int, a, q int) {
		f := &bitAPIs[fam]
		ops = append(ops, nodeOp{fmt.Sprintf("Read%s(%d,%d)", f.name, a, q), fam,
			func(r *modbus.NodeRegister) string {
				b, err := f.read(r, uint16(a), uint16(q))
				if err != nil {
					return e(err)
				}
				return fmt.Sprintf("%x", b)
			}, func(m *MNode) string { return fmt.Sprintf("%x", f.tab(m).readBits(a, q)) }})
	}
	for fam := 0; fam < 2; fam++ {
		f := &bitAPIs[fam]
		wb(fam, 3, 9, 1)
		wb(fam, 4, 8, 0)
		wb(fam, 3, 9, 3)
		rb(fam, 3, 9)
		wb(fam, 9, 9, 1) // out of range
		ops = append(ops, nodeOp{"WriteSingle" + f.name + "(5,on)", fam, func(r *modbus.NodeRegister) string { return e(f.w1(r, 5, true)) },
			func(m *MNode) string { t := f.tab(m); t.v[5-t.start] = 1; return "ok" }},
			nodeOp{"WriteSingle" + f.name + "(11,off)", fam, func(r *modbus.NodeRegister) string { return e(f.w1(r, 11, false)) },
				func(m *MNode) string { t := f.tab(m); t.v[11-t.start] = 0; return "ok" }},
			nodeOp{"ReadSingle" + f.name + "(5)", fam, func(r *modbus.NodeRegister) string {
				v, err := f.r1(r, 5)
				if err != nil {
					return e(err)
				}
				return fmt.Sprint(v)
			}, func(m *MNode) string { t := f.tab(m); return fmt.Sprint(t.v[5-t.start] == 1) }})
	}
	for w := 0; w < 2; w++ {
		f := &wordAPIs[w]
		fam := 2
		if f.tab(&MNode{hold: MTab{n: 1}}).n == 0 {
			fam = 3
		}
		t0 := f.tab(newModel(0, concLayout)).start
		for _, p := range []int{1, 3} {
			p := p
			ops = append(ops, nodeOp{fmt.Sprintf("Write%s(%d,[3]p%d)", f.name, t0, p), fam,
				func(r *modbus.NodeRegister) string { return e(f.write(r, uint16(t0), wordsPat(p, 3))) },
				func(m *MNode) string { f.tab(m).write(t0, wordsPat(p, 3)); return "ok" }})
		}
		ops = append(ops,
			nodeOp{fmt.Sprintf("Write%sBytes(%d,2)", f.name, t0+1), fam,
				func(r *modbus.NodeRegister) string { return e(f.writeB(r, uint16(t0+1), 2, be(wordsPat(2, 2)...))) },
				func(m *MNode) string { f.tab(m).write(t0+1, wordsPat(2, 2)); return "ok" }},
			nodeOp{fmt.Sprintf("Read%s(%d,3)", f.name, t0), fam,
				func(r *modbus.NodeRegister) string {
					v, err := f.read(r, uint16(t0), 3)
					if err != nil {
						return e(err)
					}
					return fmt.Sprintf("%x", be(v...))
				}, func(m *MNode) string { return fmt.Sprintf("%x", be(f.tab(m).read(t0, 3)...)) }},
			nodeOp{fmt.Sprintf("Read%sBytes(%d,3)", f.name, t0), fam,
				func(r *modbus.NodeRegister) string {
					v, err := f.readB(r, uint16(t0), 3)
					if err != nil {
						return e(err)
					}
					return fmt.Sprintf("%x", v)
				}, func(m *MNode) string { return fmt.Sprintf("%x", be(f.tab(m).read(t0, 3)...)) }},
			nodeOp{fmt.Sprintf("Read%s(%d,4)", f.name, t0), fam,
				func(r *modbus.NodeRegister) string { _, err := f.read(r, uint16(t0), 4); return e(err) },
				func(m *MNode) string { return "exc 2" }})
	}
	for _, ao := range [][2]uint16{{0x0ff0, 0x1234}, {0xff00, 0x00a5}, {0xfff0, 0x0007}} {
		and, or := ao[0], ao[1]
		ops = append(ops, nodeOp{fmt.Sprintf("MaskWriteHolding(6,%04x,%04x)", and, or), 2,
			func(r *modbus.NodeRegister) string { return e(r.MaskWriteHolding(6, and, or)) },
			func(m *MNode) string {
				p := &m.hold.v[6-m.hold.start]
				*p = *p&and | or&^and
				return "ok"
			}})
	}
	ops = append(ops, nodeOp{"MaskWriteHolding(8)", 2, func(r *modbus.NodeRegister) string { return e(r.MaskWriteHolding(8, 0, 0)) },
		func(m *MNode) string { return "exc 2" }},
		nodeOp{"SetSlaveID(9)", 4, func(r *modbus.NodeRegister) string { r.SetSlaveID(9); return "ok" }, func(m *MNode) string { m.unit = 9; return "ok" }},
		nodeOp{"SlaveID()", 4, func(r *modbus.NodeRegister) string { return fmt.Sprint(r.SlaveID()) }, func(m *MNode) string { return fmt.Sprint(m.unit) }},
	)
	return ops
}

// concNode runs the threads' operations on one node and checks the history.
func concNode(thr [][]nodeOp) func() { return concNodeL(concLayout, thr) }

func concNodeL(l Layout, thr [][]nodeOp) func() {
	return func() {
		r, m := newReal(7, l), newModel(7, l)
		fill(r, m, 2)
		var hist []*linOp
		var ths []*vrt.Thread
		for i := range thr {
			i := i
			ths = append(ths, vrt.GoNamed(fmt.Sprint("T", i), func() {
				for _, o := range thr[i] {
					h := &linOp{thr: i, name: o.name, apply: o.apply, call: stamp()}
					h.got = o.run(r)
					h.ret = stamp()
					hist = append(hist, h)
				}
			}))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		why := ""
		if s := linearizable(hist, m, func(f *MNode) bool { why = same(r, f); return why == "" }); s != "" {
			vrt.Fail("%s\n  final state: %s", s, why)
		}
		o := ""
		for _, h := range hist {
			o += h.got + ";"
		}
		Outcome(o)
	}
}

func init() {
	reg(Scenario{Prop: "C04", Name: "node-pairs", Race: true, Desc: "every pair of node operations on two threads, all interleavings, linearizability against the register model and final state",
		Gen: func(q *Q) {
			ops := nodeOps()
			for i := range ops {
				for j := i; j < len(ops); j++ {
					a, b := ops[i], ops[j]
					q.Case(Case{Name: a.name + " || " + b.name, P: 4, Body: concNode([][]nodeOp{{a}, {b}})})
				}
			}
		}})
	reg(Scenario{Prop: "C04", Name: "node-aligned", Race: true, Desc: "pairs of operations on neighbouring values of the same table, on tables with whole aligned bytes, odd starts and the top of the address space; all interleavings, linearizability",
		Gen: func(q *Q) {
			for _, l := range alignedLayouts {
				ops := alignedOps(l)
				for i := range ops {
					for j := i; j < len(ops); j++ {
						if a, b := ops[i], ops[j]; a.fam == b.fam {
							q.Case(Case{Name: fmt.Sprint(l, " ", a.name, " || ", b.name), P: 4, Body: concNodeL(l, [][]nodeOp{{a}, {b}})})
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C04", Name: "node-2x2", Desc: "two threads of two operations each on the same table, all programs, all interleavings, linearizability",
		Gen: func(q *Q) {
			ops := nodeOps()
			for fam := 0; fam < 4; fam++ {
				var fo []nodeOp
				for _, o := range ops {
					if o.fam == fam {
						fo = append(fo, o)
					}
				}
				for a := range fo {
					for b := range fo {
						for c := a; c < len(fo); c++ {
							for d := range fo {
								if !q.Thorough && (a*7+b*5+c*3+d)%5 != 0 && fam != 2 {
									continue
								}
								q.Case(Case{Name: fmt.Sprintf("%s; %s || %s; %s", fo[a].name, fo[b].name, fo[c].name, fo[d].name), P: q.N(2, 4),
									Body: concNode([][]nodeOp{{fo[a], fo[b]}, {fo[c], fo[d]}})})
							}
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C04", Name: "node-3x1", Race: true, Desc: "three threads of one operation each, all programs on a table, all interleavings up to the preemption bound",
		Gen: func(q *Q) {
			ops := nodeOps()
			for a := range ops {
				for b := a; b < len(ops); b++ {
					for c := b; c < len(ops); c++ {
						if q.Race && !q.Thorough && (a+b+c)%3 != 0 {
							continue
						}
						if ops[a].fam == ops[b].fam && ops[b].fam == ops[c].fam {
							q.Case(Case{Name: fmt.Sprintf("%s || %s || %s", ops[a].name, ops[b].name, ops[c].name), P: q.N(2, 4),
								Body: concNode([][]nodeOp{{ops[a]}, {ops[b]}, {ops[c]}})})
						}
					}
				}
			}
		}})
}

// ---- C05 ----

// alignedLayouts have tables with whole bytes of bits and, for the words,
// starts at both parities: an implementation may treat those specially.
var alignedLayouts = []Layout{
	{cs: 0, cn: 16, ds: 8, dn: 24, hs: 0, hn: 4, is: 1, in: 3},
	{cs: 8, cn: 13, ds: 5, dn: 16, hs: 1, hn: 5, is: 0, in: 8},
	{cs: 65520, cn: 16, ds: 65512, dn: 8, hs: 65534, hn: 2, is: 65532, in: 4},
}

// alignedOps are operations on neighbouring values of a table.
func alignedOps(l Layout) []nodeOp {
	var ops []nodeOp
	e := func(err error) string {
		if err != nil {
			return "exc " + fmt.Sprint(isExc(err))
		}
		return "ok"
	}
	mk := func(name string, fam int, run func(r *modbus.NodeRegister) string, apply func(m *MNode) string) {
		ops = append(ops, nodeOp{name, fam, run, apply})
	}
	for fam := 0; fam < 2; fam++ {
		fam, f := fam, &bitAPIs[fam]
		t := f.tab(newModel(0, l))
		for k := 0; k < 4; k++ { // fill pattern 2 alternates, so one of each neighbour pair changes
			for v := uint16(0); v < 2; v++ {
				a, v := t.start+k, v
				mk(fmt.Sprintf("WriteSingle%s(%d,%d)", f.name, a, v), fam, func(r *modbus.NodeRegister) string { return e(f.w1(r, uint16(a), v == 1)) },
					func(m *MNode) string { f.tab(m).v[a-t.start] = v; return "ok" })
			}
		}
		for _, x := range [][3]int{{0, 4, 1}, {1, 2, 3}, {6, 2, 0}, {0, 8, 1}, {0, t.n, 3}} {
			a, q, p := t.start+x[0], x[1], x[2]
			mk(fmt.Sprintf("Write%s(%d,%d,p%d)", f.name, a, q, p), fam, func(r *modbus.NodeRegister) string { return e(f.write(r, uint16(a), uint16(q), packPat(p, q))) },
				func(m *MNode) string { f.tab(m).writeBits(a, q, packPat(p, q)); return "ok" })
		}
		for _, q := range []int{8, t.n} {
			q := q
			mk(fmt.Sprintf("Read%s(%d,%d)", f.name, t.start, q), fam, func(r *modbus.NodeRegister) string {
				b, err := f.read(r, uint16(t.start), uint16(q))
				if err != nil {
					return e(err)
				}
				return fmt.Sprintf("%x", b)
			}, func(m *MNode) string { return fmt.Sprintf("%x", f.tab(m).readBits(t.start, q)) })
		}
	}
	for w := 0; w < 2; w++ {
		f := &wordAPIs[w]
		fam := 2
		if f.tab(&MNode{hold: MTab{n: 1}}).n == 0 {
			fam = 3
		}
		t := f.tab(newModel(0, l))
		for _, x := range [][3]int{{0, 1, 1}, {1, 1, 3}, {0, t.n, 1}, {0, 2, 3}} {
			a, q, p := t.start+x[0], x[1], x[2]
			mk(fmt.Sprintf("Write%s(%d,[%d]p%d)", f.name, a, q, p), fam, func(r *modbus.NodeRegister) string { return e(f.write(r, uint16(a), wordsPat(p, q))) },
				func(m *MNode) string { f.tab(m).write(a, wordsPat(p, q)); return "ok" })
			mk(fmt.Sprintf("Write%sBytes(%d,%d,p%d)", f.name, a, q, p+1), fam, func(r *modbus.NodeRegister) string {
				return e(f.writeB(r, uint16(a), uint16(q), be(wordsPat(p+1, q)...)))
			}, func(m *MNode) string { f.tab(m).write(a, wordsPat(p+1, q)); return "ok" })
		}
		for _, x := range [][2]int{{0, 1}, {0, t.n}} {
			a, q := t.start+x[0], x[1]
			mk(fmt.Sprintf("Read%s(%d,%d)", f.name, a, q), fam, func(r *modbus.NodeRegister) string {
				v, err := f.read(r, uint16(a), uint16(q))
				if err != nil {
					return e(err)
				}
				return fmt.Sprintf("%x", be(v...))
			}, func(m *MNode) string { return fmt.Sprintf("%x", be(f.tab(m).read(a, q)...)) })
			mk(fmt.Sprintf("Read%sBytes(%d,%d)", f.name, a, q), fam, func(r *modbus.NodeRegister) string {
				v, err := f.readB(r, uint16(a), uint16(q))
				if err != nil {
					return e(err)
				}
				return fmt.Sprintf("%x", v)
			}, func(m *MNode) string { return fmt.Sprintf("%x", be(f.tab(m).read(a, q)...)) })
		}
	}
	h := newModel(0, l).hold
	for k := 0; k < 2; k++ {
		for _, ao := range [][2]uint16{{0xff00, 0x00a5}, {0x00ff, 0x5a00}, {0, 0xffff}, {0, 0}} {
			k, and, or := k, ao[0], ao[1]
			mk(fmt.Sprintf("MaskWriteHolding(%d,%04x,%04x)", h.start+k, and, or), 2, func(r *modbus.NodeRegister) string { return e(r.MaskWriteHolding(uint16(h.start+k), and, or)) },
				func(m *MNode) string { p := &m.hold.v[k]; *p = *p&and | or&^and; return "ok" })
		}
	}
	return ops
}

// dirS is the model of a directory: unit id -> node number.
type dirS map[byte]int

func (d dirS) clone() dirS {
	c := dirS{}
	for k, v := range d {
		c[k] = v
	}
	return c
}
func (d dirS) key() string { return fmt.Sprint(map[byte]int(d)) }

// dirNodes makes n nodes; holding register 0 tells which one it is.
func dirNodes(ids []byte) []*modbus.NodeRegister {
	var r []*modbus.NodeRegister
	for i, id := range ids {
		n := newReal(id, Layout{hn: 2, cn: 1, dn: 1, in: 1})
		if err := n.WriteHoldings(0, []uint16{uint16(1000 + i)}); err != nil {
			vrt.Fail("%v", err)
		}
		r = append(r, n)
	}
	return r
}

func nodeIdx(nodes []*modbus.NodeRegister, n *modbus.NodeRegister) int {
	for i, m := range nodes {
		if n == m {
			return i
		}
	}
	return -1
}

func dirCheck(s *modbus.TCPServer, nodes []*modbus.NodeRegister, d dirS, what string) {
	Checked()
	for _, id := range []byte{0, 1, 2, 7, 255} {
		n, err := s.GetNode(id)
		w, ok := d[id]
		if ok != (err == nil) || ok && n != nodes[w] {
			vrt.Fail("after %s: GetNode(%d) = node %d, %v; want node %v (registered %v)", what, id, nodeIdx(nodes, n), err, w, ok)
		}
	}
	got := dirS{}
	for _, n := range s.GetNodeList() {
		if _, dup := got[n.SlaveID()]; dup {
			vrt.Fail("after %s: GetNodeList lists unit %d twice", what, n.SlaveID())
		}
		got[n.SlaveID()] = nodeIdx(nodes, n)
	}
	if got.key() != d.key() {
		vrt.Fail("after %s: GetNodeList gives %v, want %v", what, got, d)
	}
	got = dirS{}
	s.Range(func(id byte, n *modbus.NodeRegister) bool {
		if _, dup := got[id]; dup {
			vrt.Fail("after %s: Range visits unit %d twice", what, id)
		}
		got[id] = nodeIdx(nodes, n)
		return true
	})
	if got.key() != d.key() {
		vrt.Fail("after %s: Range visits %v, want %v", what, got, d)
	}
	k := 0
	s.Range(func(byte, *modbus.NodeRegister) bool { k++; return false })
	if k > 1 || k == 0 && len(d) > 0 {
		vrt.Fail("after %s: Range visited %d units although the callback asked to stop", what, k)
	}
}

// dirList is a listing taken earlier and what it held then.
type dirList struct {
	got  []*modbus.NodeRegister
	then []*modbus.NodeRegister
	what string
}

func keepList(s *modbus.TCPServer, what string) dirList {
	l := s.GetNodeList()
	return dirList{l, append([]*modbus.NodeRegister(nil), l...), what}
}

func (l dirList) check(nodes []*modbus.NodeRegister, now string) {
	Checked()
	for i := range l.then {
		if i >= len(l.got) || l.got[i] != l.then[i] {
			vrt.Fail("the listing taken after %s changed after %s: entry %d was node %d and is node %d now", l.what, now, i, nodeIdx(nodes, l.then[i]), nodeIdx(nodes, l.got[i]))
		}
	}
}

type dirOp struct {
	name string
	do   func(s *modbus.TCPServer, n []*modbus.NodeRegister)
	mod  func(d dirS)
}

var dirIDs = []byte{0, 1, 255, 1, 255, 0}

func dirOps() []dirOp {
	var ops []dirOp
	add := func(ix ...int) {
		ops = append(ops, dirOp{fmt.Sprintf("AddNodes%v", ix), func(s *modbus.TCPServer, n []*modbus.NodeRegister) {
			var l []*modbus.NodeRegister
			for _, i := range ix {
				l = append(l, n[i])
			}
			s.AddNodes(l...)
		}, func(d dirS) {
			for _, i := range ix {
				d[dirIDs[i]] = i
			}
		}})
	}
	add(0)
	add(1)
	add(2)
	add(3)
	add(4)
	add(1, 2, 3)
	add()
	for _, id := range []byte{0, 1, 255, 7} {
		id := id
		ops = append(ops, dirOp{fmt.Sprintf("DeleteNode(%d)", id), func(s *modbus.TCPServer, n []*modbus.NodeRegister) { s.DeleteNode(id) }, func(d dirS) { delete(d, id) }})
	}
	return append(ops, dirOp{"DeleteAllNode", func(s *modbus.TCPServer, n []*modbus.NodeRegister) { s.DeleteAllNode() }, func(d dirS) {
		for k := range d {
			delete(d, k)
		}
	}})
}

func init() {
	reg(Scenario{Prop: "C05", Name: "directory-sequences", Desc: "all sequences of directory operations up to a depth; lookups, listing, ranging and traffic to every unit compared with a map after each",
		Gen: func(q *Q) {
			ops := dirOps()
			depth := q.N(4, 5)
			for f := range ops {
				for g := range ops {
					f, g := f, g
					q.Case(Case{Name: fmt.Sprintf("starting with %s, %s", ops[f].name, ops[g].name), Fixed: true, Max: 400000, Body: func() {
						nodes := dirNodes(dirIDs)
						sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(3600 * sec) })
						c := sv.connect()
						own := map[byte]*vnet.TCPConn{} // connections that only ever ask one unit
						for _, id := range []byte{0, 1, 7, 255} {
							own[id] = sv.connect()
						}
						tid := 0
						mark := make([]int, len(nodes))
						var rec func(seq []int)
						rec = func(seq []int) {
							var kept []dirList
							vrt.Tick()
							sv.s.DeleteAllNode()
							d := dirS{}
							what := ""
							for _, o := range seq {
								ops[o].do(sv.s, nodes)
								ops[o].mod(d)
								what += ops[o].name + " "
								kept = append(kept, keepList(sv.s, what))
							}
							if len(seq) > 2 { // a listing is the caller's: writing to it changes nothing
								for l, i := sv.s.GetNodeList(), 0; i < len(l); i++ {
									l[i] = nil
								}
							}
							for _, l := range kept {
								l.check(nodes, what)
							}
							dirCheck(sv.s, nodes, d, what)
							// traffic: write and read a mark on every unit
							for _, id := range []byte{0, 1, 7, 255} {
								tid = (tid + 257) & 0xffff
								w, ok := d[id]
								got := ask(c, fTCP(tid, id, pW1(6, 1, tid)))
								var want []byte
								if ok {
									want = fTCP(tid, id, pW1(6, 1, tid))
									mark[w] = tid
								}
								if string(got) != string(want) {
									vrt.Fail("after %s: a write to unit %d is answered [%s], want [%s]", what, id, hexs(got), hexs(want))
								}
								got = ask(c, fTCP(tid, id, pRead(3, 0, 1)))
								want = nil
								if ok {
									want = fTCP(tid, id, append([]byte{3, 2}, be(uint16(1000+w))...))
								}
								if string(got) != string(want) {
									vrt.Fail("after %s: a read from unit %d is answered [%s], want [%s]", what, id, hexs(got), hexs(want))
								}
								if got = ask(own[id], fTCP(tid, id, pRead(3, 0, 1))); string(got) != string(want) {
									vrt.Fail("after %s: a read from unit %d on a connection that asked only this unit before is answered [%s], want [%s]", what, id, hexs(got), hexs(want))
								}
								Checked()
							}
							for i, n := range nodes {
								if v, err := n.ReadHoldings(0, 2); err != nil || int(v[0]) != 1000+i || int(v[1]) != mark[i] {
									vrt.Fail("after %s: node %d (unit %d) holds %v, %v; want [%d %d]: a request reached the wrong node", what, i, dirIDs[i], v, err, 1000+i, mark[i])
								}
							}
							if len(seq) < depth {
								for o := range ops {
									rec(append(seq[:len(seq):len(seq)], o))
								}
							}
							for _, l := range kept { // what happened since must not show in them
								l.check(nodes, what+"and more")
							}
						}
						rec([]int{f, g})
						_ = sv.s.Close()
					}})
				}
			}
		}})

	type cop struct {
		name string
		run  func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(name, got string, apply func(d dirS) string))
	}
	ids := []byte{0, 1, 255}
	add := func(ix ...int) cop {
		return cop{fmt.Sprintf("Add%v", ix), func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(string, string, func(dirS) string)) {
			var l []*modbus.NodeRegister
			for _, i := range ix {
				l = append(l, n[i])
			}
			s.AddNodes(l...)
			for _, i := range ix {
				i := i
				h(fmt.Sprintf("add node %d", i), "", func(d dirS) string { d[dirIDs[i]] = i; return "" })
			}
		}}
	}
	del := func(id byte) cop {
		return cop{fmt.Sprintf("Del(%d)", id), func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(string, string, func(dirS) string)) {
			s.DeleteNode(id)
			h(fmt.Sprintf("delete %d", id), "", func(d dirS) string { delete(d, id); return "" })
		}}
	}
	look := func(d dirS, id byte) string {
		if i, ok := d[id]; ok {
			return fmt.Sprint(i)
		}
		return "none"
	}
	get := func(id byte) cop {
		return cop{fmt.Sprintf("Get(%d)", id), func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(string, string, func(dirS) string)) {
			r, err := s.GetNode(id)
			g := "none"
			if err == nil {
				g = fmt.Sprint(nodeIdx(n, r))
			}
			h(fmt.Sprintf("get %d", id), g, func(d dirS) string { return look(d, id) })
		}}
	}
	delAll := cop{"DelAll", func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(string, string, func(dirS) string)) {
		s.DeleteAllNode()
		for _, id := range ids {
			id := id
			h(fmt.Sprintf("delete-all %d", id), "", func(d dirS) string { delete(d, id); return "" })
		}
	}}
	seen := func(name string, d dirS, h func(string, string, func(dirS) string)) {
		for _, id := range ids {
			id := id
			h(fmt.Sprintf("%s sees %d", name, id), look(d, id), func(d dirS) string { return look(d, id) })
		}
	}
	list := cop{"List", func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(string, string, func(dirS) string)) {
		d := dirS{}
		for _, r := range s.GetNodeList() {
			d[r.SlaveID()] = nodeIdx(n, r)
		}
		seen("list", d, h)
	}}
	rng := cop{"Range", func(s *modbus.TCPServer, n []*modbus.NodeRegister, h func(string, string, func(dirS) string)) {
		d := dirS{}
		s.Range(func(id byte, r *modbus.NodeRegister) bool { d[id] = nodeIdx(n, r); return true })
		seen("range", d, h)
	}}
	cops := []cop{add(0), add(1), add(3), add(1, 2), del(1), del(255), get(1), get(255), delAll, list, rng}
	run := func(thr [][]cop) func() {
		return func() {
			s := modbus.NewTCPServer()
			nodes := dirNodes(dirIDs)
			s.AddNodes(nodes[1], nodes[4])
			var hist []*lop[dirS]
			var ths []*vrt.Thread
			for i := range thr {
				i := i
				ths = append(ths, vrt.GoNamed(fmt.Sprint("T", i), func() {
					for _, o := range thr[i] {
						c := stamp()
						var mine []*lop[dirS]
						o.run(s, nodes, func(name, got string, apply func(dirS) string) {
							mine = append(mine, &lop[dirS]{thr: i, name: name, call: c, got: got, apply: apply})
						})
						r := stamp()
						for _, m := range mine {
							m.ret = r
						}
						hist = append(hist, mine...)
					}
				}))
			}
			for _, t := range ths {
				vrt.Join(t)
			}
			fin := dirS{}
			for _, r := range s.GetNodeList() {
				fin[r.SlaveID()] = nodeIdx(nodes, r)
			}
			if w := linear(hist, dirS{1: 1, 255: 4}, dirS.clone, dirS.key, func(d dirS) bool { return d.key() == fin.key() }); w != "" {
				vrt.Fail("%s\n  final directory: %v", w, fin)
			}
			dirCheck(s, nodes, fin, "the threads finished")
		}
	}
	reg(Scenario{Prop: "C05", Name: "range-reentrant", Race: true, Desc: "a Range whose callback itself changes, looks up, lists or ranges over the directory, alone and next to another goroutine doing so: it returns, visits a unit at most once, visits all that stay registered, shows only nodes that were registered, and obeys stop",
		Gen: func(q *Q) {
			mods := append(dirOps(), dirOp{"Get", func(s *modbus.TCPServer, n []*modbus.NodeRegister) { _, _ = s.GetNode(1) }, func(dirS) {}},
				dirOp{"List", func(s *modbus.TCPServer, n []*modbus.NodeRegister) { s.GetNodeList() }, func(dirS) {}},
				dirOp{"Range", func(s *modbus.TCPServer, n []*modbus.NodeRegister) {
					s.Range(func(byte, *modbus.NodeRegister) bool { return true })
				}, func(dirS) {}})
			for in := range mods {
				for out := -1; out < len(mods); out++ {
					for stop := 0; stop < 3; stop++ {
						in, out, stop := in, out, stop
						nm := ""
						if out >= 0 {
							nm = " || " + mods[out].name
						}
						if q.Race && stop > 0 {
							continue
						}
						q.Case(Case{Name: fmt.Sprint("Range{", mods[in].name, "} stop after ", stop, nm), P: q.N(2, 3), Body: func() {
							s := modbus.NewTCPServer()
							nodes := dirNodes(dirIDs)
							s.AddNodes(nodes[0], nodes[1], nodes[2])
							// what may be shown per unit, and what must be
							may, must := map[byte]map[int]bool{}, map[byte]bool{}
							for i := 0; i < 3; i++ {
								may[dirIDs[i]] = map[int]bool{i: true}
								must[dirIDs[i]] = true
							}
							account := func(o dirOp) {
								for id := range may { // does it take the unit away?
									d := dirS{0: 0, 1: 1, 255: 2}
									o.mod(d)
									if i, ok := d[id]; !ok {
										delete(must, id)
									} else {
										may[id][i] = true
									}
								}
							}
							account(mods[in])
							var ths []*vrt.Thread
							if out >= 0 {
								account(mods[out])
								ths = append(ths, vrt.GoNamed("other", func() { mods[out].do(s, nodes) }))
							}
							seen := map[byte]bool{}
							n := 0
							ths = append(ths, vrt.GoNamed("ranger", func() {
								s.Range(func(id byte, r *modbus.NodeRegister) bool {
									if stop > 0 && n >= stop {
										vrt.Fail("Range goes on after the callback asked to stop")
									}
									n++
									if seen[id] {
										vrt.Fail("Range visits unit %d twice", id)
									}
									seen[id] = true
									if !may[id][nodeIdx(nodes, r)] {
										vrt.Fail("Range shows node %d for unit %d, which was never registered for it", nodeIdx(nodes, r), id)
									}
									mods[in].do(s, nodes)
									return n != stop
								})
							}))
							for _, t := range ths {
								vrt.Join(t)
							}
							for id := range must {
								if !seen[id] && (stop == 0 || n < stop) {
									vrt.Fail("Range did not visit unit %d, which was registered all the time", id)
								}
							}
							fin := dirS{}
							for _, r := range s.GetNodeList() {
								fin[r.SlaveID()] = nodeIdx(nodes, r)
							}
							dirCheck(s, nodes, fin, "the range")
							if out < 0 {
								d := dirS{0: 0, 1: 1, 255: 2}
								mods[in].mod(d)
								if n == 0 || d.key() != fin.key() {
									vrt.Fail("after %d visits the directory is %v, want %v", n, fin, d)
								}
							}
							Outcome(fmt.Sprint(n, fin))
						}})
					}
				}
			}
		}})
	reg(Scenario{Prop: "C05", Name: "directory-concurrent", Race: true, Desc: "directory operations on two and three threads, all interleavings, per-unit linearizability and final state",
		Gen: func(q *Q) {
			nm := func(xs ...cop) string {
				s := ""
				for _, x := range xs {
					s += x.name + " "
				}
				return s
			}
			for a := range cops {
				for b := a; b < len(cops); b++ {
					q.Case(Case{Name: nm(cops[a]) + "|| " + nm(cops[b]), P: 4, Body: run([][]cop{{cops[a]}, {cops[b]}})})
					for c := range cops {
						if q.Race && !q.Thorough && (a+b+c)%4 != 0 {
							continue
						}
						q.Case(Case{Name: nm(cops[a], cops[c]) + "|| " + nm(cops[b]), P: 3, Body: run([][]cop{{cops[a], cops[c]}, {cops[b]}})})
						if c >= b && !q.Race {
							q.Case(Case{Name: nm(cops[a]) + "|| " + nm(cops[b]) + "|| " + nm(cops[c]), P: q.N(1, 2), Body: run([][]cop{{cops[a]}, {cops[b]}, {cops[c]}})})
						}
					}
				}
			}
		}})
	reg(Scenario{Prop: "C05", Name: "directory-traffic", Race: true, Desc: "directory changes racing with requests on a connection: each request is executed by a node registered at some moment of it, or ignored if none was",
		Gen: func(q *Q) {
			for a := range cops {
				for b := range cops {
					if b != a && b > 4 && !q.Thorough {
						continue
					}
					a, b := a, b
					q.Case(Case{Name: cops[a].name + " " + cops[b].name + " || request to unit 1", P: q.N(2, 3), BC: 1, Body: func() {
						nodes := dirNodes(append(append([]byte{}, dirIDs...), 5))
						sv := startServer(nil)
						sv.s.AddNodes(nodes[1], nodes[4], nodes[6])
						c := sv.connect()
						vrt.Settle()
						var hist []*lop[dirS]
						t := vrt.GoNamed("T0", func() {
							for _, o := range []cop{cops[a], cops[b]} {
								cl := stamp()
								var mine []*lop[dirS]
								o.run(sv.s, nodes, func(name, got string, apply func(dirS) string) {
									mine = append(mine, &lop[dirS]{thr: 0, name: name, call: cl, got: got, apply: apply})
								})
								r := stamp()
								for _, m := range mine {
									m.ret = r
								}
								hist = append(hist, mine...)
							}
						})
						u := vrt.GoNamed("client", func() {
							h := &lop[dirS]{thr: 1, name: "read from unit 1 over the wire", call: stamp(), apply: func(d dirS) string { return look(d, 1) }}
							// a delete-all may take unit 5 away as well: then neither is answered
							_, _ = c.Write(append(fTCP(10, 1, pRead(3, 0, 1)), fTCP(11, 5, pRead(3, 0, 1))...))
							var f []byte
							if cops[a].name == "DelAll" || cops[b].name == "DelAll" {
								vrt.Settle()
								f = c.Take()
								h.ret = stamp()
							} else {
								x, err := recvFrame(c)
								h.ret = stamp()
								if err != nil {
									vrt.Fail("connection lost: %v", err)
								}
								f = x
							}
							h.got = "none"
							for _, i := range []int{1, 3} {
								w := fTCP(10, 1, append([]byte{3, 2}, be(uint16(1000+i))...))
								if len(f) >= len(w) && string(f[:len(w)]) == string(w) {
									h.got = fmt.Sprint(i)
								}
							}
							if h.got == "none" && len(f) > 0 && f[1] != 11 {
								vrt.Fail("request to unit 1 answered with [%s]", hexs(f))
							}
							hist = append(hist, h)
						})
						vrt.Join(t)
						vrt.Join(u)
						if w := linear(hist, dirS{1: 1, 255: 4}, dirS.clone, dirS.key, nil); w != "" {
							vrt.Fail("%s", w)
						}
						var outs []string
						for _, h := range hist {
							outs = append(outs, h.got)
						}
						sort.Strings(outs)
						Outcome(fmt.Sprint(outs))
						_ = sv.s.Close()
					}})
				}
			}
		}})
}
