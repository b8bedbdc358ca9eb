package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	vserial "verifmc/shim/serial"
	"verifmc/vrt"
)

// Long runs, several servers in one process, full directories, pauses inside
// frames, and failures of every kind.

// ---- long runs: past every 16-bit counter ----

const longN = 70000

// longWire asks n requests on one connection.
func longWire(mk mkWire, n int, req func(i int) (unit byte, pdu []byte), prefix func(i int) []byte, setup func(w *wire) func(i int) []byte) func() {
	return func() {
		w := mk([]byte{1, 14}, []Layout{wireLayouts[0], wireLayouts[0]})
		var own func(i int) []byte
		if setup != nil {
			own = setup(w)
		}
		c := w.conn()
		for i := 0; i < n; i++ {
			unit, pdu := req(i)
			raw := fTCP(i&0xffff, unit, pdu)
			if prefix != nil {
				raw = append(prefix(i), raw...)
			}
			var want []byte
			if own != nil {
				want = fTCP(i&0xffff, unit, own(i))
			} else {
				want, _ = w.expect(raw)
			}
			got := ask(c, raw)
			Checked()
			if own != nil && i%5 == 2 && len(got) == 0 {
				want = nil // the handler panicked
			}
			if !bytes.Equal(got, want) || c.EOF() {
				vrt.Fail("request %d of the connection [%s] is answered [%s], want [%s] (dropped: %v)", i, hexs(raw), hexs(got), hexs(want), c.EOF())
			}
			if i%500 == 0 || i == n-1 {
				w.needSame("%d requests", i+1)
			}
		}
		w.stop()
	}
}

func goodReq(i int) (byte, []byte) {
	u := byte(1)
	if i%3 == 1 {
		u = 14
	}
	v := uint16(i * 7)
	switch i % 10 {
	case 0:
		return u, pRead(3, 7, 3)
	case 1:
		return u, pW1(6, 8, int(v))
	case 2:
		return u, pRead(1, 5, 9)
	case 3:
		return u, pWCoils(6, 8, []byte{byte(i >> 3)})
	case 4:
		return u, pMask(8, 0xf0f0, v)
	case 5:
		return u, pRW(7, 3, 8, []uint16{v, ^v})
	case 6:
		return u, pRead(4, 3, 2)
	case 7:
		return u, pWRegs(7, []uint16{v, v + 1, v + 2})
	case 8:
		return u, pW1(5, 5+i/10%9, 0xff00*(i/100%2))
	}
	return u, pRead(2, 3, 1)
}

func badReq(i int) (byte, []byte) {
	u := byte(1)
	if i%3 == 1 {
		u = 14
	}
	switch i % 8 {
	case 0:
		return u, pRead(3, 9, 9)
	case 1:
		return u, pW1(5, 6, 0x1234)
	case 2:
		return u, []byte{byte(0x41 + i%9), 1, 2}
	case 3:
		return u, pRead(1, 5, 0)
	case 4:
		return u, pMask(6, 1, 2)
	case 5:
		return u, pRW(7, 3, 9, []uint16{1, 2})
	case 6:
		return u, pRead(4, 3, 2)[:3]
	}
	return u, pWRegs(9, []uint16{1, 2})
}

func mixReq(i int) (byte, []byte) {
	if i%2 == 0 {
		return goodReq(i / 2)
	}
	return badReq(i / 2)
}

func regLong() {
	wires := []struct {
		prop, name string
		mk         mkWire
		req        func(i int) (byte, []byte)
		prefix     func(i int) []byte
		setup      func(w *wire) func(i int) []byte
	}{
		{"C06", "long-run", listenWire, goodReq, nil, nil},
		{"C07", "long-run", listenWire, badReq, nil, nil},
		{"C08", "long-run", listenWire, goodReq, func(i int) []byte {
			if i%2 == 0 {
				return fTCP(i&0xffff, 99, pW1(6, 8, 0xeeee))
			}
			return fTCPpid(i&0xffff, 1+i%7, 1, pW1(6, 8, 0xeeee))
		}, nil},
		{"C26", "long-run", reverseWire, mixReq, nil, nil},
		{"C12", "long-run", listenWire, func(i int) (byte, []byte) { return 1, []byte{0x55, byte(i), byte(i >> 8)} }, nil, handlerRun},
		{"C12", "long-run/reverse", reverseWire, func(i int) (byte, []byte) { return 1, []byte{0x55, byte(i), byte(i >> 8)} }, nil, handlerRun},
	}
	for _, x := range wires {
		x := x
		reg(Scenario{Prop: x.prop, Name: x.name, Desc: "70000 requests (thorough: 200000) on one connection, past every 16-bit count", Gen: func(q *Q) {
			q.Seq("one connection", longWire(x.mk, q.N(longN, 200000), x.req, x.prefix, x.setup))
		}})
	}

	for _, prop := range []string{"C10", "C09", "C11"} {
		reg(Scenario{Prop: prop, Name: "many-connections", Desc: "300 connections at once, and 3000 (thorough: 70000) one after the other, requests on all of them", Gen: func(q *Q) {
			q.Seq("at once", func() {
				l := wireLayouts[0]
				r, m := newReal(1, l), newModel(1, l)
				fill(r, m, 3)
				sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
				w := &wire{models: map[byte]*MNode{1: m}}
				var cs []*vnet.TCPConn
				for i := 0; i < 300; i++ {
					vrt.Tick()
					c := sv.connect()
					cs = append(cs, c)
					if i%3 == 2 {
						_, _ = c.Write(fTCP(1, 1, pW1(6, 8, 0xdead))[:7+i%5]) // these stall
					}
				}
				for round := 0; round < 3; round++ {
					for i, c := range cs {
						if i%3 == 2 {
							continue
						}
						_, p := goodReq(i + round)
						raw := fTCP(i, 1, p)
						want, _ := w.expect(raw)
						if got := ask(c, raw); !bytes.Equal(got, want) {
							vrt.Fail("connection %d of 300: request [%s] is answered [%s], want [%s]", i, hexs(raw), hexs(got), hexs(want))
						}
						Checked()
					}
				}
				for i, c := range cs {
					if b := c.Take(); len(b) > 0 {
						vrt.Fail("connection %d of 300 received [%s] unasked", i, hexs(b))
					}
				}
				if s := same(r, m); s != "" {
					vrt.Fail("%s", s)
				}
				_ = sv.s.Close()
				vrt.Settle()
				if n := vrt.Live(true); n > 0 || sv.n.OpenLib() > 0 {
					vrt.Fail("after close: goroutines %s, %d connections open", vrt.LiveNames(), sv.n.OpenLib())
				}
			})
			n := q.N(3000, 70000)
			q.Seq("in sequence", func() {
				l := wireLayouts[0]
				r, m := newReal(1, l), newModel(1, l)
				fill(r, m, 3)
				sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
				w := &wire{models: map[byte]*MNode{1: m}}
				keep := sv.connect()
				base := 0
				for i := 0; i < n; i++ {
					vrt.Tick()
					c := sv.connect()
					_, p := goodReq(i)
					raw := fTCP(i&0xffff, 1, p)
					want, _ := w.expect(raw)
					if got := ask(c, raw); !bytes.Equal(got, want) {
						vrt.Fail("connection %d: request [%s] is answered [%s], want [%s]", i, hexs(raw), hexs(got), hexs(want))
					}
					Checked()
					switch i % 4 {
					case 0:
						_ = c.Close()
					case 1:
						c.Abort()
					case 2:
						_, _ = c.Write(raw[:5])
						_ = c.Close()
					case 3:
						_, _ = c.Write([]byte{0, 0, 0, 0, 0xff, 0xff, 1})
						_ = c.Close()
					}
					vrt.Settle()
					if i%100 == 99 {
						// who stays connected is served all along
						raw = fTCP(i&0xffff, 1, pRead(3, 7, 3))
						want, _ = w.expect(raw)
						if got := ask(keep, raw); !bytes.Equal(got, want) {
							vrt.Fail("after %d other connections [%s] is answered [%s], want [%s]", i, hexs(raw), hexs(got), hexs(want))
						}
						if s := same(r, m); s != "" {
							vrt.Fail("after %d connections: %s", i, s)
						}
						sv.n.Conns = live(sv.n.Conns)
						if i == 99 {
							base = vrt.Live(true)
						}
						if len(sv.n.Conns) != 1 || vrt.Live(true) > base {
							vrt.Fail("after %d connections that ended, %d are open and these goroutines run: %s", i+1, len(sv.n.Conns), vrt.LiveNames())
						}
					}
				}
				_ = sv.s.Close()
			})
		}})
	}

	reg(Scenario{Prop: "C11", Name: "many-runs", Desc: "one server started and closed 300 times (thorough: 3000) with a client each time", Gen: func(q *Q) {
		n := q.N(300, 3000)
		q.Seq("runs", func() {
			l := wireLayouts[0]
			r, m := newReal(1, l), newModel(1, l)
			fill(r, m, 3)
			w := &wire{models: map[byte]*MNode{1: m}}
			sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(wRT()); s.SetWriteTimeout(wWT()) }, r)
			for i := 0; i < n; i++ {
				vrt.Tick()
				a, b := sv.connect(), sv.connect()
				_, p := goodReq(i)
				raw := fTCP(i, 1, p)
				want, _ := w.expect(raw)
				if got := ask(a, raw); !bytes.Equal(got, want) {
					vrt.Fail("run %d: request [%s] is answered [%s], want [%s]", i, hexs(raw), hexs(got), hexs(want))
				}
				Checked()
				if i%2 == 0 {
					_ = a.Close()
				}
				_, _ = b.Write(raw[:4+i%6])
				vrt.Settle()
				t0 := vrt.Now()
				_ = sv.s.Close()
				vrt.Settle()
				if !sv.ret || vrt.Live(true) > 0 || sv.n.OpenLib() > 0 || vrt.Now()-t0 > closeBound() {
					vrt.Fail("run %d: after Close (%v): returned=%v, goroutines %s, open connections %d", i, rtime.Duration(vrt.Now()-t0), sv.ret, vrt.LiveNames(), sv.n.OpenLib())
				}
				sv.n.Conns = nil
				sv.serve()
				if sv.ret {
					vrt.Fail("run %d: serving again: %v", i, sv.err)
				}
			}
			_ = sv.s.Close()
		})
	}})

	// the client: 70000 calls of every kind and outcome
	long := func(prop string, xs []xport, kind int, desc string) {
		reg(Scenario{Prop: prop, Name: "long-run", Desc: desc, Gen: func(q *Q) {
			for _, x := range xs {
				x := x
				q.Seq(x.String(), longClient(x, q.N(longN, 200000), kind))
			}
		}})
	}
	long("C13", xports, 0, "70000 calls (thorough: 200000) of one client, every frame as prescribed")
	long("C14", xports[:1], 1, "70000 calls (thorough: 200000) of one client, every fifth reply wrong in some way")
	long("C15", xports[1:], 1, "70000 calls (thorough: 200000) of one client, every fifth reply wrong in some way")
	long("C16", xports, 2, "70000 calls (thorough: 200000) of one client, every other one answered by an exception")
	long("C28", xports, 3, "70000 raw PDUs (thorough: 200000) of one client")

	reg(Scenario{Prop: "C29", Name: "long-run", Desc: "70000 calls (thorough: 200000) of one client on the server, and two clients taking turns", Gen: func(q *Q) {
		n := q.N(longN, 200000)
		for k := 1; k <= 2; k++ {
			k := k
			q.Seq(fmt.Sprintf("%d clients", k), func() {
				l := wireLayouts[0]
				t := newE2E([]byte{1, 14}, []Layout{l, l}, k)
				ab := append(eAlphabet(1, l), eAlphabet(14, l)...)
				for i := 0; i < n; i++ {
					t.step(i%k, &ab[(i+i/len(ab))%len(ab)])
					if i%500 == 0 {
						t.w.needSame("%d calls", i+1)
					}
				}
				if d := len(t.sv.n.Dials); d != k {
					vrt.Fail("%d clients dialled %d times in %d calls", k, d, n)
				}
				t.stop()
			})
		}
	}})

	reg(Scenario{Prop: "C18", Name: "long-run", Desc: "two goroutines sharing one client make 33000 calls each (thorough: 100000)", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			n := q.N(33000, 100000)
			q.Seq(x.String(), func() {
				g := newEnv(x)
				var tids [2]int
				g.handle = func(e *exch) {
					if e.bad != "" {
						vrt.Fail("the device received the damaged frame [%s]: %s", hexs(e.raw), e.bad)
					}
					if tids[0]++; tids[0] > 1 && x == xTCP && tids[1] == e.tid {
						vrt.Fail("transaction id %d is used twice in a row", e.tid)
					}
					tids[1] = e.tid
					g.reqs = g.reqs[:0]
					g.reply(e, ownReply(e.unit, e.pdu))
				}
				g.p = g.provider()
				g.c = modbus.NewClient(g.p)
				var ths []*vrt.Thread
				for k := 0; k < 2; k++ {
					k := k
					ths = append(ths, vrt.GoNamed(fmt.Sprint("user", k), func() {
						cs := copsFor(k)
						for i := 0; i < n; i++ {
							vrt.Tick()
							c := &cs[i%len(cs)]
							b, err := c.do(g.c)
							Checked()
							if want := c.want(g, ownReply(c.unit, c.pdu)); err != nil || !bytes.Equal(b, want) {
								vrt.Fail("call %d of user %d (%s) gives [%s], %v, want [%s]", i, k, c.name, hexs(b), err, hexs(want))
							}
							vrt.Yield()
						}
					}))
				}
				for _, t := range ths {
					vrt.Join(t)
				}
			})
		}
	}})

	reg(Scenario{Prop: "C19", Name: "long-run", Desc: "2000 failed exchanges (thorough: 20000) of every kind on one client, a few good calls after each", Gen: func(q *Q) {
		for _, kind := range []int{7, 14} {
			kind := kind
			n := q.N(2000, 20000)
			q.Seq(calls(17, 0)[kind].name, func() {
				cs := [2]call{calls(17, 0)[kind], calls(17, 1)[kind]}
				all := c19faults(7+len(cs[0].rsp), true)
				faults := map[int]fault{}
				for i := 0; i < n; i++ {
					faults[i*4] = all[(i*7)%len(all)]
				}
				c19(func(n int) call { return cs[n%2] }, faults, nil, 0, 0, n*4+4, "many faults")
			})
		}
	}})

	life := func(prop string, xs []xport) {
		reg(Scenario{Prop: prop, Name: "long-run", Desc: "2000 rounds (thorough: 20000) of connecting, calling, failing, losing and closing", Gen: func(q *Q) {
			for _, x := range xs {
				x := x
				q.Seq(x.String(), longLife(x, q.N(2000, 20000)))
			}
		}})
	}
	life("C20", xports[:1])
	life("C22", xports[1:])

	reg(Scenario{Prop: "C24", Name: "long-run", Desc: "2000 dials (thorough: 20000) with every outcome and session, one state machine all along", Gen: func(q *Q) {
		n := q.N(2000, 20000)
		q.Seq("reconnects", func() {
			vrt.Calm()
			base := 0
			no := func(i int) bool { return i%7 == 3 }
			v := newRev(true, func(v *rev) {
				v.plan = func(n int) vnet.DialPlan {
					if n%5 == 4 {
						return vnet.DialPlan{Err: vnet.Refused()}
					}
					if n%11 == 7 {
						return vnet.DialPlan{Delay: 5 * tm.CT}
					}
					return vnet.DialPlan{}
				}
				v.onConn = func(n int) error {
					if no(n) {
						return errors.New("no")
					}
					return nil
				}
			})
			v.start()
			for v.dials < n {
				vrt.Tick()
				k := v.accepted
				if !await(4*slack(), func() bool { return v.accepted == k+1 }) {
					vrt.Fail("no further session after %d dials and %d sessions within %v", v.dials, k, rtime.Duration(4*slack()))
				}
				vrt.Settle()
				v.session([]int{0, 1, 3, 4, 5}[k%5])
				if !await(slack(), func() bool { return v.lost == v.accepted }) {
					vrt.Fail("session %d ended but the connection-lost callback does not come", k)
				}
				if v.net.OpenLib() > 1 {
					vrt.Fail("%d connections are open", v.net.OpenLib())
				}
				v.net.Conns = live(v.net.Conns)
				k = vrt.Live(true)
				if v.accepted < 20 && k > base {
					base = k
				}
				if k > base {
					vrt.Fail("after %d sessions %d goroutines run: %s", v.accepted, k, vrt.LiveNames())
				}
			}
			v.finish()
		})
	}})
	reg(Scenario{Prop: "C25", Name: "long-run", Desc: "one reverse server started and closed 400 times (thorough: 4000) in every phase", Gen: func(q *Q) {
		n := q.N(400, 4000)
		q.Seq("restarts", func() {
			vrt.Calm()
			v := newRev(true, nil)
			v.keepAlive(70 * ms)
			for i := 0; i < n; i++ {
				vrt.Tick()
				v.plan = func(k int) vnet.DialPlan { return revPlan(i % 4) }
				v.start()
				vrt.Sleep(int64(i%9) * int64(60*ms))
				_ = v.close()
				v.gone()
				v.net.Conns = live(v.net.Conns)
			}
			v.plan = nil
			v.start()
			k := v.accepted
			if !await(slack(), func() bool { return v.accepted == k+1 }) {
				vrt.Fail("started again after %d closes, but no session", n)
			}
			vrt.Settle()
			v.serveOne(1)
			v.finish()
		})
	}})
	reg(Scenario{Prop: "C30", Name: "long-run", Desc: "3000 requests (thorough: 70000) with the log switched before each in a pattern, on a client and on both servers", Gen: func(q *Q) {
		n := q.N(3000, longN)
		for _, rev := range []bool{false, true} {
			rev := rev
			q.Seq(fmt.Sprintf("server reverse=%v", rev), func() {
				ls := mkLogServer(rev, -1)
				c := ls.conn()
				stdTake()
				for i := 0; i < n; i++ {
					on := (i*i/3)%2 == 1
					ls.mode(on)
					_, p := mixReq(i)
					ls.ask(c, i&0xffff, p, on)
				}
				ls.stop()
			})
		}
		for _, x := range xports {
			x := x
			q.Seq("client "+x.String(), func() {
				s := logScript(x, 0)[:16]
				var long []logCall
				for i := 0; i < n; i++ {
					long = append(long, s[i%len(s)])
				}
				on := func(i int) bool { return (i*i/3)%2 == 1 }
				logRun(x, long, func(l *memLog) []modbus.ClientProviderOption {
					return []modbus.ClientProviderOption{modbus.WithLogProvider(l)}
				},
					func(c modbus.Client, i int) { c.LogMode(on(i)) }, on, false)
			})
		}
	}})
}

// handlerRun is a custom function whose outcome changes with every call.
func handlerRun(w *wire) func(i int) []byte {
	n := -1
	w.reg(0x55, func(r *modbus.NodeRegister, data []byte) ([]byte, error) {
		n++
		if len(data) != 2 || data[0] != byte(n) || data[1] != byte(n>>8) {
			vrt.Fail("handler call %d received [%s]", n, hexs(data))
		}
		switch n % 5 {
		case 1:
			return nil, &modbus.ExceptionError{ExceptionCode: byte(1 + n%10)}
		case 2:
			panic("boom")
		case 3:
			return nil, errors.New("other")
		case 4:
			return packPat(n, 8*(n%250)), nil
		}
		return data, nil
	})
	return func(i int) []byte {
		if n != i-1 {
			vrt.Fail("%d requests gave %d handler calls", i, n+1)
		}
		switch i % 5 {
		case 1:
			return []byte{0xd5, byte(1 + i%10)}
		case 2, 3:
			return []byte{0xd5, 4}
		case 4:
			return append([]byte{0x55}, packPat(i, 8*(i%250))...)
		}
		return []byte{0x55, byte(i), byte(i >> 8)}
	}
}

func live(cs []*vnet.TCPConn) []*vnet.TCPConn {
	var r []*vnet.TCPConn
	for _, c := range cs {
		if !c.Closed {
			r = append(r, c)
		}
	}
	return r
}

// longClient makes n calls on one scripted device: kind 0 good replies, 1
// every fifth wrong, 2 every other an exception, 3 raw PDUs.
func longClient(x xport, n, kind int) func() {
	return func() {
		pool := append(calls(17, 0), calls(200, 1)...)
		if kind == 3 {
			pool = pduCalls(pool)
		}
		var cl *call
		i := 0
		var rsp []byte
		mode := 0
		seen := 0
		g := newRig(x, func(g *rig, e *exch) {
			g.reqs = g.reqs[:0]
			seen++
			if e.bad != "" || e.unit != cl.unit || !bytes.Equal(e.pdu, cl.req) {
				vrt.Fail("call %d (%s) sent [%s], want unit %d and [%s] (%s)", i, cl.name, hexs(e.raw), cl.unit, hexs(cl.req), e.bad)
			}
			f := g.frame(e.tid, e.unit, rsp)
			switch {
			case mode == 1:
				switch {
				case x == xTCP && i%4 == 0:
					f[0] ^= 0x80
				case x == xTCP && i%4 == 1:
					f[1] ^= 1
				case i%4 == 2:
					f = g.frame(e.tid, e.unit^1, rsp)
				case i%4 == 3:
					f = g.frame(e.tid, e.unit, put(rsp, 0, rsp[0]^2))
				default:
					f[len(f)/2] ^= 0x11
				}
			}
			g.send(e, 0, f)
		})
		for ; i < n; i++ {
			vrt.Tick()
			cl = &pool[i%len(pool)]
			rsp, mode = cl.rsp, 0
			if kind == 1 && i%5 == 4 {
				mode = 1
			}
			exc := -1
			if kind == 2 && i%2 == 1 {
				exc = i / 2 % 256
				rsp = []byte{cl.req[0] | 0x80, byte(exc)}
			}
			v, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
			Checked()
			if seen != i+1 {
				vrt.Fail("%d calls gave %d requests", i+1, seen)
			}
			switch {
			case mode == 1:
				if err == nil {
					vrt.Fail("call %d (%s) accepts a wrong reply to [%s]: %s", i, cl.name, hexs(cl.req), show(v))
				}
				if x != xTCP {
					for _, p := range g.line.Ports {
						p.Flush()
					}
				}
			case exc >= 0:
				if k := isExc(err); k != exc {
					vrt.Fail("call %d (%s) answered by exception %d gives %s", i, cl.name, exc, eGot(v, err))
				}
			default:
				if err != nil || show(v) != show(cl.conv(rsp)) {
					if !(cl.loose && err != nil) {
						vrt.Fail("call %d (%s) gives %s, the reply carries [%s]", i, cl.name, eGot(v, err), hexs(rsp))
					}
				}
			}
			if k := g.open(); k > 1 {
				vrt.Fail("%d connections are open after %d calls", k, i+1)
			}
			if x == xTCP {
				g.net.Conns = live(g.net.Conns)
			} else {
				for _, p := range g.line.Ports {
					p.Writes = nil
				}
			}
		}
	}
}

// longLife goes through every outcome again and again on one client.
func longLife(x xport, n int) func() {
	return func() {
		g := newEnv(x)
		badDial, badIO := false, 0
		if x == xTCP {
			g.dials = func(r *vnet.DialReq) vnet.DialPlan {
				if badDial {
					return vnet.DialPlan{Err: vnet.Refused()}
				}
				return vnet.DialPlan{}
			}
		} else {
			g.line.OnOpen = func(n int, c vserial.Config) error {
				if badDial {
					return errors.New("device busy")
				}
				return nil
			}
			old := g.line.OnWrite
			g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
				if badIO == 1 {
					return 0, errors.New("write: input/output error")
				}
				return old(p, b)
			}
		}
		g.handle = func(e *exch) {
			g.reqs = g.reqs[:0]
			switch {
			case badIO == 0:
				g.reply(e, ownReply(e.unit, e.pdu))
			case e.conn != nil:
				e.conn.InjectRST(0)
			}
		}
		g.p = g.provider()
		g.c = modbus.NewClient(g.p)
		cs := copsFor(1)
		good := func(i int) {
			c := &cs[i%len(cs)]
			if b, err := c.do(g.c); err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
				vrt.Fail("round %d: %s gives [%s], %v", i, c.name, hexs(b), err)
			}
		}
		state := func(i, want int, what string) {
			Checked()
			if o := g.open(); o != want || g.c.IsConnected() != (o == 1) {
				vrt.Fail("round %d: after %s %d connections are open and IsConnected() is %v", i, what, o, g.c.IsConnected())
			}
		}
		for i := 0; i < n; i++ {
			vrt.Tick()
			badDial = true
			if err := g.c.Connect(); err == nil {
				vrt.Fail("round %d: connecting succeeds although it cannot", i)
			}
			state(i, 0, "a failed connect")
			if i%2 == 0 {
				if _, err := cs[i%8].do(g.c); err == nil {
					vrt.Fail("round %d: a call succeeds although connecting fails", i)
				}
				state(i, 0, "a call that could not connect")
			}
			badDial = false
			if i%3 == 0 {
				if err := g.c.Connect(); err != nil {
					vrt.Fail("round %d: connecting fails: %v", i, err)
				}
				state(i, 1, "connecting")
			}
			good(i)
			state(i, 1, "a call")
			badIO = 1
			if _, err := cs[i%8].do(g.c); err == nil {
				vrt.Fail("round %d: a call whose exchange fails succeeds", i)
			}
			badIO = 0
			state(i, 0, "a failed exchange")
			good(i + 1)
			if err := g.c.Close(); err != nil {
				vrt.Fail("round %d: close reports %v", i, err)
			}
			state(i, 0, "close")
			if x == xTCP {
				g.net.Conns = live(g.net.Conns)
			}
		}
	}
}

// ---- C12: several servers in one process ----

// otherServers registers handlers on one server and asks all of them.
func otherServers(order int) func() {
	return func() {
		l := wireLayouts[0]
		net := vnet.NewNetwork()
		type any interface {
			RegisterFunctionHandler(uint8, modbus.FunctionHandler)
			AddNodes(...*modbus.NodeRegister)
		}
		var peers [4]*vnet.TCPConn
		var srv [4]any
		var ms4 [4]*MNode
		var stop []func()
		net.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
			return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peers[int(r.Addr[len(r.Addr)-1]-'0')] = p }}
		}
		mk := func(i int) { // 0, 1 listen, 2, 3 dial
			if i < 2 {
				srv[i] = modbus.NewTCPServer().SetReadTimeout(3600 * sec)
			} else {
				s := modbus.NewTCPServerSpecial()
				s.SetReadTimeout(3600 * sec)
				srv[i] = s
			}
			r := newReal(1, l)
			ms4[i] = newModel(1, l)
			fill(r, ms4[i], 3+i)
			srv[i].AddNodes(r)
		}
		run := func(i int) {
			if i < 2 {
				sv := &server{s: srv[i].(*modbus.TCPServer), n: net, addr: fmt.Sprintf("127.0.0.1:150%d", i)}
				sv.serve()
				peers[i] = sv.connect()
				stop = append(stop, func() { _ = sv.s.Close() })
				return
			}
			s := srv[i].(*modbus.TCPServerSpecial)
			if err := s.AddRemoteServer(fmt.Sprintf("10.0.0.9:150%d", i)); err != nil {
				vrt.Fail("AddRemoteServer: %v", err)
			}
			if err := s.Start(); err != nil {
				vrt.Fail("Start: %v", err)
			}
			vrt.Block(func() bool { return peers[i] != nil }, nil)
			stop = append(stop, func() { _ = s.Close() })
		}
		own := [4]map[byte]byte{{}, {}, {}, {}} // function -> the answer
		set := func(i int, fc, a byte) {
			srv[i].RegisterFunctionHandler(fc, func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{a, byte(i)}, nil })
			own[i][fc] = a
		}
		tid := 0
		check := func(what string) {
			for i := range srv {
				if peers[i] == nil {
					continue
				}
				for _, p := range [][]byte{pRead(3, 7, 3), pW1(6, 8, 0x100*i+tid), pRead(1, 5, 9), {0x41, 7}, {0x65, 1}, pMask(8, 0xff00, 3), {0x2b, 0xe, 1}} {
					tid++
					want := ms4[i].clone().Exec(p)
					if a, ok := own[i][p[0]]; ok {
						want = []byte{p[0], a, byte(i)}
					} else {
						ms4[i].Exec(p)
					}
					got := ask(peers[i], fTCP(tid, 1, p))
					Checked()
					if !bytes.Equal(got, fTCP(tid, 1, want)) {
						vrt.Fail("%s: server %d of %d answers [%s] with [%s], want [%s]", what, i, len(srv), hexs(p), hexs(got), hexs(fTCP(tid, 1, want)))
					}
				}
			}
		}
		perm := [][4]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}}[order%4]
		if order/4 == 0 { // all of them first, then the handlers
			for _, i := range perm {
				mk(i)
				run(i)
			}
			check("before")
			for k, i := range perm {
				set(i, 0x41, byte(10+k))
				check("after a function was added to one")
				set(i, 3, byte(20+k))
				check("after a function was replaced on one")
				set(perm[(k+1)%4], 0x65, byte(30+k))
				check("after a function was added to another")
				srv[i].RegisterFunctionHandler(0x41, nil)
				srv[i].RegisterFunctionHandler(1, nil)
				check("after nil was registered on one")
			}
		} else { // a server created after handlers were registered on others
			for k, i := range perm {
				mk(i)
				run(i)
				check("after another server was created")
				set(i, []byte{0x41, 3, 0x65, 22}[k], byte(40+k))
				check("after a function was registered on the newest")
			}
		}
		for _, s := range stop {
			s()
		}
	}
}

// ---- C05: every unit id at once ----

func fullDirectory(reverse bool) func() {
	return func() {
		var ids []byte
		var nodes []*modbus.NodeRegister
		for i := 0; i < 256; i++ {
			ids = append(ids, byte(i))
		}
		nodes = dirNodes(ids)
		more := dirNodes(ids)
		var s dirServer
		var c *vnet.TCPConn
		if reverse {
			v := modbus.NewTCPServerSpecial()
			v.SetReadTimeout(3600 * sec)
			n := vnet.NewNetwork()
			n.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
				return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { c = p }}
			}
			if v.AddRemoteServer("10.0.0.9:1502") != nil || v.Start() != nil {
				vrt.Fail("cannot start")
			}
			vrt.Block(func() bool { return c != nil }, nil)
			s = v
		} else {
			sv := startServer(func(s *modbus.TCPServer) { s.SetReadTimeout(3600 * sec) })
			c = sv.connect()
			s = sv.s
		}
		d := map[byte]*modbus.NodeRegister{}
		check := func(what string, wire bool) {
			vrt.Tick()
			Checked()
			for i := 0; i < 256; i++ {
				n, err := s.GetNode(byte(i))
				if w := d[byte(i)]; (w != nil) != (err == nil) || n != w {
					vrt.Fail("%s: GetNode(%d) is right: %v (error %v, registered %v)", what, i, n == w, err, w != nil)
				}
			}
			for how := 0; how < 2; how++ {
				seen := map[byte]bool{}
				visit := func(id byte, n *modbus.NodeRegister) {
					if seen[id] || d[id] != n || n == nil {
						vrt.Fail("%s: %s gives unit %d (already: %v, the registered node: %v)", what, []string{"GetNodeList", "Range"}[how], id, seen[id], d[id] == n)
					}
					seen[id] = true
				}
				if how == 0 {
					for _, n := range s.GetNodeList() {
						visit(n.SlaveID(), n)
					}
				} else {
					s.Range(func(id byte, n *modbus.NodeRegister) bool { visit(id, n); return true })
				}
				if len(seen) != len(d) {
					vrt.Fail("%s: %s gives %d of %d units", what, []string{"GetNodeList", "Range"}[how], len(seen), len(d))
				}
			}
			if !wire {
				return
			}
			for i := 0; i < 256; i++ {
				want := []byte(nil)
				if n := d[byte(i)]; n != nil {
					v := i
					if n == more[i] {
						v += 1000
					}
					want = fTCP(i, byte(i), []byte{3, 2, byte((1000 + v%1000) >> 8), byte(1000 + v%1000)})
				}
				if got := ask(c, fTCP(i, byte(i), pRead(3, 0, 1))); !bytes.Equal(got, want) {
					vrt.Fail("%s: a request to unit %d is answered [%s], want [%s]", what, i, hexs(got), hexs(want))
				}
			}
		}
		for i, n := range nodes { // one by one
			s.AddNodes(n)
			d[byte(i)] = n
			check(fmt.Sprintf("%d units added", i+1), i%85 == 0)
		}
		for i := 0; i < 256; i += 3 {
			s.DeleteNode(byte(i))
			delete(d, byte(i))
			check(fmt.Sprintf("unit %d deleted", i), i%85 == 0)
		}
		s.AddNodes(more...) // all at once, replacing most
		for i, n := range more {
			d[byte(i)] = n
		}
		check("all replaced at once", true)
		s.DeleteAllNode()
		d = map[byte]*modbus.NodeRegister{}
		check("all deleted", true)
		s.AddNodes(nodes...)
		for i, n := range nodes {
			d[byte(i)] = n
		}
		check("all added at once", true)
		for i := 255; i >= 0; i-- {
			s.DeleteNode(byte(i))
			delete(d, byte(i))
			check(fmt.Sprintf("units from %d deleted", i), i%85 == 0)
		}
	}
}

type dirServer interface {
	AddNodes(...*modbus.NodeRegister)
	DeleteNode(byte)
	DeleteAllNode()
	GetNode(byte) (*modbus.NodeRegister, error)
	GetNodeList() []*modbus.NodeRegister
	Range(func(byte, *modbus.NodeRegister) bool)
}

// ---- C08, C26: pauses inside a frame ----

// pausesAll adds a few under other time-outs.
func pausesAll(mk mkWire, q *Q) {
	pauses(mk, q, false)
	wireTimes(func(t times) { q.At(t, func() { pauses(mk, q, true) }) })
}

// pauses: a frame stops for longer than the read time-out and then goes on.
// The server may have given the connection up, or answer as if it had come at
// once; it never takes what follows for something else.
func pauses(mk mkWire, q *Q, few bool) {
	in := fTCP(0x0102, 1, pW1(6, 8, 0xdead)) // looks like a request wherever a frame starts
	load := append(append([]byte{}, in...), in...)
	frames := []namedFrame{
		{"write", fTCP(0x0203, 1, append(append([]byte{16}, be(7, 3)...), append([]byte{6}, packPat(5, 48)...)...))},
		{"nested", fTCP(0x0304, 1, append([]byte{0x41}, load...))},
		{"foreign", fTCPpid(0x0405, 3, 1, append([]byte{0x41}, load...))},
		{"unserved", fTCP(0x0506, 99, append([]byte{0x41}, load...))},
		{"read", fTCP(0x0607, 14, pRead(3, 7, 3))},
	}
	for i, f := range frames {
		f := f
		if few && i != 0 && i != 4 {
			continue
		}
		for _, lead := range []int{0, 1, 2} {
			if few && lead != 1 {
				continue
			}
			lead := lead
			q.Case(Case{Name: fmt.Sprintf("%s after %d requests", f.name, lead), Fixed: true, Max: 400000, Body: func() {
				l := wireLayouts[0]
				for k := 0; k < len(f.raw); k++ {
					for _, gap := range []int{tm.RT - 1, tm.RT + 1, tm.RT + 100, 2*tm.RT + 5, 3*tm.RT + 5, 10 * tm.RT} {
						for _, tail := range [][]byte{nil, fTCP(0x0901, 1, pRW(7, 3, 8, []uint16{0x1111, 0x2222}))} {
							vrt.Tick()
							w := mk([]byte{1, 14}, []Layout{l, l})
							c := w.conn()
							for i := 0; i < lead; i++ {
								w.step(c, 0x700+i, 1, pW1(6, 7+i, 0x500+i))
							}
							what := fmt.Sprintf("frame [%s] pausing for %dms after %d bytes (read time-out %dms)", hexs(f.raw), gap, k, tm.RT)
							if k > 0 {
								_, _ = c.Write(f.raw[:k])
							}
							vrt.Sleep(int64(gap) * int64(ms))
							vrt.Settle()
							if b := c.Take(); len(b) > 0 {
								vrt.Fail("%s: received [%s] before it was complete", what, hexs(b))
							}
							w.needSame("%s, before the rest", what)
							ended := c.EOF()
							rest := append(append([]byte{}, f.raw[k:]...), tail...)
							_, _ = c.Write(rest)
							vrt.Settle()
							got := c.Take()
							Checked()
							if !ended && !c.EOF() || len(got) > 0 {
								want, _ := w.expect(append(append([]byte{}, f.raw...), tail...))
								if ended || !bytes.Equal(got, want) {
									vrt.Fail("%s, then [%s]: answered [%s], want [%s] or a closed connection", what, hexs(rest), hexs(got), hexs(want))
								}
							}
							w.needSame("%s, then [%s]", what, hexs(rest))
							w.stop()
							_ = c.Close()
							vrt.Settle()
						}
					}
				}
			}})
		}
	}
}

// ---- C22: writes failing in every way ----

type netErr struct{ t, p bool }

func (e netErr) Error() string   { return "write: odd" }
func (e netErr) Timeout() bool   { return e.t }
func (e netErr) Temporary() bool { return e.p }

func ioErrors() []error {
	r := []error{vserial.ErrTimeout, netErr{true, false}, netErr{false, true}, netErr{true, true}, netErr{}, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite,
		io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded, errors.New("serial: timeout"), errors.New("use of closed network connection"), errors.New("")}
	for _, e := range []syscall.Errno{syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.ENXIO, syscall.EBADF, syscall.ENODEV, syscall.EPIPE, syscall.ETIMEDOUT, syscall.EINVAL} {
		r = append(r, e, &os.PathError{Op: "write", Path: "/dev/ttyV7", Err: e})
	}
	return append(r, fmt.Errorf("write: %w", vserial.ErrTimeout), fmt.Errorf("write: %w", io.EOF))
}

func regC22errors() {
	reg(Scenario{Prop: "C22", Name: "write-errors", Desc: "a write failing with every kind of error after no, one, half, all but one or all bytes, on the first, second or third use, for typed and raw calls: reported, port closed, reopened by the next call", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			for _, e := range ioErrors() {
				x, e := x, e
				q.Seq(fmt.Sprintf("%s %T %v", x, e, e), func() {
					for nth := 0; nth < 3; nth++ {
						for part := 0; part < 5; part++ {
							for op := range copsFor(1) {
								vrt.Tick()
								g := newEnv(x)
								old := g.line.OnWrite
								bad := false
								g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
									if bad {
										return [...]int{0, 1, len(b) / 2, len(b) - 1, len(b)}[part], e
									}
									return old(p, b)
								}
								g.handle = func(x *exch) { g.reply(x, ownReply(x.unit, x.pdu)) }
								g.p = g.provider()
								g.c = modbus.NewClient(g.p)
								cs := copsFor(1)
								good := func(i int) {
									c := &cs[i%len(cs)]
									if b, err := c.do(g.c); err != nil || !bytes.Equal(b, c.want(g, ownReply(c.unit, c.pdu))) {
										vrt.Fail("%s over %s gives [%s], %v", c.name, x, hexs(b), err)
									}
								}
								for i := 0; i < nth; i++ {
									good(i)
								}
								bad = true
								_, err := attempt(cs[op].name, func() (interface{}, error) { return cs[op].do(g.c) })
								bad = false
								Checked()
								what := fmt.Sprintf("%s over %s whose write fails with %T %q, part %d", cs[op].name, x, e, e, part)
								if err == nil {
									vrt.Fail("%s: no error", what)
								}
								if g.open() != 0 || g.c.IsConnected() {
									vrt.Fail("%s: %d ports are open and IsConnected() is %v", what, g.open(), g.c.IsConnected())
								}
								n := g.line.Opens
								good(op + 1)
								good(op + 2)
								if g.line.Opens != n+1 || g.open() != 1 {
									vrt.Fail("%s: the next calls opened the port %d times, %d are open", what, g.line.Opens-n, g.open())
								}
								_ = g.c.Close()
							}
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C20", Name: "losses", Desc: "a connection lost with every kind of error at every moment of an exchange or while idle: held and reported consistently, one at most, and usable again", Gen: func(q *Q) {
		for _, kind := range []int{7, 0, 10, 14} {
			kind := kind
			q.Seq(calls(17, 0)[kind].name, func() {
				cl := calls(17, 0)[kind]
				n := 7 + len(cl.rsp)
				for k := -1; k <= n; k++ {
					for _, l := range losses {
						for nth := 0; nth < 3; nth++ {
							vrt.Tick()
							g := newEnv(xTCP)
							bad := false
							g.handle = func(e *exch) {
								f := g.frame(e.tid, e.unit, cl.rsp)
								if bad {
									g.send(e, 0, f[:k])
									e.conn.InjectLoss(ms, l.e)
									return
								}
								g.send(e, 0, f)
							}
							g.p = g.provider()
							g.c = modbus.NewClient(g.p)
							what := fmt.Sprintf("%s losing the connection (%v) after %d bytes of the reply, call %d", cl.name, l.e, k, nth)
							state := func(when string) {
								Checked()
								if o := g.open(); o > 1 || g.c.IsConnected() != (o == 1) {
									vrt.Fail("%s: %s %d connections are open and IsConnected() is %v", what, when, o, g.c.IsConnected())
								}
							}
							good := func() {
								v, err := attempt(what, func() (interface{}, error) { return cl.do(g.c) })
								if err != nil || show(v) != show(cl.conv(cl.rsp)) {
									vrt.Fail("%s: a good call gives %s, %v", what, show(v), err)
								}
							}
							for i := 0; i < nth; i++ {
								good()
							}
							if k < 0 {
								if nth == 0 {
									continue
								}
								g.lastT.InjectLoss(0, l.e)
							} else {
								bad = true
							}
							_, err := attempt(what, func() (interface{}, error) { return cl.do(g.c) })
							bad = false
							if (err == nil) != (k == n) {
								vrt.Fail("%s: error %v", what, err)
							}
							state("after it")
							vrt.Sleep(int64(10 * ms))
							if k == n { // the loss shows at the next call
								_, _ = attempt(what, func() (interface{}, error) { return cl.do(g.c) })
								state("after the next call")
							}
							_ = g.c.Close()
							if g.open() != 0 {
								vrt.Fail("%s: close leaves %d connections open", what, g.open())
							}
							good()
							state("after it is used again")
							_ = g.c.Close()
						}
					}
				}
			})
		}
	}})
}

func init() {
	regLong()
	regC22errors()
	reg(Scenario{Prop: "C12", Name: "other-servers", Desc: "handlers of four servers, listening and reverse, in one process: each has its own", Gen: func(q *Q) {
		for o := 0; o < 8; o++ {
			q.Seq(fmt.Sprintf("order %d", o), otherServers(o))
		}
	}})
	reg(Scenario{Prop: "C05", Name: "full-directory", Desc: "all 256 unit ids added, replaced and deleted one by one and at once; lookups, listings, ranges and traffic to every unit", Gen: func(q *Q) {
		for _, rev := range []bool{false, true} {
			q.Seq(fmt.Sprintf("reverse=%v", rev), fullDirectory(rev))
		}
	}})
	reg(Scenario{Prop: "C08", Name: "pauses", Desc: "a frame of every kind pausing at every byte for about, just over and many times the read time-out, then going on with bytes that look like requests", Gen: func(q *Q) { pausesAll(listenWire, q) }})
	reg(Scenario{Prop: "C26", Name: "pauses", Desc: "the same on the connection the reverse server dialled", Gen: func(q *Q) { pausesAll(reverseWire, q) }})
}
