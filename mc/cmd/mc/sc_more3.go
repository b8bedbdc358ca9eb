package main

import (
	"bytes"
	"fmt"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// Other time-outs and intervals, settings changed between runs, several
// servers in one process, results kept across calls.

// wireTimes are the time-outs a listening server is set to besides the usual.
func wireTimes(f func(t times), ks ...[2]int) {
	if len(ks) == 0 {
		ks = [][2]int{{100, 50}, {300, 4000}, {90000, 30000}, {900000, 100}}
	}
	for _, k := range ks {
		t := defTimes
		t.RT, t.WT = k[0], k[1]
		f(t)
	}
}

// revTimes are the reverse server's.
func revTimes(f func(t times)) {
	for _, t := range []times{
		{2000, 1000, 50 * ms, 20 * ms, 200 * ms, 100 * ms, false},
		{2000, 1000, 5 * sec, 90 * sec, 60 * sec, 10 * sec, false},
		{2000, 1000, 40 * sec, 600 * sec, 900 * sec, 100 * ms, false},
		{2000, 1000, 100 * sec, 40 * ms, 150 * ms, 80 * sec, false},
		{2000, 1000, 400 * ms, 300 * ms, 2000 * ms, 1000 * ms, true},
	} {
		f(t)
	}
}

// stallCase: a connection stalls after every number of bytes of a frame; it is
// served until about the read time-out has passed and closed soon after.
func stallCase(mk mkWire) func() {
	return func() {
		l := wireLayouts[0]
		for _, f := range [][]byte{
			fTCP(0x0203, 1, pW1(6, 8, 0x77)),
			fTCP(0x0304, 99, append([]byte{16}, packPat(3, 8*60)...)),
			fTCPpid(0x0405, 3, 1, make([]byte, 30)),
		} {
			for k := 0; k < len(f); k++ {
				if k > 12 && k%9 != 0 && k != len(f)-1 {
					continue
				}
				for lead := 0; lead < 2; lead++ {
					vrt.Tick()
					w := mk([]byte{1, 14}, []Layout{l, l})
					c := w.conn()
					if lead > 0 {
						w.step(c, 0x701, 14, pRead(3, 7, 3))
					}
					_, _ = c.Write(f[:k])
					vrt.Sleep(int64(wRT()) * 9 / 10)
					vrt.Settle()
					Checked()
					if c.EOF() {
						vrt.Fail("[%s] stalled for %v with a read timeout of %v: already closed", hexs(f[:k]), wRT()*9/10, wRT())
					}
					vrt.Sleep(int64(wRT()/10 + 100*ms))
					vrt.Settle()
					if !c.EOF() {
						vrt.Fail("[%s] stalled for %v with a read timeout of %v: still open", hexs(f[:k]), wRT()+100*ms, wRT())
					}
					w.needSame("stalled [%s]", hexs(f[:k]))
					nc := w.conn()
					w.step(nc, 0x702, 1, pW1(6, 8, k))
					_ = nc.Close()
					w.stop()
					vrt.Settle()
				}
			}
		}
	}
}

// heldReply: the peer reads nothing for a while; within the write time-out
// that costs nothing, well beyond it the connection is given up.
func heldReply(mk mkWire, hold rtime.Duration, window int) func() {
	return func() {
		l := wireLayouts[0]
		w := mk([]byte{1, 14}, []Layout{l, l})
		c := w.conn()
		w.step(c, 0x701, 14, pRead(3, 7, 3))
		c.Window = window
		var raw []byte
		for i := 0; i < 3; i++ {
			raw = append(raw, fTCP(0x100+i, 1, pRW(7, 3, 8, []uint16{uint16(0x1111 * i)}))...)
		}
		want, _ := w.expect(raw)
		_, _ = c.Write(raw)
		vrt.Sleep(int64(hold))
		c.Window = 0
		vrt.Settle()
		var got []byte
		for i := 0; i < 6; i++ {
			got = append(got, c.Take()...)
			vrt.Settle()
		}
		Checked()
		if !bytes.Equal(got, want) || c.EOF() {
			vrt.Fail("peer that reads %d bytes and then nothing for %v (write timeout %v): received [%s], want [%s], dropped=%v", window, hold, wWT(), hexs(got), hexs(want), c.EOF())
		}
		w.needSame("a slow reader")
		w.step(c, 0x702, 14, pRead(3, 7, 3))
		w.stop()
	}
}

func regTimes() {
	for _, k := range []struct {
		prop, suf string
		mk        mkWire
		rev       bool
	}{{"C09", "", listenWire, false}, {"C26", "/reverse", reverseWire, true}} {
		k := k
		reg(Scenario{Prop: k.prop, Name: "stalls-and-timeouts" + k.suf, Desc: "servers with read time-outs from 100 ms to 15 min, a connection stalling after every number of bytes: served until the time-out, closed within 100 ms after it, other connections unaffected", Gen: func(q *Q) {
			wireTimes(func(t times) {
				q.At(t, func() { q.Case(Case{Name: "stalls", Fixed: true, Max: 400000, Body: stallCase(k.mk)}) })
			}, [][2]int{{100, 50}, {300, 4000}, {2000, 1000}, {90000, 30000}, {900000, 100}, {1000, 900000}}...)
		}})
	}
	for _, k := range []struct {
		prop, suf string
		mk        mkWire
	}{{"C08", "", listenWire}, {"C26", "/reverse", reverseWire}} {
		k := k
		reg(Scenario{Prop: k.prop, Name: "slow-readers" + k.suf, Desc: "a client that pipelines and reads nothing beyond every number of bytes until half or nine tenths of the write time-out (50 ms to 15 min) has passed: it gets every reply", Gen: func(q *Q) {
			wireTimes(func(t times) {
				q.At(t, func() {
					for n := 1; n < 39; n++ {
						for _, h := range []rtime.Duration{wWT() / 2, wWT() * 9 / 10} {
							q.Case(Case{Name: fmt.Sprintf("%d bytes, %v", n, h), BC: 1, Body: heldReply(k.mk, h, n)})
						}
					}
				})
			}, [][2]int{{100, 50}, {3000, 4000}, {2000, 1000}, {90000, 30000}, {1000, 900000}}...)
		}})
	}
	reg(Scenario{Prop: "C11", Name: "close-vs-clients/timeouts", Race: false, Desc: "close against clients in every phase on servers with read and write time-outs from 50 ms to 15 min: close returns within twice their sum, everything is over", Gen: func(q *Q) {
		wireTimes(func(t times) {
			q.At(t, func() {
				ph := cliPhases()
				for _, st := range []bool{true, false} {
					for i, p := range ph {
						q.Case(Case{Name: fmt.Sprintf("%s settled=%v", p.name, st), P: q.N(1, 2), BC: 1, Body: closeCase([]cliPhase{p}, 1, st)})
						for j := i; j < len(ph) && q.Thorough; j++ {
							q.Case(Case{Name: fmt.Sprintf("%s + %s settled=%v", p.name, ph[j].name, st), P: 1, BC: 1, Body: closeCase([]cliPhase{p, ph[j]}, 2, st)})
						}
					}
				}
			})
		})
	}})
	reg(Scenario{Prop: "C10", Name: "disturbed/timeouts", Desc: "two active connections next to a disturbing one, on servers with read and write time-outs from 50 ms to 15 min", Gen: func(q *Q) {
		wireTimes(func(t times) {
			q.At(t, func() {
				for _, d := range disturbs[1:] {
					x, y := concOps[0:1], concOps[6:7]
					q.Case(Case{Name: d.name, P: q.N(1, 2), BC: 1, Body: concServer([][]wireOp{x, y}, false, d)})
				}
			})
		})
	}})
	reg(Scenario{Prop: "C24", Name: "histories/timeouts", Desc: "every history of dial outcomes, callbacks and session ends with connect time-outs from 50 ms to 100 s, reconnect intervals from 20 ms to 10 min and session time-outs from 100 ms to 15 min, and over TLS", Gen: func(q *Q) {
		revTimes(func(t times) {
			q.At(t, func() {
				for _, auto := range []bool{true, false} {
					q.Case(Case{Name: fmt.Sprintf("auto=%v", auto), BC: 1, Split: true, Max: 400000, Body: revHistory(auto, q.N(2, 3), false, true)})
				}
			})
		})
	}})
	reg(Scenario{Prop: "C25", Name: "close-anywhere/timeouts", Desc: "close at every phase with connect time-outs from 50 ms to 100 s, reconnect intervals from 20 ms to 10 min and session time-outs from 100 ms to 15 min, and over TLS: it stops within the configured times", Gen: func(q *Q) {
		revTimes(func(t times) {
			q.At(t, func() {
				for _, ph := range revPhases() {
					for _, auto := range []bool{true, false} {
						for _, alive := range []bool{false, true} {
							q.Case(Case{Name: fmt.Sprintf("%s auto=%v alive=%v", ph.name, auto, alive), P: q.N(1, 2), BC: 1, Max: 400000, Body: revClose(ph, auto, alive, 1, true)})
						}
					}
				}
			})
		})
	}})
	reg(Scenario{Prop: "C25", Name: "keep-alive-intervals", Desc: "keep-alive intervals from 1 ms to 3 hours, connections held for three of them", Gen: func(q *Q) {
		for _, iv := range []rtime.Duration{ms, 7 * ms, 45 * ms, 10 * sec, 30 * sec, 45 * sec, 90 * sec, 300 * sec, 3600 * sec, 10800 * sec} {
			t := defTimes
			t.RRT = iv + 10*sec
			iv := iv
			q.At(t, func() {
				for _, part := range []rtime.Duration{iv / 2, iv*3/2 + 1, iv*3 + iv/2} {
					q.Case(Case{Name: fmt.Sprintf("every %v, connected for %v", iv, part), BC: 1, Max: 400000, Body: revAlive(iv, part, true, 0, 0)})
				}
			})
		}
	}})
	reg(Scenario{Prop: "C17", Name: "timeouts", Desc: "clients with time-outs from 20 ms to 10 min and without any, correct replies late and in pieces with pauses up to nine tenths of the time-out", Gen: func(q *Q) {
		for _, x := range xports {
			for _, T := range []rtime.Duration{0, 20 * ms, 150 * ms, 700 * ms, 5 * sec, 15 * sec, 45 * sec, 90 * sec, 600 * sec} {
				x, T := x, T
				D := T
				if T == 0 { // none at all
					if x != xTCP {
						continue
					}
					D = 3600 * sec
				}
				q.Seq(fmt.Sprintf("%s timeout %v", x, T), func() {
					for k := 0; k < q.N(2, 4); k++ {
						cs := calls(17, k)
						cs = append(cs, pduCalls(calls(17, k)[:3])...)
						for i := range cs {
							cl := &cs[i]
							n := len(newEnv(x).frame(1, cl.unit, cl.rsp))
							cuts := [][]int{nil, {1}, {n / 2}, {n - 1}, {1, 2}, {3, n - 2}}
							for _, c := range cuts {
								for _, first := range []rtime.Duration{0, D / 3, D * 9 / 10} {
									left := D*9/10 - first
									if len(c) > 0 {
										left /= rtime.Duration(len(c))
									} else {
										left = 0
									}
									chunkedAt(x, cl, c, first, left, T)
								}
							}
						}
					}
				})
			}
		}
	}})
}

// chunkedAt is chunked with a time-out and a pause before the first piece.
func chunkedAt(x xport, cl *call, cuts []int, first, gap, T rtime.Duration) {
	vrt.Tick()
	g := newEnv(x)
	g.T = T
	g.p = g.provider()
	g.c = modbus.NewClient(g.p)
	g.handle = func(e *exch) {
		f := g.frame(e.tid, e.unit, cl.rsp)
		p := 0
		for i := 0; i <= len(cuts); i++ {
			end := len(f)
			if i < len(cuts) {
				end = cuts[i]
			}
			g.send(e, first+rtime.Duration(i)*gap, f[p:end])
			p = end
		}
	}
	for k := 0; k < 2; k++ {
		v, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
		Checked()
		if err != nil || show(v) != show(cl.conv(cl.rsp)) {
			vrt.Fail("%s over %s, timeout %v: the correct reply [%s] cut at %v, after %v and with pauses of %v, gives %s, %v", cl.name, x, T, hexs(g.frame(1, cl.unit, cl.rsp)), cuts, first, gap, show(v), err)
		}
	}
	_ = g.c.Close()
}

// ---- C05: two servers in one process ----

// twoDirs runs every history of directory operations on two servers.
func twoDirs(kind, depth int) func() {
	return func() {
		l := wireLayouts[0]
		net := vnet.NewNetwork()
		type dir interface {
			AddNodes(...*modbus.NodeRegister)
			GetNode(byte) (*modbus.NodeRegister, error)
			GetNodeList() []*modbus.NodeRegister
			DeleteNode(byte)
			DeleteAllNode()
		}
		var peers [2]*vnet.TCPConn
		var srv [2]dir
		var stop []func()
		var real [2]map[byte]*modbus.NodeRegister
		var model [2]map[byte]*MNode
		net.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
			return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peers[int(r.Addr[len(r.Addr)-1]-'0')] = p }}
		}
		for i := range srv {
			i := i
			real[i], model[i] = map[byte]*modbus.NodeRegister{}, map[byte]*MNode{}
			if kind>>uint(i)&1 == 0 {
				s := modbus.NewTCPServer().SetReadTimeout(3600 * sec)
				srv[i] = s
				sv := &server{s: s, n: net, addr: fmt.Sprintf("127.0.0.1:150%d", i)}
				sv.serve()
				peers[i] = sv.connect()
				stop = append(stop, func() { _ = sv.s.Close() })
			} else {
				s := modbus.NewTCPServerSpecial()
				s.SetReadTimeout(3600 * sec)
				srv[i] = s
				_ = s.AddRemoteServer(fmt.Sprintf("10.0.0.9:150%d", i))
				_ = s.Start()
				vrt.Block(func() bool { return peers[i] != nil }, nil)
				stop = append(stop, func() { _ = s.Close() })
			}
		}
		hist := ""
		seed := 1
		units := []byte{1, 14}
		for d := 0; d < depth; d++ {
			i := vrt.Pick(2)
			switch k := vrt.Pick(5); k {
			case 0, 1:
				u := units[k]
				r, m := newReal(u, l), newModel(u, l)
				seed++
				fill(r, m, seed)
				srv[i].AddNodes(r)
				real[i][u], model[i][u] = r, m
				hist += fmt.Sprintf(" add %d to %d;", u, i)
			case 2, 3:
				u := units[k-2]
				srv[i].DeleteNode(u)
				delete(real[i], u)
				delete(model[i], u)
				hist += fmt.Sprintf(" delete %d from %d;", u, i)
			case 4:
				srv[i].DeleteAllNode()
				real[i], model[i] = map[byte]*modbus.NodeRegister{}, map[byte]*MNode{}
				hist += fmt.Sprintf(" delete all from %d;", i)
			}
			for j := range srv {
				Checked()
				if n := len(srv[j].GetNodeList()); n != len(real[j]) {
					vrt.Fail("%s server %d lists %d nodes, it has %d", hist, j, n, len(real[j]))
				}
				for _, u := range units {
					got, err := srv[j].GetNode(u)
					if got != real[j][u] || (err == nil) != (real[j][u] != nil) {
						vrt.Fail("%s server %d: unit %d is %v, %v", hist, j, u, got, err)
					}
					seed++
					var want []byte
					p := pRW(7, 3, 8, []uint16{uint16(seed * 7)})
					if m := model[j][u]; m != nil {
						want = fTCP(seed, u, m.Exec(p))
					}
					if got := ask(peers[j], fTCP(seed, u, p)); !bytes.Equal(got, want) {
						vrt.Fail("%s server %d: a request to unit %d is answered [%s], want [%s]", hist, j, u, hexs(got), hexs(want))
					}
				}
				for u, r := range real[j] {
					if s := same(r, model[j][u]); s != "" {
						vrt.Fail("%s server %d, unit %d: %s", hist, j, u, s)
					}
				}
			}
		}
		for _, s := range stop {
			s()
		}
	}
}

// ---- C24, C25, C26: settings changed between runs ----

type revSet struct {
	addr             string
	tls, auto, ka    bool
	ri, rt, iv       rtime.Duration
	con, lost, alive int // which handler
	n18, f41         bool
}

var revChangeNames = []string{"nothing", "other remote", "tls remote", "interval", "read timeout", "auto-reconnect", "keep-alive on", "keep-alive off", "keep-alive on as before", "connect callback", "connection-lost callback", "nil callbacks", "node", "function handler"}

// revChanges runs the server several times with one setting changed in
// between, and checks that each run follows the settings it was started with.
func revChanges(runs int) func() {
	return func() {
		net := vnet.NewNetwork()
		l := wireLayouts[0]
		r17, m17 := newReal(17, l), newModel(17, l)
		r18, m18 := newReal(18, l), newModel(18, l)
		fill(r17, m17, 3)
		fill(r18, m18, 4)
		c := revSet{addr: "10.0.0.9:1502", auto: true, ri: 300 * ms, rt: 2000 * ms, iv: 150 * ms}
		s := modbus.NewTCPServerSpecial()
		var cons, losts, alives []int
		con := func(k int) modbus.OnConnectHandler {
			return func(*modbus.TCPServerSpecial) error { cons = append(cons, k); return nil }
		}
		lost := func(k int) modbus.OnConnectionLostHandler {
			return func(*modbus.TCPServerSpecial) { losts = append(losts, k) }
		}
		alive := func(k int) modbus.OnKeepAliveHandler {
			return func(*modbus.TCPServerSpecial) { alives = append(alives, k) }
		}
		s.SetReadTimeout(c.rt).SetWriteTimeout(sec).SetConnectTimeout(400 * ms).SetReconnectInterval(c.ri).EnableAutoReconnect(c.auto)
		s.SetOnConnectHandler(con(0)).SetConnectionLostHandler(lost(0)).SetKeepAlive(false, c.iv, alive(0))
		s.AddNodes(r17)
		if err := s.AddRemoteServer(c.addr); err != nil {
			vrt.Fail("AddRemoteServer: %v", err)
		}
		hist := ""
		var peer *vnet.TCPConn
		var dials []int64
		quiet := true
		net.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
			if quiet {
				vrt.Fail("%s: dials although it is stopped", hist)
			}
			if r.Addr != c.addr || r.TLS != c.tls {
				vrt.Fail("%s: dials %s (tls %v), the remote is %s (tls %v)", hist, r.Addr, r.TLS, c.addr, c.tls)
			}
			dials = append(dials, vrt.Now())
			if c.auto && len(dials) == 1 {
				return vnet.DialPlan{Err: vnet.Refused()}
			}
			return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peer = p }}
		}
		next := 1
		v41 := byte(0)
		change := func(k int) {
			h := next
			next++
			hist += ", " + revChangeNames[k]
			switch k {
			case 1, 2:
				c.tls = k == 2
				c.addr = fmt.Sprintf("10.0.%d.9:160%d", h, h)
				a := c.addr
				if c.tls {
					a = "tls://" + a
				}
				if err := s.AddRemoteServer(a); err != nil {
					vrt.Fail("AddRemoteServer: %v", err)
				}
			case 3:
				c.ri = 1200*ms - c.ri
				s.SetReconnectInterval(c.ri)
			case 4:
				c.rt = 2700*ms - c.rt
				s.SetReadTimeout(c.rt)
			case 5:
				c.auto = !c.auto
				s.EnableAutoReconnect(c.auto)
			case 6:
				c.ka, c.iv, c.alive = true, rtime.Duration(60+30*h)*ms, h
				s.SetKeepAlive(true, c.iv, alive(h))
			case 7:
				c.ka = false
				s.SetKeepAlive(false, 0, nil)
			case 8:
				c.ka = true
				s.SetKeepAlive(true, 0, nil)
			case 9:
				c.con = h
				s.SetOnConnectHandler(con(h))
			case 10:
				c.lost = h
				s.SetConnectionLostHandler(lost(h))
			case 11:
				s.SetOnConnectHandler(nil)
				s.SetConnectionLostHandler(nil)
			case 12:
				c.n18 = !c.n18
				if c.n18 {
					s.AddNodes(r18)
				} else {
					s.DeleteNode(18)
				}
			case 13:
				c.f41 = true
				s.RegisterFunctionHandler(0x41, func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{byte(h)}, nil })
				v41 = byte(h)
			}
		}
		tid := 0
		asks := func() {
			for _, u := range []byte{17, 18} {
				for _, p := range [][]byte{pRW(7, 3, 8, []uint16{uint16(tid * 5)}), {0x41, 9}, pRead(1, 5, 9)} {
					tid++
					var want []byte
					m := map[byte]*MNode{17: m17, 18: m18}[u]
					switch {
					case u == 18 && !c.n18:
					case p[0] == 0x41 && c.f41:
						want = fTCP(tid, u, []byte{0x41, v41})
					default:
						want = fTCP(tid, u, m.Exec(p))
					}
					if got := ask(peer, fTCP(tid, u, p)); !bytes.Equal(got, want) {
						vrt.Fail("%s: request [%s] to unit %d is answered [%s], want [%s]", hist, hexs(p), u, hexs(got), hexs(want))
					}
				}
			}
		}
		only := func(what string, got []int, want int) {
			for _, g := range got {
				if g != want {
					vrt.Fail("%s: %s number %d was called, number %d is set", hist, what, g, want)
				}
			}
		}
		for run := 0; run < runs; run++ {
			change(vrt.Pick(len(revChangeNames)))
			cons, losts, alives, dials, peer = nil, nil, nil, nil, nil
			quiet = false
			if err := s.Start(); err != nil {
				vrt.Fail("%s: Start: %v", hist, err)
			}
			hist += "; run"
			if !await(5*sec, func() bool { return len(cons) > 0 && s.IsConnected() }) {
				vrt.Fail("%s: not connected within 5s", hist)
			}
			if c.auto {
				if g := rtime.Duration(dials[1] - dials[0]); g < c.ri || g > c.ri+sec {
					vrt.Fail("%s: dials again %v after a failure, the interval is %v", hist, g, c.ri)
				}
			}
			asks()
			t0 := vrt.Now()
			for i := 0; i < 10; i++ {
				vrt.Sleep(int64(c.iv) / 2)
				asks()
			}
			last := vrt.Now()
			k := len(alives)
			if c.ka && (k < 4 || k > 6) || !c.ka && k > 0 {
				vrt.Fail("%s: %d keep-alives in %v (enabled %v, every %v)", hist, k, rtime.Duration(last-t0), c.ka, c.iv)
			}
			vrt.Sleep(int64(c.rt) * 9 / 10)
			vrt.Settle()
			if peer.EOF() || len(losts) > 0 {
				vrt.Fail("%s: idle for %v with a read timeout of %v: closed", hist, c.rt*9/10, c.rt)
			}
			p := peer
			vrt.Sleep(int64(c.rt/10 + 50*ms))
			vrt.Settle()
			Checked()
			if !p.EOF() || len(losts) != 1 {
				vrt.Fail("%s: idle for %v with a read timeout of %v: closed %v, %d connection-lost callbacks", hist, c.rt+50*ms, c.rt, p.EOF(), len(losts))
			}
			_ = s.Close()
			if !await(5*sec, func() bool { return s.IsClosed() && net.OpenLib() == 0 && vrt.Live(true) == 0 }) {
				vrt.Fail("%s: does not stop", hist)
			}
			only("connect callback", cons, c.con)
			only("connection-lost callback", losts, c.lost)
			only("keep-alive callback", alives, c.alive)
			n, a := len(cons), len(alives)
			quiet = true
			vrt.Sleep(int64(100 * sec))
			if len(cons) != n || len(losts) != n || len(alives) != a {
				vrt.Fail("%s: callbacks after it stopped, or %d connect and %d connection-lost callbacks", hist, len(cons), len(losts))
			}
			if x := same(r17, m17) + same(r18, m18); x != "" {
				vrt.Fail("%s: %s", hist, x)
			}
		}
	}
}

// ---- C18, C28: what calls returned stays as it was ----

// keptResults makes every sequence of calls, keeping all results.
func keptResults(x xport, depth int, raw bool) func() {
	return func() {
		var cur []byte
		g := newRig(x, func(g *rig, e *exch) { g.reply(e, cur) })
		cs := []call{}
		for k := 0; k < 2; k++ {
			all := calls(17, k)
			for _, i := range []int{0, 4, 7, 13, 14} {
				cs = append(cs, all[i])
			}
			cs = append(cs, pduCalls([]call{all[5]})...)
		}
		type kept struct {
			what string
			v    interface{}
			was  string
		}
		var ks []kept
		hist := ""
		for d := 0; d < depth; d++ {
			i := vrt.Pick(len(cs) + b2i(raw)*3)
			var v interface{}
			var err error
			if i < len(cs) {
				cl := &cs[i]
				cur = cl.rsp
				hist += " " + cl.name
				v, err = attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
			} else {
				cl := &cs[(i-len(cs))*3]
				cur = cl.rsp
				hist += " raw frame " + cl.name
				f := g.frame(d+1, cl.unit, cl.req)
				v, err = attempt("SendRawFrame", func() (interface{}, error) { return g.c.SendRawFrame(f) })
				if b, ok := v.([]byte); ok && err == nil && !bytes.Equal(b, g.frame(d+1, cl.unit, cl.rsp)) {
					vrt.Fail("%s:%s returns [%s]", x, hist, hexs(b))
				}
			}
			if err != nil {
				vrt.Fail("%s:%s: %v", x, hist, err)
			}
			ks = append(ks, kept{hist, v, show(v)})
			for _, k := range ks {
				Checked()
				if show(k.v) != k.was {
					vrt.Fail("%s: the result of the last of%s was %s and is %s after%s", x, k.what, k.was, show(k.v), hist)
				}
			}
		}
	}
}

// ---- C10: long replies ----

var longOps = []wireOp{
	{"read125", pRead(3, 2000, 125)},
	{"read120", pRead(4, 1001, 120)},
	{"coils2000", pRead(1, 10, 2000)},
	{"inputs1990", pRead(2, 303, 1990)},
	{"rw", pRW(2000, 125, 2001, []uint16{0x1111, 0x2222, 0x3333})},
	{"write", pWRegs(2000, []uint16{0x5555, 0x6666})},
	{"short", pRead(3, 2000, 2)},
}

// evilPair: two connections are sent one thing each at once.
func evilPair(a, b namedFrame) func() {
	return func() {
		l := wireLayouts[0]
		w := listenWire([]byte{1, 14}, []Layout{l, l})
		cs := []*vnet.TCPConn{w.conn(), w.conn()}
		var ths []*vrt.Thread
		var want [2][]byte
		for i, f := range []namedFrame{a, b} {
			i, f := i, f
			want[i], _ = w.expect(f.raw)
			ths = append(ths, vrt.GoNamed(fmt.Sprint("client", i), func() { _, _ = cs[i].Write(f.raw) }))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		vrt.Settle()
		for i, c := range cs {
			Checked()
			if got := c.Take(); !bytes.Equal(got, want[i]) {
				vrt.Fail("%s and %s at once: connection %d is answered [%s], want [%s]", a.name, b.name, i, hexs(got), hexs(want[i]))
			}
		}
		w.needSame("%s and %s at once", a.name, b.name)
		c := w.conn()
		w.step(c, 0x901, 14, pRead(3, 7, 3))
		w.stop()
	}
}

func regEvilPairs() {
	var fs []namedFrame
	add := func(n string, raw []byte) { fs = append(fs, namedFrame{n, raw}) }
	add("a read", fTCP(3, 1, pRead(3, 7, 3)))
	add("a write to the other unit", fTCP(3, 14, pW1(6, 8, 0x4321)))
	add("an unknown unit", fTCP(4, 77, pRead(3, 7, 3)))
	add("an unknown function", fTCP(5, 1, []byte{0x63, 1, 2}))
	add("an illegal address", fTCP(6, 1, pRead(3, 7000, 3)))
	add("an illegal quantity", fTCP(7, 14, pRead(2, 3, 0)))
	add("a foreign protocol", fTCPpid(8, 7, 1, []byte{3, 0, 7, 0, 1}))
	add("a truncated body", fTCP(9, 1, []byte{16, 0, 7, 0, 2, 4, 1}))
	add("an impossible length", []byte{0, 10, 0, 0, 0xff, 0xff, 1, 3, 0, 0})
	add("length zero", []byte{0, 11, 0, 0, 0, 0, 1, 3, 0, 0})
	add("length one", []byte{0, 12, 0, 0, 0, 1, 1, 3, 0, 0})
	add("half a frame", fTCP(13, 1, pRead(3, 7, 3))[:9])
	add("half a header", fTCP(14, 1, pRead(3, 7, 3))[:4])
	reg(Scenario{Prop: "C09", Name: "two-at-once", Race: true, Desc: "two connections, each sent a good or broken frame of every kind at the same time, all interleavings within the bound and under the race detector: replies, tables, and a new connection afterwards", Gen: func(q *Q) {
		for i := range fs {
			for j := i; j < len(fs); j++ {
				q.Case(Case{Name: fs[i].name + " and " + fs[j].name, P: q.N(2, 3) - b2i(q.Race), BC: 1, Body: evilPair(fs[i], fs[j])})
			}
		}
	}})
}

func init() {
	regTimes()
	regEvilPairs()
	reg(Scenario{Prop: "C05", Name: "two-servers", Desc: "every history of adding and deleting units on two servers of one process, listening or reverse: look-ups, lists, replies and tables of each", Gen: func(q *Q) {
		for kind := 0; kind < 4; kind++ {
			q.Case(Case{Name: []string{"listening and listening", "reverse and listening", "listening and reverse", "reverse and reverse"}[kind], BC: 1, Split: true, Max: 400000, Body: twoDirs(kind, q.N(4, 5))})
		}
	}})
	for _, p := range []string{"C24", "C25", "C26"} {
		p := p
		reg(Scenario{Prop: p, Name: "changed-between-runs", Desc: "a reverse server run several times with any one setting changed before each run (remote, TLS, intervals, time-outs, auto-reconnect, keep-alive, callbacks, nodes, handlers): each run follows the settings in force", Gen: func(q *Q) {
			n := q.N(3, 4)
			q.Case(Case{Name: fmt.Sprint(n, " runs"), BC: 1, Split: true, Max: 400000, Body: revChanges(n)})
		}})
	}
	for _, p := range []string{"C18", "C28"} {
		p := p
		reg(Scenario{Prop: p, Name: "kept-results", Desc: "every sequence of calls on one client, everything returned is kept and must not change", Gen: func(q *Q) {
			for _, x := range xports {
				q.Case(Case{Name: x.String(), BC: 1, Split: true, Body: keptResults(x, q.N(4, 5), true)})
			}
		}})
	}
	reg(Scenario{Prop: "C10", Name: "long-replies", Race: true, Desc: "one and two connections, replies of up to 260 bytes, in sequence and pipelined, all interleavings within the bound: whole and in order", Gen: func(q *Q) {
		l := wireLayouts[1]
		for a := range longOps {
			for b := range longOps {
				x := []wireOp{longOps[a], longOps[b]}
				q.Case(Case{Name: nm(x) + "on one connection, pipelined", P: q.N(2, 3) - b2i(q.Race), BC: 1, Body: concServerL(l, [][]wireOp{x}, true, disturbs[0])})
				if a <= b {
					q.Case(Case{Name: nm(longOps[a:a+1]) + "|| " + nm(longOps[b:b+1]), P: q.N(2, 3) - b2i(q.Race), BC: 1, Body: concServerL(l, [][]wireOp{longOps[a : a+1], longOps[b : b+1]}, false, disturbs[0])})
				}
				for c := range longOps {
					if q.Race || !q.Thorough && (a+b+c)%3 != 0 {
						continue
					}
					x := []wireOp{longOps[a], longOps[b], longOps[c]}
					q.Case(Case{Name: nm(x) + "on one connection, pipelined", P: 1, BC: 1, Body: concServerL(l, [][]wireOp{x}, true, disturbs[0])})
				}
			}
		}
	}})
}
