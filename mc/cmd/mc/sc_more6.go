package main

import (
	"bytes"
	"errors"
	"fmt"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// Devices that hang up, the largest replies, the connection a connect callback
// finds, and the two time-outs of a server apart from each other.

func regHangup() {
	reg(Scenario{Prop: "C21", Name: "serial-hang-up", Desc: "serial devices that hang up (reads give nothing, without an error) before, within and after the reply to every call, at once or later", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			for _, T := range []rtime.Duration{0, 50 * ms, 5 * sec} {
				x, T := x, T
				q.Seq(fmt.Sprintf("%s %v", x, T), func() {
					for _, cs := range [][]call{calls(17, 0), calls(17, 1), calls(17, 2), pduCalls(calls(17, 3))} {
						for _, cl := range cs {
							cl := cl
							for _, exc := range []bool{false, true} {
								rsp := cl.rsp
								if exc {
									rsp = []byte{cl.req[0] | 0x80, 2}
								}
								req := len(newEnv(x).frame(0, cl.unit, cl.req))
								n := len(newEnv(x).frame(0, cl.unit, rsp))
								for k := 0; k < n; k++ {
									if k > 12 && k < n-6 && k%16 != 0 {
										continue
									}
									for _, d := range []rtime.Duration{0, 20 * ms} {
										hangup(x, &cl, rsp, req+n, k, d, T)
									}
								}
							}
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C22", Name: "hang-up", Desc: "a line that hangs up in the middle of an exchange and is there again: a failed write drops the port, the next call opens it anew", Gen: func(q *Q) {
		for _, x := range []xport{xRTU, xASCII} {
			x := x
			q.Seq(x.String(), func() {
				for _, cl := range calls(17, 0) {
					cl := cl
					n := len(newEnv(x).frame(0, cl.unit, cl.rsp))
					for k := 0; k < n; k++ {
						vrt.Tick()
						g := newEnv(x)
						g.p = g.provider()
						g.c = modbus.NewClient(g.p)
						first := true
						g.handle = func(e *exch) {
							f := g.frame(e.tid, e.unit, cl.rsp)
							if first {
								first = false
								g.send(e, 0, f[:k])
								e.port.Hang(0)
								return
							}
							g.send(e, 0, f)
						}
						var errs []error
						for i := 0; i < 4; i++ {
							_, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
							errs = append(errs, err)
							open := 0
							for _, p := range g.line.Ports {
								if p.Closed == 0 {
									open++
								}
							}
							Checked()
							if open > 1 || g.p.IsConnected() != (open == 1) {
								vrt.Fail("%s over %s, line hung up after %d bytes, call %d: %d ports open, connected %v", cl.name, x, k, i, open, g.p.IsConnected())
							}
						}
						if errs[0] == nil || errs[2] != nil || errs[3] != nil || len(g.line.Ports) != 2 {
							vrt.Fail("%s over %s, line hung up after %d bytes and there again: calls give %v, port opened %d times", cl.name, x, k, errs, len(g.line.Ports))
						}
					}
				}
			})
		}
	}})
}

// hangup: the device sends k bytes of its reply and hangs up.
func hangup(x xport, cl *call, rsp []byte, chars, k int, d, T rtime.Duration) {
	vrt.Tick()
	g := newEnv(x)
	g.T = T
	g.handle = func(e *exch) {
		g.send(e, 0, g.frame(e.tid, e.unit, rsp)[:k])
		e.port.Hang(d)
	}
	g.p = g.provider()
	g.c = modbus.NewClient(g.p)
	t0 := vrt.Now()
	_, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	took := rtime.Duration(vrt.Now() - t0)
	Checked()
	if err == nil {
		vrt.Fail("%s over %s: success after %d of the reply's bytes and a hang-up", cl.name, x, k)
	}
	// transmission at the default speed, and the hang-up
	if bound := rtime.Duration(chars+600)*900*rtime.Microsecond + d + 4*T; took > bound {
		vrt.Fail("%s over %s, the device hung up after %d bytes: took %v: %v", cl.name, x, k, took, err)
	}
}

// ---- C17: the largest replies ----

func regLargest() {
	reg(Scenario{Prop: "C17", Name: "largest", Desc: "replies of the largest PDUs a transport can carry, cut at every position and at every two of the first and last ones", Gen: func(q *Q) {
		for _, x := range []xport{xTCP, xASCII} {
			for n := 240; n <= 253; n++ {
				x, n := x, n
				if n < 250 && !q.Thorough {
					continue
				}
				q.Seq(fmt.Sprintf("%s pdu of %d", x, n), func() {
					rsp := make([]byte, n)
					for i := range rsp {
						rsp[i] = byte(7*i + n)
					}
					rsp[0] = 0x41
					cl := &call{name: "SendPdu", unit: 17, req: []byte{0x41, 1}, rsp: rsp}
					cl.do = func(c modbus.Client) (interface{}, error) {
						b, err := c.SendPdu(17, cl.req)
						if err != nil {
							return nil, err
						}
						return append([]byte{}, b...), nil
					}
					cl.conv = func(rsp []byte) interface{} { return append([]byte{}, rsp...) }
					f := len(newEnv(x).frame(1, 17, rsp))
					chunked(x, cl, nil, 0)
					for a := 1; a < f; a++ {
						chunked(x, cl, []int{a}, 0)
						chunked(x, cl, []int{a}, 50*ms)
						if a > 10 && a < f-8 {
							continue
						}
						for b := a + 1; b < f; b++ {
							if b > 10 && b < f-8 {
								continue
							}
							chunked(x, cl, []int{a, b}, 0)
							chunked(x, cl, []int{a, b}, 50*ms)
						}
					}
				})
			}
		}
	}})
}

// ---- C24: what the connect callback finds ----

func regUnderlying() {
	reg(Scenario{Prop: "C24", Name: "underlying", Desc: "connect callbacks that send a registration over the underlying connection, over all sequences of accepted and refused callbacks and failed dials, plain and TLS", Gen: func(q *Q) {
		for _, scheme := range []string{"tcp", "tls"} {
			for n := 0; n < 27; n++ {
				scheme, n := scheme, n
				q.Case(Case{Name: fmt.Sprintf("%s history %d", scheme, n), Fixed: true, Body: func() { underlying(scheme, n) }})
			}
		}
	}})
}

func underlying(scheme string, code int) {
	nw := vnet.NewNetwork()
	var peer *vnet.TCPConn
	plan := []int{code % 3, code / 3 % 3, code / 9, 0} // 0 accept, 1 refuse, 2 dial fails
	dials, seen := 0, 0
	nw.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
		k := 0
		if dials < len(plan) {
			k = plan[dials]
		}
		dials++
		if k == 2 {
			return vnet.DialPlan{Err: errors.New("refused")}
		}
		return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peer = p }}
	}
	s := modbus.NewTCPServerSpecial()
	s.SetReadTimeout(20 * sec).SetReconnectInterval(300 * ms)
	r, m := newReal(1, wireLayouts[0]), newModel(1, wireLayouts[0])
	fill(r, m, 3)
	s.AddNodes(r)
	var hello []byte
	ok := 0
	s.SetOnConnectHandler(func(c *modbus.TCPServerSpecial) error {
		seen++
		hello = []byte{0xde, 0xad, byte(seen), 0xef}
		uc := c.UnderlyingConn()
		if uc == nil {
			vrt.Fail("%s, history %v: no underlying connection in the connect callback of dial %d", scheme, plan, dials)
		}
		if _, err := uc.Write(hello); err != nil {
			vrt.Fail("%s, history %v: the underlying connection the connect callback of dial %d finds does not work: %v", scheme, plan, dials, err)
		}
		if got := peer.Take(); !bytes.Equal(got, hello) {
			vrt.Fail("%s, history %v: the registration sent in the connect callback of dial %d is not what the remote got: [%s]", scheme, plan, dials, hexs(got))
		}
		Checked()
		if plan[(dials-1)%len(plan)] == 1 {
			return errors.New("no")
		}
		ok++
		return nil
	})
	a := "10.0.0.9:1502"
	if scheme == "tls" {
		a = "tls://" + a
	}
	if err := s.AddRemoteServer(a); err != nil {
		vrt.Fail("AddRemoteServer: %v", err)
	}
	if err := s.Start(); err != nil {
		vrt.Fail("Start: %v", err)
	}
	for done := 0; dials < len(plan) || done < ok; {
		w := ok
		if w == done {
			if !await(60*sec, func() bool { return ok > w }) {
				vrt.Fail("%s, history %v: no further session after %d dials", scheme, plan, dials)
			}
			continue
		}
		done++
		vrt.Settle()
		req := fTCP(0x300+done, 1, pRead(3, 7, 2))
		want := fTCP(0x300+done, 1, m.Exec(pRead(3, 7, 2)))
		if got := ask(peer, req); !bytes.Equal(got, want) {
			vrt.Fail("%s, history %v: after the registration a request is answered [%s], want [%s]", scheme, plan, hexs(got), hexs(want))
		}
		Checked()
		_ = peer.Close()
		vrt.Settle()
		if dials >= len(plan) {
			break
		}
	}
	_ = s.Close()
	vrt.Sleep(int64(30 * sec))
}

// ---- C09, C26: both time-outs ----

func regTwoTimeouts() {
	for _, k := range []struct {
		prop, suf string
		rev       bool
	}{{"C09", "", false}, {"C26", "/reverse", true}} {
		k := k
		reg(Scenario{Prop: k.prop, Name: "two-timeouts" + k.suf, Desc: "read and write time-outs of every order of magnitude, set in either order: a quiet connection is kept for the read time-out and dropped after it, whatever the write time-out", Gen: func(q *Q) {
			ts := []rtime.Duration{300 * ms, 2 * sec, 9 * sec, 120 * sec}
			for _, rt := range ts {
				for _, wt := range ts {
					for order := 0; order < 2; order++ {
						for part := 0; part < 4; part++ {
							rt, wt, order, part := rt, wt, order, part
							q.Case(Case{Name: fmt.Sprintf("read %v write %v order %d part %d", rt, wt, order, part), Fixed: true, Body: func() { twoTimeouts(k.rev, rt, wt, order, part) }})
						}
					}
				}
			}
		}})
	}
}

func twoTimeouts(rev bool, rt, wt rtime.Duration, order, part int) {
	l := wireLayouts[0]
	r, m := newReal(1, l), newModel(1, l)
	fill(r, m, 3)
	var c *vnet.TCPConn
	var stop func()
	if !rev {
		sv := startServer(func(s *modbus.TCPServer) {
			if order == 0 {
				s.SetReadTimeout(rt).SetWriteTimeout(wt)
			} else {
				s.SetWriteTimeout(wt).SetReadTimeout(rt)
			}
		}, r)
		c = sv.connect()
		stop = func() { _ = sv.s.Close() }
	} else {
		nw := vnet.NewNetwork()
		nw.OnDial = func(*vnet.DialReq) vnet.DialPlan {
			return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { c = p }}
		}
		s := modbus.NewTCPServerSpecial().EnableAutoReconnect(false)
		if order == 0 {
			s.SetReadTimeout(rt).SetWriteTimeout(wt)
		} else {
			s.SetWriteTimeout(wt).SetReadTimeout(rt)
		}
		s.AddNodes(r)
		if err := s.AddRemoteServer("10.0.0.9:1502"); err != nil {
			vrt.Fail("AddRemoteServer: %v", err)
		}
		if err := s.Start(); err != nil {
			vrt.Fail("Start: %v", err)
		}
		vrt.Block(func() bool { return c != nil }, nil)
		stop = func() { _ = s.Close(); vrt.Sleep(int64(rt + wt + 10*sec)) }
	}
	vrt.Settle()
	what := fmt.Sprintf("read timeout %v, write timeout %v (set in order %d)", rt, wt, order)
	for i := 0; i < 2; i++ {
		pdu := pRW(7, 3, 8, []uint16{uint16(0x1111 * (i + 1))})
		req := fTCP(0x40+i, 1, pdu)
		want := fTCP(0x40+i, 1, m.Exec(pdu))
		n := []int{0, 0, 3, 9}[part]
		if part > 0 {
			_, _ = c.Write(req[:n])
		}
		vrt.Sleep(int64(rt * 9 / 10))
		_, _ = c.Write(req[n:])
		vrt.Settle()
		if got := c.Take(); !bytes.Equal(got, want) || c.EOF() {
			vrt.Fail("%s: a request after a pause of %v (in byte %d) is answered [%s], want [%s] (dropped: %v)", what, rt*9/10, n, hexs(got), hexs(want), c.EOF())
		}
		Checked()
	}
	n := []int{0, 0, 3, 9}[part]
	if n > 0 {
		_, _ = c.Write(fTCP(0x50, 1, pRead(3, 7, 3))[:n])
	}
	vrt.Settle()
	vrt.Sleep(int64(2*rt + 100*ms))
	Checked()
	if !c.EOF() {
		vrt.Fail("%s: a connection quiet in byte %d for %v is still held", what, n, 2*rt+100*ms)
	}
	_ = c.Close()
	stop()
}

func init() {
	regHangup()
	regLargest()
	regUnderlying()
	regTwoTimeouts()
}
