package main

import (
	"bytes"
	"errors"
	"fmt"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	vserial "verifmc/shim/serial"
	"verifmc/vrt"
)

// ---- C13: one call, one transmission ----

// wireTap records all that is transmitted, per connection or port.
type wireTap struct {
	raw  [][]byte
	conn map[*vnet.TCPConn]int
	port map[*vserial.VPort]int
}

func (w *wireTap) line(c *vnet.TCPConn, p *vserial.VPort) *[]byte {
	var k int
	var ok bool
	if c != nil {
		k, ok = w.conn[c]
	} else {
		k, ok = w.port[p]
	}
	if !ok {
		k = len(w.raw)
		w.raw = append(w.raw, nil)
		if c != nil {
			w.conn[c] = k
		} else {
			w.port[p] = k
		}
	}
	return &w.raw[k]
}

// sends are the ways an exchange may go, each with what the call's outcome is.
type sends struct {
	what string
	do   func(g *rig, e *exch, rsp []byte)
}

func sendKinds() []sends {
	r := []sends{
		{"a correct reply", func(g *rig, e *exch, rsp []byte) { g.reply(e, rsp) }},
		{"silence", func(g *rig, e *exch, rsp []byte) {}},
		{"a reply from another unit", func(g *rig, e *exch, rsp []byte) { g.send(e, 0, g.frame(e.tid, e.unit+1, rsp)) }},
		{"a reply to another request", func(g *rig, e *exch, rsp []byte) { g.send(e, 0, g.frame(e.tid-1, e.unit, rsp)) }},
		{"a reply of another function", func(g *rig, e *exch, rsp []byte) { g.reply(e, put(rsp, 0, 0x44)) }},
		{"an empty reply", func(g *rig, e *exch, rsp []byte) { g.reply(e, rsp[:1]) }},
		{"a short reply", func(g *rig, e *exch, rsp []byte) { g.reply(e, rsp[:len(rsp)-1]) }},
		{"a damaged reply", func(g *rig, e *exch, rsp []byte) {
			f := g.frame(e.tid, e.unit, rsp)
			k := len(f) - 3
			if g.t == xTCP {
				k = 2
			}
			g.send(e, 0, put(f, k, f[k]^0x05))
		}},
		{"half a reply", func(g *rig, e *exch, rsp []byte) {
			f := g.frame(e.tid, e.unit, rsp)
			g.send(e, 0, f[:len(f)/2])
		}},
		{"half a reply and the end", func(g *rig, e *exch, rsp []byte) {
			f := g.frame(e.tid, e.unit, rsp)
			g.send(e, 0, f[:len(f)/2])
			e.end(0, false)
		}},
		{"half a reply and a reset", func(g *rig, e *exch, rsp []byte) {
			f := g.frame(e.tid, e.unit, rsp)
			g.send(e, 0, f[:len(f)/2])
			e.end(ms, true)
		}},
		{"a late end", func(g *rig, e *exch, rsp []byte) { e.end(g.T/2, false) }},
		{"a late reset", func(g *rig, e *exch, rsp []byte) { e.end(g.T/2, true) }},
		{"two replies", func(g *rig, e *exch, rsp []byte) { g.reply(e, rsp); g.reply(e, rsp) }},
		{"a reply after the time-out", func(g *rig, e *exch, rsp []byte) { g.send(e, g.T*3/2, g.frame(e.tid, e.unit, rsp)) }},
		{"its own request back", func(g *rig, e *exch, rsp []byte) { g.send(e, 0, e.raw) }},
	}
	for c := 0; c < 256; c++ {
		c := c
		r = append(r, sends{fmt.Sprintf("exception %d", c), func(g *rig, e *exch, rsp []byte) {
			g.reply(e, []byte{e.pdu[0] | 0x80, byte(c)})
		}})
	}
	return r
}

// end ends the connection, or fails the port's next read.
func (e *exch) end(d rtime.Duration, rst bool) {
	switch {
	case e.conn != nil && rst:
		e.conn.InjectRST(d)
	case e.conn != nil:
		e.conn.InjectFIN(d)
	case rst:
		e.port.InjectErr(d, errors.New("read: input/output error"))
	default:
		e.port.InjectErr(d, vserial.ErrTimeout)
	}
}

// oneSend makes a call that goes as told, warmed up by good ones or not, and
// says what was put on the wire.
func oneSend(x xport, cl *call, k sends, warm int) {
	vrt.Tick()
	bad := false
	g := newRig(x, func(g *rig, e *exch) {
		switch {
		case e.bad != "":
		case bad:
			k.do(g, e, cl.rsp)
		default:
			g.reply(e, cl.rsp)
		}
	})
	for i := 0; i < 2; i++ { // a warmed-up client, the call, and once more
		for j := 0; j < warm; j++ {
			if _, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) }); err != nil {
				vrt.Fail("%s over %s fails: %v", cl.name, x, err)
			}
		}
		g.reqs, g.junk = nil, nil
		bad = true
		_, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
		bad = false
		vrt.Sleep(int64(3 * g.T))
		Checked()
		if len(g.reqs) != 1 || len(g.junk) > 0 {
			vrt.Fail("%s over %s, answered by %s: must transmit exactly one request but sent %s (result: %v)", cl.name, x, k.what, g.sent(), err)
		}
		if w := g.frame(g.reqs[0].tid, cl.unit, cl.req); !bytes.Equal(w, g.reqs[0].raw) {
			vrt.Fail("%s over %s sent [%s], the specification prescribes [%s]", cl.name, x, hexs(g.reqs[0].raw), hexs(w))
		}
		// start over as new
		_ = g.c.Close()
		if g.line != nil {
			for _, p := range g.line.Ports {
				p.Flush()
			}
		}
	}
}

// stalled makes a call whose request cannot be written beyond n bytes.
func stalled(x xport, cl *call, n int, how int) {
	vrt.Tick()
	w := &wireTap{conn: map[*vnet.TCPConn]int{}, port: map[*vserial.VPort]int{}}
	g := newEnv(x)
	g.p = g.provider()
	g.c = modbus.NewClient(g.p)
	stall := true
	var full []byte
	if x == xTCP {
		g.setup = func(peer *vnet.TCPConn) {
			if !stall {
				old := peer.OnData
				peer.OnData = func(c *vnet.TCPConn, b []byte) {
					*w.line(c, nil) = append(*w.line(c, nil), b...)
					full = append(full, b...)
					old(c, b)
				}
				return
			}
			w.line(peer, nil)
			stall = false // only the first connection
			peer.OnData = nil
			peer.Window = n
			switch how {
			case 1:
				vrt.AddTimer(vrt.Now()+int64(g.T/2), func() { peer.InjectRST(0) })
			case 2:
				vrt.AddTimer(vrt.Now()+int64(g.T/2), func() { peer.InjectFIN(0) })
			}
		}
	} else {
		old := g.line.OnWrite
		g.line.OnWrite = func(p *vserial.VPort, b []byte) (int, error) {
			if stall {
				stall = false
				*w.line(nil, p) = append(*w.line(nil, p), b[:n]...)
				return n, errors.New("write: input/output error")
			}
			*w.line(nil, p) = append(*w.line(nil, p), b...)
			full = append(full, b...)
			return old(p, b)
		}
	}
	g.handle = func(e *exch) { g.reply(e, cl.rsp) }
	_, err := attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	vrt.Sleep(int64(3 * g.T))
	Checked()
	if len(full) > 0 {
		vrt.Fail("%s over %s could write only %d bytes of its request and transmitted [%s] once more (result: %v)", cl.name, x, n, hexs(full), err)
	}
	if err == nil {
		vrt.Fail("%s over %s could write only %d bytes of its request and reports success", cl.name, x, n)
	}
	stall = false
	_, err = attempt(cl.name, func() (interface{}, error) { return cl.do(g.c) })
	if err != nil || len(g.reqs) != 1 || !bytes.Equal(g.reqs[0].raw, g.frame(g.reqs[0].tid, cl.unit, cl.req)) || len(full) != len(g.reqs[0].raw) {
		vrt.Fail("%s over %s after a call that could write only %d bytes: sent %s, result %v", cl.name, x, n, g.sent(), err)
	}
}

func regC13sends() {
	reg(Scenario{Prop: "C13", Name: "one-transmission", Desc: "every call on a fresh and a used client, answered correctly, by every exception code, wrongly, partly, late, not at all or by the end of the connection: one request is transmitted, and no other", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			cs := calls(17, 0)
			cs = append(cs, pduCalls(calls(17, 0)[:3])...)
			for i := range cs {
				cl := cs[i]
				q.Seq(fmt.Sprintf("%s %s", x, cl.name), func() {
					for _, k := range sendKinds() {
						for warm := 0; warm < q.N(2, 4); warm++ {
							oneSend(x, &cl, k, warm)
						}
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C13", Name: "stalled-writes", Desc: "the request can be written only up to each of its bytes, then time-out, reset, end or a port error: nothing of it is transmitted again, and the next call transmits the next request", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for k := 0; k < q.N(2, 3); k++ {
				cs := calls(17, k)
				cs = append(cs, pduCalls(calls(17, k)[:3])...)
				for i := range cs {
					cl := cs[i]
					q.Seq(fmt.Sprintf("%s %s/%d", x, cl.name, k), func() {
						n := len(newEnv(x).frame(1, cl.unit, cl.req))
						for a := 0; a < n; a++ {
							for how := 0; how < 3; how++ {
								if x == xTCP && a > 0 || x != xTCP && how == 0 {
									stalled(x, &cl, a, how)
								}
							}
						}
					})
				}
			}
		}
	}})
}

// ---- C17: every address, every quantity ----

func regC17args() {
	try := func(x xport, cl *call) {
		chunked(x, cl, nil, 0)
		n := len(newEnv(x).frame(1, cl.unit, cl.rsp))
		chunked(x, cl, []int{1}, 0)
		chunked(x, cl, []int{n - 1}, ms)
		for _, c := range []int{3, 4, 5, 8} {
			if c < n-1 {
				chunked(x, cl, []int{c}, ms)
			}
		}
		if n < 24 {
			var all []int
			for a := 1; a < n; a++ {
				all = append(all, a)
			}
			chunked(x, cl, all, ms/4)
		}
	}
	reg(Scenario{Prop: "C17", Name: "addresses", Desc: "every call at every high and every low address byte (thorough: every address), its correct reply whole and in pieces", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for i := range calls(17, 0) {
				i := i
				for lo := 0; lo < 65536; lo += 8192 {
					lo := lo
					q.Seq(fmt.Sprintf("%s %s from %d", x, calls(17, 0)[i].name, lo), func() {
						p := parsFor(0)
						for a := lo; a < lo+8192; a++ {
							h, l := a>>8, a&255
							if !q.Thorough && l != 0x22 && h != 0x33 && h != l {
								continue
							}
							p.a, p.v1, p.and, p.or = a, a^0x00ff, uint16(^a), uint16(a>>1)
							cl := callsWith(17, p)[i]
							if q.Thorough && l != 0x22 && h != 0x33 && h != l {
								chunked(x, &cl, nil, 0)
								continue
							}
							try(x, &cl)
						}
					})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C17", Name: "quantities", Desc: "every call with every legal quantity and several contents, its correct reply whole and in pieces", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for i := range calls(17, 0) {
				i := i
				q.Seq(fmt.Sprintf("%s %s", x, calls(17, 0)[i].name), func() {
					top := func(k, max int) int {
						if k > max {
							return 1 + (k-1)%max
						}
						return k
					}
					max := []int{2000, 2000, 2, 1968, 125, 125, 125, 125, 256, 123, 123, 125, 125, 256, 32}[i]
					for k := 1; k <= max; k++ {
						if !q.Thorough && max > 300 && k > 80 && k < max-80 && k%8 > 1 {
							continue
						}
						p := parsFor(0)
						p.nb, p.nwb, p.nr, p.nw, p.nw2, p.nf, p.pat = k, top(k, 1968), top(k, 125), top(k, 123), top(k, 121), (k-1)%32, k%9
						p.v1, p.and, p.or, p.on = k*257, uint16(k*255), uint16(k<<7), k%2 == 1
						cl := callsWith(17, p)[i]
						try(x, &cl)
					}
				})
			}
		}
	}})
	reg(Scenario{Prop: "C17", Name: "units", Desc: "every call to every unit id, its correct reply whole and in pieces", Gen: func(q *Q) {
		for _, x := range xports {
			x := x
			for i := range calls(17, 0) {
				i := i
				q.Seq(fmt.Sprintf("%s %s", x, calls(17, 0)[i].name), func() {
					for u := 1; u <= 247; u++ {
						cl := calls(byte(u), u%2)[i]
						try(x, &cl)
					}
				})
			}
		}
	}})
}

func init() {
	regC13sends()
	regC17args()
}
