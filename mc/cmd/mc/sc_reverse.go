package main

import (
	rtls "crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	rtime "time"

	"verifmc/modbus"
	vnet "verifmc/shim/net"
	"verifmc/vrt"
)

// C24, C25 and the addressing part of C26: the reverse server's life.

// rev observes one reverse server; mon is told everything that happens.
type rev struct {
	s        *modbus.TCPServerSpecial
	net      *vnet.Network
	m        *MNode
	r        *modbus.NodeRegister
	auto     bool
	peer     *vnet.TCPConn // peer of the newest connection
	dials    int
	accepted int // connect callbacks that returned nil
	refused  int
	calls    int // connect callbacks
	lost     int
	alive    []int64 // keep-alive calls
	inAlive  int     // the connection whose keep-alive call is under way
	lastDone int64   // when the last dial failed or callback was refused
	retry    bool    // that is what the next dial follows
	state    string  // down, dialling, connecting, serving, ended
	plan     func(n int) vnet.DialPlan
	onConn   func(n int) error
	onLost   func(n int)
	onAlive  func(n int)
	stopped  bool // nothing may happen any more
	closing  bool // close was called and no start since
	addr     string
	tls      bool
	credit   int
}

func newRev(auto bool, setup func(v *rev)) *rev {
	l := Layout{0, 4, 0, 4, 0, 4, 0, 4}
	v := &rev{auto: auto, net: vnet.NewNetwork(), m: newModel(17, l), r: newReal(17, l), state: "down", addr: "10.0.0.9:1502", tls: tm.TLS}
	fill(v.r, v.m, 3)
	s := modbus.NewTCPServerSpecial()
	v.s = s
	s.SetReadTimeout(tm.RRT).SetWriteTimeout(tm.RWT).SetConnectTimeout(tm.CT).SetReconnectInterval(tm.RI).EnableAutoReconnect(auto)
	s.AddNodes(v.r)
	v.net.OnDial = func(r *vnet.DialReq) vnet.DialPlan {
		if v.stopped {
			vrt.Fail("dials after it was closed for good")
		}
		if r.Addr != v.addr || r.TLS != v.tls || r.Network != "tcp" {
			vrt.Fail("dials %s %s (tls %v)", r.Network, r.Addr, r.TLS)
		}
		if k := v.net.OpenLib(); k > 0 {
			vrt.Fail("dials while %d of its connections are still open", k)
		}
		if v.inFlight() > 1 {
			vrt.Fail("dials twice at once")
		}
		switch {
		case v.state == "dialling" && v.credit > 0:
			v.credit = 0
		case v.state == "dialling": // the previous one failed
			if !v.auto {
				vrt.Fail("dials again after a failed dial without auto-reconnect")
			}
			if last := v.net.Dials[len(v.net.Dials)-2]; last.DoneAt+int64(tm.RI) > vrt.Now() {
				vrt.Fail("dials again %v after a failed dial, the interval is %v", rtime.Duration(vrt.Now()-last.DoneAt), tm.RI)
			}
		case v.state == "down":
		case v.state == "refused":
			if v.lastDone+int64(tm.RI) > vrt.Now() {
				vrt.Fail("dials again %v after a refused callback, the interval is %v", rtime.Duration(vrt.Now()-v.lastDone), tm.RI)
			}
		case v.state == "lost":
			if !v.auto && v.credit == 0 {
				vrt.Fail("dials again after a lost connection without auto-reconnect")
			}
			v.credit = 0
		default:
			vrt.Fail("dials in state %q", v.state)
		}
		if v.s.IsConnected() {
			vrt.Fail("reports connected while dialling")
		}
		v.state = "dialling"
		n := v.dials
		v.dials++
		pl := vnet.DialPlan{}
		if v.plan != nil {
			pl = v.plan(n)
		}
		in := pl.Setup
		pl.Setup = func(p *vnet.TCPConn) {
			v.peer = p
			v.state = "connecting"
			if in != nil {
				in(p)
			}
		}
		return pl
	}
	s.SetOnConnectHandler(func(c *modbus.TCPServerSpecial) error {
		if v.stopped {
			vrt.Fail("connect callback after it was closed for good")
		}
		if v.state != "connecting" || c != v.s {
			vrt.Fail("connect callback in state %q", v.state)
		}
		if k := v.net.OpenLib(); k > 1 || k == 0 && !v.closing { // close may have taken it away already
			vrt.Fail("connect callback with %d open connections", v.net.OpenLib())
		}
		n := v.calls
		v.calls++
		v.state = "callback"
		var err error
		if v.onConn != nil {
			err = v.onConn(n)
		}
		if err != nil {
			v.refused++
			v.state, v.lastDone = "refused", vrt.Now()
		} else {
			v.accepted++
			v.state = "serving"
		}
		return err
	})
	s.SetConnectionLostHandler(func(c *modbus.TCPServerSpecial) {
		if v.stopped {
			vrt.Fail("connection-lost callback after it was closed for good")
		}
		if v.state != "serving" || c != v.s {
			vrt.Fail("connection-lost callback in state %q", v.state)
		}
		v.state = "lost"
		n := v.lost
		v.lost++
		if v.onLost != nil {
			v.onLost(n)
		}
	})
	if setup != nil {
		setup(v)
	}
	addr := v.addr
	if v.tls {
		addr = "tls://" + addr
	}
	if err := s.AddRemoteServer(addr); err != nil {
		vrt.Fail("AddRemoteServer: %v", err)
	}
	return v
}

// inFlight counts dials whose outcome is not known yet.
func (v *rev) inFlight() int {
	k := 0
	for _, d := range v.net.Dials {
		if !d.Failed && d.Conn == nil {
			k++
		}
	}
	return k
}

func (v *rev) keepAlive(interval rtime.Duration) {
	v.s.SetKeepAlive(true, interval, func(c *modbus.TCPServerSpecial) {
		if v.stopped {
			vrt.Fail("keep-alive callback after it was closed for good")
		}
		if c != v.s {
			vrt.Fail("keep-alive callback with another server")
		}
		if k := len(v.net.Conns); k == 0 || v.net.Conns[k-1].Closed && v.net.Conns[k-1].ClosedAt < vrt.Now() || v.state == "callback" || v.state == "refused" {
			vrt.Fail("keep-alive callback without a connection (state %s)", v.state)
		}
		k := len(v.net.Conns)
		if v.inAlive == k {
			vrt.Fail("keep-alive callback while the previous one of this connection still runs")
		}
		v.inAlive = k
		defer func() {
			if v.inAlive == k {
				v.inAlive = 0
			}
		}()
		v.alive = append(v.alive, vrt.Now())
		if v.onAlive != nil {
			v.onAlive(len(v.alive))
		}
	})
}

func (v *rev) close() error {
	v.closing = true
	return v.s.Close()
}

func (v *rev) start() {
	v.closing = false
	if err := v.s.Start(); err != nil {
		vrt.Fail("Start: %v", err)
	}
}

// await blocks until p holds or d has passed.
func await(d rtime.Duration, p func() bool) bool {
	end := vrt.Now() + int64(d)
	vrt.Block(func() bool { return p() || vrt.Now() >= end }, func() int64 { return end })
	return p()
}

// serveOne checks that the connection is being served.
func (v *rev) serveOne(seed int) {
	p := pW1(6, 2, 0x100+seed)
	want := v.m.Exec(p)
	rp := ask(v.peer, fTCP(seed, 17, p))
	if string(rp) != string(fTCP(seed, 17, want)) {
		vrt.Fail("request [% x] on the reverse connection answered with [%s]", p, hexs(rp))
	}
	Checked()
	if !v.s.IsConnected() || v.s.IsClosed() {
		vrt.Fail("serving, but IsConnected()=%v IsClosed()=%v", v.s.IsConnected(), v.s.IsClosed())
	}
}

// finish closes the server and checks that it stops for good.
func (v *rev) finish() {
	_ = v.close()
	v.gone()
}

// gone: closed (or ended by itself) - after a bounded time nothing is left.
func (v *rev) gone() {
	if !await(slack(), func() bool { return v.net.OpenLib() == 0 && vrt.Live(true) == 0 }) {
		vrt.Fail("%v after close: %d connections open, goroutines %s", rtime.Duration(slack()), v.net.OpenLib(), vrt.LiveNames())
	}
	Checked()
	if !v.s.IsClosed() || v.s.IsConnected() {
		vrt.Fail("stopped, but IsClosed()=%v IsConnected()=%v", v.s.IsClosed(), v.s.IsConnected())
	}
	if v.lost != v.accepted {
		vrt.Fail("%d sessions were accepted but the connection-lost callback ran %d times", v.accepted, v.lost)
	}
	v.stopped = true
	vrt.Sleep(int64(300 * sec))
	v.stopped = false
	v.state = "down"
}

// ---- C24 ----

var dialKinds = []string{"refused", "accepted", "accepted late", "hanging"}
var sessKinds = []string{"served, FIN", "served, RST", "idle", "oversized frame", "FIN at once", "half a frame, FIN", "served slowly, half-closed", "the peer stops reading", "the peer stops reading, RST"}

func revPlan(k int) vnet.DialPlan {
	switch k {
	case 0:
		return vnet.DialPlan{Err: vnet.Refused()}
	case 2:
		return vnet.DialPlan{Delay: tm.CT / 2}
	case 3:
		return vnet.DialPlan{Delay: 5 * tm.CT}
	}
	return vnet.DialPlan{}
}

// session plays one session kind on the peer and waits for its end.
func (v *rev) session(kind int) {
	switch kind {
	case 0:
		v.serveOne(1)
		v.serveOne(2)
		_ = v.peer.Close()
	case 1:
		v.serveOne(3)
		v.peer.Abort()
	case 2:
	case 3:
		v.serveOne(4)
		_, _ = v.peer.Write([]byte{0, 1, 0, 0, 0xff, 0xff, 17, 3})
	case 4:
		_ = v.peer.Close()
	case 5:
		v.serveOne(5)
		_, _ = v.peer.Write(fTCP(9, 17, pW1(6, 1, 7))[:9])
		_ = v.peer.Close()
	case 6:
		v.serveOne(6)
		vrt.Sleep(int64(tm.RRT * 3 / 4))
		v.serveOne(7)
		_ = v.peer.CloseWrite()
	case 7, 8: // writing the reply times out, or fails
		v.serveOne(8)
		v.peer.Window = 5
		v.m.Exec(pW1(6, 1, 9))
		_, _ = v.peer.Write(fTCP(9, 17, pW1(6, 1, 9)))
		vrt.Settle()
		if kind == 8 {
			v.peer.Abort()
		}
	}
}

// revHistory explores every history of dials, callbacks and sessions; again
// adds further Start calls at every stage.
func revHistory(auto bool, depth int, again, exact bool) func() {
	return func() {
		log := fmt.Sprint("auto=", auto, ": ")
		restart := func(v *rev) {
			if again && vrt.Pick(2) == 1 {
				log += "Start "
				if !exact || v.s.IsClosed() {
					v.credit = 1 // a server that has ended starts again
				}
				v.start()
			}
		}
		v := newRev(auto, func(v *rev) {
			v.plan = func(n int) vnet.DialPlan {
				if n >= depth {
					return vnet.DialPlan{Err: vnet.Refused()}
				}
				k := vrt.Pick(len(dialKinds))
				log += dialKinds[k] + " "
				return revPlan(k)
			}
			v.onConn = func(n int) error {
				if vrt.Pick(2) == 1 {
					log += "callback-error "
					if n%2 == 1 {
						vrt.Sleep(int64(100 * ms))
					}
					return errors.New("not welcome")
				}
				if n%2 == 1 {
					vrt.Sleep(int64(50 * ms))
				}
				return nil
			}
		})
		if v.s.IsConnected() || !v.s.IsClosed() {
			vrt.Fail("fresh: IsConnected()=%v IsClosed()=%v", v.s.IsConnected(), v.s.IsClosed())
		}
		v.start()
		restart(v)
		seen, refused := 0, 0
		ended := false
		for !ended {
			// until something is accepted, refused, or the script is over
			ok := await(slack(), func() bool {
				return v.accepted > seen || v.dials > depth || v.refused > refused || vrt.Live(true) == 0
			})
			switch {
			case vrt.Live(true) == 0 && v.dials > 0 && v.accepted == seen:
				ended = true
			case v.dials > depth:
				ended = true
			case v.accepted > seen:
				seen++
				vrt.Settle()
				restart(v)
				k := vrt.Pick(len(sessKinds))
				log += sessKinds[k] + "; "
				v.session(k)
				if !await(slack(), func() bool { return v.lost == seen }) {
					vrt.Fail("%s: no connection-lost callback after the session ended", log)
				}
				vrt.Settle()
				restart(v)
			case v.refused > refused:
				refused = v.refused
				vrt.Settle()
				if v.net.OpenLib() != 0 {
					vrt.Sleep(int64(tm.RI / 4))
					if v.refused == refused && v.net.OpenLib() != 0 {
						vrt.Fail("%s: the connection the callback refused is still open", log)
					}
				}
				restart(v)
			case !ok:
				d := v.net.Dials
				if len(d) > 0 && d[len(d)-1].Failed && d[len(d)-1].DoneAt+int64(slack()) > vrt.Now() || v.inFlight() > 0 {
					continue
				}
				vrt.Fail("%s: nothing happens any more (state %s)", log, v.state)
			}
			Checked()
		}
		last := v.net.Dials[len(v.net.Dials)-1]
		if v.s.IsClosed() && auto {
			vrt.Fail("%s: stopped by itself although auto-reconnect is on", log)
		}
		if !auto {
			// a failed dial or a lost connection ends the server
			if v.accepted > 0 && !last.Failed || last.Failed {
				v.gone()
			}
			// and it can be started again
			vrt.Settle()
		}
		_ = v.close()
		v.gone()
		Outcome(log)
	}
}

// revStarts runs Start from several goroutines, with observers.
func revStarts(n int, obs int, auto bool) func() {
	return func() {
		v := newRev(auto, nil)
		var ths []*vrt.Thread
		for i := 0; i < n; i++ {
			ths = append(ths, vrt.GoNamed(fmt.Sprint("starter", i), v.start))
		}
		for i := 0; i < obs; i++ {
			ths = append(ths, vrt.GoNamed(fmt.Sprint("observer", i), func() {
				for k := 0; k < 2; k++ {
					if v.s.IsConnected() && v.s.IsClosed() {
						// two calls: the state may change in between
						_ = v.s.IsClosed()
					}
					_ = v.s.UnderlyingConn()
				}
			}))
		}
		for _, t := range ths {
			vrt.Join(t)
		}
		if !await(slack(), func() bool { return v.accepted == 1 }) {
			vrt.Fail("started, but no session")
		}
		vrt.Settle()
		if v.dials != 1 {
			vrt.Fail("%d starts dialled %d times", n, v.dials)
		}
		v.serveOne(1)
		if c := v.s.UnderlyingConn(); c == nil {
			vrt.Fail("no underlying connection while connected")
		}
		_ = v.peer.Close()
		if !await(slack(), func() bool { return v.lost == 1 }) {
			vrt.Fail("no connection-lost callback")
		}
		if auto {
			if !await(slack(), func() bool { return v.accepted == 2 }) {
				vrt.Fail("no reconnect")
			}
			vrt.Settle()
			v.serveOne(2)
		}
		v.finish()
		Outcome(v.dials, v.accepted, v.lost)
	}
}

func regC24() {
	reg(Scenario{Prop: "C24", Name: "histories", Desc: "every history of dial outcomes, connect-callback outcomes and session ends, with and without auto-reconnect", Gen: func(q *Q) {
		for _, auto := range []bool{true, false} {
			q.Case(Case{Name: fmt.Sprintf("auto=%v", auto), P: 0, BC: 1, Split: true, Body: revHistory(auto, q.N(3, 4), false, true)})
			q.Case(Case{Name: fmt.Sprintf("auto=%v with further starts", auto), P: 0, BC: 1, Split: true, Body: revHistory(auto, q.N(2, 3), true, true)})
		}
	}})
	reg(Scenario{Prop: "C24", Name: "histories-preempted", Desc: "the same with the run loop, the session and the peer interleaved", Gen: func(q *Q) {
		for _, auto := range []bool{true, false} {
			q.Case(Case{Name: fmt.Sprintf("auto=%v", auto), P: q.N(2, 3), Split: true, Body: revHistory(auto, 1, true, false)})
			q.Case(Case{Name: fmt.Sprintf("auto=%v depth 2", auto), P: q.N(1, 2), Split: true, Body: revHistory(auto, 2, false, false)})
		}
	}})
	reg(Scenario{Prop: "C24", Name: "concurrent-starts", Race: true, Desc: "start called from several goroutines while others observe", Gen: func(q *Q) {
		for _, auto := range []bool{true, false} {
			for n := 1; n <= 3; n++ {
				for o := 0; o <= 2; o++ {
					p := q.N(3, 4)
					if n+o > 3 {
						p--
					}
					if q.Race {
						p = 1
					}
					q.Case(Case{Name: fmt.Sprintf("auto=%v %d starts, %d observers", auto, n, o), P: p, BC: 1, Split: true, Body: revStarts(n, o, auto)})
				}
			}
		}
	}})
}

// ---- C25 ----

type revPhase struct {
	name  string
	setup func(v *rev)
	at    rtime.Duration // when close is called after start
	busy  bool           // a request is in flight or half sent
}

func revPhases() []revPhase {
	ok := func(v *rev) {}
	late := func(v *rev) { v.plan = func(n int) vnet.DialPlan { return vnet.DialPlan{Delay: tm.CT / 2} } }
	hang := func(v *rev) { v.plan = func(n int) vnet.DialPlan { return vnet.DialPlan{Delay: 9*tm.CT + 10*slack()} } }
	bad := func(v *rev) { v.plan = func(n int) vnet.DialPlan { return vnet.DialPlan{Err: vnet.Refused()} } }
	refuse := func(v *rev) { v.onConn = func(n int) error { return errors.New("no") } }
	slow := func(v *rev) { v.onConn = func(n int) error { vrt.Sleep(int64(100 * ms)); return nil } }
	gone := func(v *rev) {
		v.plan = func(n int) vnet.DialPlan {
			return vnet.DialPlan{Setup: func(p *vnet.TCPConn) {
				vrt.AddTimer(vrt.Now()+int64(50*ms), func() { p.Peer.InjectFIN(0) })
			}}
		}
	}
	lostSlow := func(v *rev) {
		gone(v)
		v.onLost = func(n int) { vrt.Sleep(int64(100 * ms)) }
	}
	busy := func(v *rev) {
		v.plan = func(n int) vnet.DialPlan {
			return vnet.DialPlan{Setup: func(p *vnet.TCPConn) {
				f := fTCP(5, 17, pRead(3, 0, 2))
				p.Peer.Inject(10*ms, f)
				p.Peer.Inject(20*ms, cat(f, f[:9]))
			}}
		}
	}
	return []revPhase{
		{"at once", ok, 0, false},
		{"at once, slow dial", late, 0, false},
		{"while dialling", late, tm.CT / 4, false},
		{"when the dial completes", late, tm.CT / 2, false},
		{"while a dial hangs", hang, tm.CT / 2, false},
		{"when a dial times out", hang, tm.CT, false},
		{"at once, refused dial", bad, 0, false},
		{"waiting to retry", bad, tm.RI / 2, false},
		{"when the retry is due", bad, tm.RI, false},
		{"later while waiting to retry", bad, tm.RI*3 + tm.RI/2, false},
		{"after a refused callback", refuse, tm.RI / 2, false},
		{"when the retry after a refused callback is due", refuse, tm.RI, false},
		{"in the connect callback", slow, 50 * ms, false},
		{"when the connect callback returns", slow, 100 * ms, false},
		{"serving, idle", ok, 500 * ms, false},
		{"serving, when the read times out", ok, tm.RRT, false},
		{"serving, with half a request", busy, 500 * ms, true},
		{"serving, when a request arrives", busy, 20 * ms, true},
		{"when the connection is lost", gone, 50 * ms, false},
		{"in the connection-lost callback", lostSlow, 100 * ms, false},
		{"after the connection was lost", gone, 300 * ms, false},
		{"some time into repeated losses", gone, 3100 * ms, false},
	}
}

// revClose closes the server at a phase from k goroutines.
func revClose(ph revPhase, auto, alive bool, closers int, restart bool) func() {
	return func() {
		v := newRev(auto, func(v *rev) {
			ph.setup(v)
			if alive {
				v.keepAlive(70 * ms)
			}
		})
		v.start()
		if ph.at > 0 {
			vrt.Sleep(int64(ph.at))
		}
		var ths []*vrt.Thread
		for i := 1; i < closers; i++ {
			ths = append(ths, vrt.GoNamed(fmt.Sprint("closer", i), func() { _ = v.close() }))
		}
		_ = v.close()
		for _, t := range ths {
			vrt.Join(t)
		}
		d, a := v.dials, v.accepted
		v.gone()
		if alive == false && len(v.alive) > 0 {
			vrt.Fail("keep-alive ran although it is not enabled")
		}
		Outcome(ph.name, d, v.dials-d, a, v.accepted-a, len(v.alive) > 0)
		if restart {
			v.plan, v.onConn, v.onLost = nil, nil, nil
			n := v.accepted
			v.start()
			if !await(slack(), func() bool { return v.accepted == n+1 }) {
				vrt.Fail("started again after close, but no session within %v", rtime.Duration(slack()))
			}
			vrt.Settle()
			v.serveOne(8)
			v.finish()
			if v.accepted != n+1 && !auto {
				vrt.Fail("%d sessions after the restart", v.accepted-n)
			}
		}
	}
}

// revReopen closes the server at a phase and starts it again the moment it
// reports that it is closed.
func revReopen(ph revPhase, auto, alive bool) func() {
	return func() {
		v := newRev(auto, func(v *rev) {
			ph.setup(v)
			if alive {
				v.keepAlive(70 * ms)
			}
		})
		v.start()
		if ph.at > 0 {
			vrt.Sleep(int64(ph.at))
		}
		_ = v.close()
		for end := vrt.Now() + int64(slack()); ; {
			vrt.Sleep(int64(ms))
			if v.s.IsClosed() {
				break
			}
			if vrt.Now() > end {
				vrt.Fail("not closed %v after close", rtime.Duration(slack()))
			}
		}
		if v.s.IsConnected() || v.net.OpenLib() > 0 || v.inFlight() > 0 {
			vrt.Fail("reports closed, but IsConnected()=%v with %d connections open and %d being dialled", v.s.IsConnected(), v.net.OpenLib(), v.inFlight())
		}
		if v.lost != v.accepted {
			vrt.Fail("reports closed after %d sessions and %d connection-lost callbacks", v.accepted, v.lost)
		}
		v.plan, v.onConn, v.onLost = nil, nil, nil
		v.state = "down"
		n := v.accepted
		v.start()
		for i := 0; ; i++ {
			if v.accepted > n {
				break
			}
			if v.s.IsClosed() || i > 5000 {
				vrt.Fail("started again after it reported closed, but no session (IsClosed()=%v)", v.s.IsClosed())
			}
			vrt.Sleep(int64(ms))
		}
		for i := 0; i < 6; i++ { // nothing of the earlier run may interfere
			vrt.Settle()
			v.serveOne(i)
			vrt.Sleep(int64(500 * ms))
		}
		v.serveOne(8)
		Outcome(ph.name, v.dials)
		v.finish()
		if v.accepted != n+1 {
			vrt.Fail("%d sessions after the restart", v.accepted-n)
		}
	}
}

// revCloseStart: close right after start, with start itself interleaved.
func revCloseStart(rounds int) func() {
	return func() {
		v := newRev(true, nil)
		for k := 0; k < rounds; k++ {
			v.start()
			_ = v.close()
			v.gone()
		}
		v.start()
		n := v.accepted
		if !await(slack(), func() bool { return v.accepted == n+1 }) {
			vrt.Fail("started again after close, but no session")
		}
		vrt.Settle()
		v.serveOne(1)
		v.finish()
	}
}

var revCalls = []string{"connect callback", "refusing connect callback", "connection-lost callback", "keep-alive callback", "second connection-lost callback"}

// revInside closes the server from within one of its own callbacks, each of
// which also asks for its state and starts it again first, which does nothing.
func revInside(where int, auto, alive, twice bool) func() {
	return func() {
		closed := false
		v := newRev(auto, func(v *rev) {
			look := func(name string, conn bool) {
				if v.closing {
					return
				}
				if v.s.IsClosed() || v.s.IsConnected() && !conn {
					vrt.Fail("in the %s IsClosed() is %v and IsConnected() is %v", name, v.s.IsClosed(), v.s.IsConnected())
				}
				if err := v.s.Start(); err != nil {
					vrt.Fail("Start in the %s: %v", name, err)
				}
				v.s.UnderlyingConn()
				Checked()
			}
			shut := func() {
				_ = v.close()
				if twice {
					_ = v.close()
				}
				closed = true
			}
			v.plan = func(n int) vnet.DialPlan {
				return vnet.DialPlan{Setup: func(p *vnet.TCPConn) {
					vrt.AddTimer(vrt.Now()+int64(200*ms), func() { p.Peer.InjectFIN(0) })
				}}
			}
			v.onConn = func(n int) error {
				look(revCalls[0], false)
				if where < 2 {
					shut()
				}
				if where == 1 {
					return errors.New("no")
				}
				return nil
			}
			v.onLost = func(n int) {
				look(revCalls[2], false)
				if where == 2 || where == 4 && n == 1 {
					shut()
				}
			}
			if alive {
				v.keepAlive(70 * ms)
				v.onAlive = func(n int) {
					look(revCalls[3], true)
					if where == 3 {
						shut()
					}
				}
			}
		})
		v.start()
		if !await(2*slack(), func() bool { return closed }) {
			if where == 4 && !auto {
				v.finish()
				return
			}
			vrt.Fail("close from the %s has not returned within %v", revCalls[where], rtime.Duration(2*slack()))
		}
		v.gone()
		Outcome(v.dials, v.accepted)
		v.plan, v.onConn, v.onLost, v.onAlive = nil, nil, nil, nil
		n := v.accepted
		v.start()
		if !await(slack(), func() bool { return v.accepted == n+1 }) {
			vrt.Fail("started again after close, but no session within %v", rtime.Duration(slack()))
		}
		vrt.Settle()
		v.serveOne(8)
		v.finish()
	}
}

// revAlive checks the keep-alive schedule over two connections.
func revAlive(iv, hold rtime.Duration, enabled bool, slowLost, slowAlive rtime.Duration) func() {
	return func() {
		v := newRev(true, func(v *rev) {
			if enabled {
				v.keepAlive(iv)
			} else if iv > 0 {
				v.s.SetKeepAlive(false, iv, func(*modbus.TCPServerSpecial) { vrt.Fail("keep-alive ran although it is not enabled") })
			}
			v.onLost = func(n int) {
				if slowLost > 0 {
					vrt.Sleep(int64(slowLost))
				}
			}
			v.onAlive = func(n int) {
				if slowAlive > 0 {
					vrt.Sleep(int64(slowAlive))
				}
			}
		})
		v.start()
		for round := 0; round < 3; round++ {
			vrt.Tick()
			if !await(slack()+slowLost, func() bool { return v.accepted == round+1 }) {
				vrt.Fail("no connection %d", round)
			}
			vrt.Settle()
			from := vrt.Now()
			v.alive = nil
			v.serveOne(round)
			for t := rtime.Duration(0); t < hold; t += tm.RRT / 2 {
				d := tm.RRT / 2
				if hold-t < d {
					d = hold - t
				}
				vrt.Sleep(int64(d))
				v.serveOne(round)
			}
			got := v.alive
			_ = v.peer.Close()
			vrt.Settle()
			want := 0
			if enabled {
				want = int(hold / iv)
			}
			Checked()
			if slowAlive == 0 {
				if len(got) < want-1 || len(got) > want+1 || want >= 1 && hold%iv > iv/4 && len(got) < 1 {
					vrt.Fail("connected for %v with keep-alive every %v: %d keep-alives", hold, iv, len(got))
				}
				last := from
				for _, t := range got {
					if g := rtime.Duration(t - last); g < iv*3/4 || g > iv*5/4 {
						vrt.Fail("keep-alive after %v, the interval is %v", g, iv)
					}
					last = t
				}
			} else if enabled && want > 1 && len(got) == 0 {
				vrt.Fail("no keep-alive in %v", hold)
			}
			Outcome(len(got))
		}
		v.finish()
	}
}

func regC25() {
	reg(Scenario{Prop: "C25", Name: "close-anywhere", Race: true, Desc: "close at every phase of the connection, interleaved with the run loop", Gen: func(q *Q) {
		for _, ph := range revPhases() {
			for _, auto := range []bool{true, false} {
				for _, alive := range []bool{false, true} {
					for _, closers := range []int{1, 2} {
						p := q.N(3, 5)
						if closers > 1 {
							p = q.N(2, 3)
						}
						if q.Race {
							p = 1
							if closers > 1 || !alive {
								continue
							}
						}
						q.Case(Case{Name: fmt.Sprintf("%s auto=%v alive=%v closers=%d", ph.name, auto, alive, closers), P: p, BC: 1, Split: true, Body: revClose(ph, auto, alive, closers, true)})
					}
				}
			}
		}
	}})
	reg(Scenario{Prop: "C25", Name: "close-inside", Race: true, Desc: "close from within each callback, which also asks for the state and starts the running server again", Gen: func(q *Q) {
		for where := range revCalls {
			for _, auto := range []bool{true, false} {
				for _, alive := range []bool{true, false} {
					for _, twice := range []bool{false, true} {
						if where == 3 && !alive || q.Race && (twice || !alive) {
							continue
						}
						q.Case(Case{Name: fmt.Sprintf("%s auto=%v alive=%v twice=%v", revCalls[where], auto, alive, twice), P: q.N(2, 3) - b2i(q.Race), BC: 1, Split: true, Body: revInside(where, auto, alive, twice)})
					}
				}
			}
		}
	}})
	reg(Scenario{Prop: "C25", Name: "reopen", Desc: "close at every phase of the connection, started again as soon as it reports closed", Gen: func(q *Q) {
		for _, ph := range revPhases() {
			for _, auto := range []bool{true, false} {
				for _, alive := range []bool{false, true} {
					q.Case(Case{Name: fmt.Sprintf("%s auto=%v alive=%v", ph.name, auto, alive), P: q.N(2, 4), BC: 1, Split: true, Body: revReopen(ph, auto, alive)})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C25", Name: "start-close", Race: true, Desc: "close directly after start, once and repeatedly", Gen: func(q *Q) {
		for k := 1; k <= 3; k++ {
			p := q.N(3, 4)
			if k > 1 || q.Race {
				p = q.N(1, 2)
			}
			q.Case(Case{Name: fmt.Sprint(k, " rounds"), P: p, Split: true, Body: revCloseStart(k)})
		}
	}})
	reg(Scenario{Prop: "C25", Name: "close-times", Desc: "close at every 10 ms (thorough: 1 ms) of the first seconds of every kind of connection life", Gen: func(q *Q) {
		for _, ph := range revPhases() {
			for _, auto := range []bool{true, false} {
				for _, alive := range []bool{true, false} {
					ph, auto, alive := ph, auto, alive
					q.Case(Case{Name: fmt.Sprintf("%s auto=%v alive=%v", ph.name, auto, alive), BC: 1, Split: true, Body: func() {
						p := ph
						p.at = rtime.Duration(vrt.Pick(q.N(400, 4000))*q.N(10, 1)) * ms
						revClose(p, auto, alive, 1, false)()
					}})
				}
			}
		}
	}})
	reg(Scenario{Prop: "C25", Name: "keep-alive-schedule", Desc: "keep-alive on and off, every interval, connections held for every length", Gen: func(q *Q) {
		for _, iv := range []rtime.Duration{10 * ms, 100 * ms, 333 * ms, sec, 1500 * ms} {
			for _, hold := range []rtime.Duration{5 * ms, 50 * ms, 250 * ms, sec + 50*ms, 2*sec + 70*ms, 5*sec + 30*ms} {
				for _, on := range []bool{true, false} {
					for _, sl := range []rtime.Duration{0, 400 * ms, 4 * sec} {
						for _, sa := range []rtime.Duration{0, 5 * ms, 700 * ms} {
							if sa > 0 && !on {
								continue
							}
							q.Case(Case{Name: fmt.Sprintf("every %v, connected for %v, on=%v, lost callback %v, alive callback %v", iv, hold, on, sl, sa), P: 0, BC: 1, Split: false, Body: revAlive(iv, hold, on, sl, sa)})
						}
					}
				}
			}
		}
	}})
}

// ---- C26: where it connects ----

type remote struct {
	in   string
	addr string // "" : nowhere
	tls  bool
}

func regC26addr() {
	var rs []remote
	hosts := []string{"10.1.2.3:1502", "example.org:502", "localhost:65535", "[::1]:502", "[fe80::1]:1502", "a-b.example.org:1", "UPPER.example.org:502"}
	for _, h := range hosts {
		rs = append(rs, remote{h, h, false}, remote{"tcp://" + h, h, false})
		for _, s := range []string{"ssl", "tls", "tcps"} {
			rs = append(rs, remote{s + "://" + h, h, true})
		}
		for _, s := range []string{"udp", "http", "https", "ws", "tcp4", "tcpss", "unix", "mqtt", "tls13", "s", "x"} {
			rs = append(rs, remote{s + "://" + h, "", false})
		}
	}
	rs = append(rs, remote{":1502", "127.0.0.1:1502", false}, remote{":502", "127.0.0.1:502", false}, remote{":65535", "127.0.0.1:65535", false},
		remote{"", "", false}, remote{"udp://", "", false}, remote{"tcp://", "", false}, remote{"tls://", "", false}, remote{"://", "", false}, remote{"://10.0.0.1:502", "", false})
	for _, p := range []string{"tls://h.example:802/path", "ssl://user:pw@h.example:802", "tcps://h.example:802?x=1"} {
		rs = append(rs, remote{p, "h.example:802", true})
	}
	cfgs := func() []*rtls.Config {
		return []*rtls.Config{nil,
			{ServerName: "plc.example", MinVersion: rtls.VersionTLS12},
			{InsecureSkipVerify: true, RootCAs: x509.NewCertPool(), ClientAuth: rtls.RequireAnyClientCert, Certificates: []rtls.Certificate{{Certificate: [][]byte{{1, 2, 3}}}}},
		}
	}
	reg(Scenario{Prop: "C26", Name: "remote-addresses", Desc: "every form of remote address and scheme with every TLS setting, over two connections", Gen: func(q *Q) {
		for _, r := range rs {
			r := r
			q.Seq(r.in, func() {
				for ci, cfg := range cfgs() {
					for _, later := range []bool{false, true} {
						vrt.Tick()
						n := vnet.NewNetwork()
						var peer *vnet.TCPConn
						n.OnDial = func(d *vnet.DialReq) vnet.DialPlan {
							if len(n.Dials) > 4 {
								return vnet.DialPlan{Err: vnet.Refused()}
							}
							return vnet.DialPlan{Setup: func(p *vnet.TCPConn) { peer = p }}
						}
						s := modbus.NewTCPServerSpecial().SetReconnectInterval(tm.RI).SetReadTimeout(tm.RRT).SetConnectTimeout(tm.CT)
						l := Layout{0, 4, 0, 4, 0, 4, 0, 4}
						s.AddNodes(newReal(17, l))
						if later {
							_ = s.AddRemoteServer("tcp://192.0.2.1:1")
						}
						if !later && cfg != nil {
							s.SetTLSConfig(cfg)
						}
						err := s.AddRemoteServer(r.in)
						if later && cfg != nil {
							s.SetTLSConfig(cfg)
						}
						if err != nil && r.addr != "" {
							vrt.Fail("AddRemoteServer(%q): %v", r.in, err)
						}
						if err != nil && later {
							continue // the earlier address stays
						}
						if e := s.Start(); e != nil && r.addr != "" {
							vrt.Fail("Start with remote %q: %v", r.in, e)
						}
						for k := 0; k < 2; k++ {
							await(3*sec, func() bool { return peer != nil })
							vrt.Settle()
							Checked()
							if r.addr == "" {
								for _, d := range n.Dials {
									if d.Conn != nil {
										vrt.Fail("remote %q: connects to %s %q", r.in, d.Network, d.Addr)
									}
								}
								continue
							}
							if peer == nil {
								vrt.Fail("remote %q: no connection", r.in)
							}
							c := peer.Peer
							if c.Target != r.addr || c.TLS != r.tls {
								vrt.Fail("remote %q: connects to %q, tls %v; want %q, tls %v", r.in, c.Target, c.TLS, r.addr, r.tls)
							}
							if r.tls {
								got, _ := c.TLSCfg.(*rtls.Config)
								if bad := tlsDiff(got, cfg); bad != "" {
									vrt.Fail("remote %q, TLS settings %d: %s", r.in, ci, bad)
								}
							}
							f := fTCP(7, 17, pW1(6, 1, 5))
							if rp := ask(peer, f); string(rp) != string(f) {
								vrt.Fail("remote %q: request answered with [%s]", r.in, hexs(rp))
							}
							p := peer
							peer = nil
							_ = p.Close()
						}
						_ = s.Close()
						if peer != nil {
							_ = peer.Close()
						}
						if !await(slack(), func() bool { return n.OpenLib() == 0 && vrt.Live(true) == 0 }) {
							vrt.Fail("remote %q: does not stop", r.in)
						}
					}
				}
			})
		}
	}})
	reg(Scenario{Prop: "C26", Name: "no-remote", Desc: "started without a remote address", Gen: func(q *Q) {
		q.Seq("never set", func() {
			n := vnet.NewNetwork()
			n.OnDial = func(d *vnet.DialReq) vnet.DialPlan {
				vrt.Fail("dials %q without a remote address", d.Addr)
				return vnet.DialPlan{}
			}
			s := modbus.NewTCPServerSpecial()
			if err := s.Start(); err == nil {
				vrt.Fail("Start reports success without a remote address")
			}
			Checked()
			vrt.Sleep(int64(100 * sec))
			_ = s.Close()
		})
	}})
}

func tlsDiff(got, want *rtls.Config) string {
	if want == nil {
		if got != nil && (got.InsecureSkipVerify || got.RootCAs != nil || len(got.Certificates) > 0) {
			return "TLS settings from nowhere"
		}
		return ""
	}
	switch {
	case got == nil:
		return "the TLS settings are not used"
	case got == want:
	case got.ServerName != want.ServerName && want.ServerName != "", got.InsecureSkipVerify != want.InsecureSkipVerify, got.MinVersion != want.MinVersion,
		got.RootCAs != want.RootCAs, got.ClientAuth != want.ClientAuth, len(got.Certificates) != len(want.Certificates):
		return "other TLS settings are used"
	}
	return ""
}

func init() {
	regC24()
	regC25()
	regC26addr()
}
