package vrt

import "unsafe"

// Channels of the code under test keep their Go types and identities, but their
// contents live here.

type waiter struct {
	sel *selState
	idx int
	val interface{}
	ok  bool
}

// selState is a parked operation.  tok carries the clock the thread parked
// with, woke the clock of the operation that completed it, slot the buffer
// slot it went through (race builds).
type selState struct {
	done bool
	idx  int
	val  interface{}
	ok   bool
	shut bool
	tok  uint64
	woke uint64
	slot *slot
}

// slot is the happens-before token of one place in a channel's buffer, used by
// every send and receive that goes through the place, as in the Go runtime.
type slot struct {
	tok  uint64
	pend *uint64 // clock of a parked operation that went through the place
}

func (s *slot) notify() {
	if s.pend != nil {
		RaceAcquire(unsafe.Pointer(s.pend))
		s.pend = nil
	}
	RaceAcquire(unsafe.Pointer(&s.tok))
	RaceRelease(unsafe.Pointer(&s.tok))
}

// park announces the clock of an operation about to block.
func (s *selState) park() { RaceRelease(unsafe.Pointer(&s.tok)) }

// wake is called by a parked thread after its operation was completed.
func (s *selState) wake() {
	RaceAcquire(unsafe.Pointer(&s.woke))
	if s.slot != nil {
		s.slot.notify()
	}
}

type vchan struct {
	key    unsafe.Pointer
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	obj    Obj
	shut   uint64
	slots  []slot
	sx, rx int
}

// place is the buffer place number n goes through.
func (c *vchan) place(n int) *slot { return &c.slots[n%c.cap] }

// handOver completes the parked operation w of the other side.
func (c *vchan) handOver(w *waiter) {
	RaceAcquire(unsafe.Pointer(&w.sel.tok))
	RaceRelease(unsafe.Pointer(&w.sel.woke))
	w.sel.done, w.sel.idx = true, w.idx
}

func keyOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func lookup(k unsafe.Pointer, cp int) *vchan {
	if k == nil {
		return nil
	}
	for i := len(x.chans) - 1; i >= 0; i-- {
		if x.chans[i].key == k {
			return x.chans[i]
		}
	}
	c := &vchan{key: k, cap: cp, slots: make([]slot, cp)}
	x.chans = append(x.chans, c)
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (c *vchan) hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (c *vchan) canRecv() bool {
	return len(c.buf) > 0 || c.closed || c.hasWaiter(c.sendq)
}

func (c *vchan) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.hasWaiter(c.recvq)
}

func (c *vchan) doRecv() (interface{}, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		p := c.place(c.rx)
		c.rx++
		p.notify()
		c.buf[0] = nil
		c.buf = c.buf[1:] // no copying: the runtime would report it as the program's
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			c.sx++
			p.pend = &w.sel.tok
			w.sel.done, w.sel.idx, w.sel.slot = true, w.idx, p
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		c.handOver(w)
		return w.val, true
	}
	RaceAcquire(unsafe.Pointer(&c.shut))
	return nil, false
}

func (c *vchan) doSend(v interface{}) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	w := popWaiter(&c.recvq)
	if c.cap == 0 {
		w.sel.val, w.sel.ok = v, true
		c.handOver(w)
		return
	}
	p := c.place(c.sx)
	c.sx++
	p.notify()
	if w != nil { // straight through the empty buffer
		c.rx++
		p.pend = &w.sel.tok
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok, w.sel.slot = true, w.idx, v, true, p
		return
	}
	c.buf = append(c.buf, v)
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func (c *vchan) doClose() {
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	RaceRelease(unsafe.Pointer(&c.shut))
	c.closed = true
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		RaceRelease(unsafe.Pointer(&w.sel.woke))
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, nil, false
	}
	for w := popWaiter(&c.sendq); w != nil; w = popWaiter(&c.sendq) {
		RaceRelease(unsafe.Pointer(&w.sel.woke))
		w.sel.done, w.sel.idx, w.sel.shut = true, w.idx, true
	}
}

func conv[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(box[T]).v
}

type box[T any] struct{ v T }

func recv(k unsafe.Pointer, cp int) (interface{}, bool) {
	if x == nil {
		panic("vrt: channel operation outside an execution")
	}
	if x.cur.killed {
		x.exitKilled()
	}
	c := lookup(k, cp)
	if c == nil {
		Block(func() bool { return false }, nil)
	}
	Point(&c.obj, "recv")
	if c.canRecv() {
		return c.doRecv()
	}
	s := &selState{}
	c.recvq = append(c.recvq, &waiter{sel: s})
	s.park()
	Block(func() bool { return s.done }, nil)
	s.wake()
	Touch(&c.obj, "recvd")
	return s.val, s.ok
}

func send(k unsafe.Pointer, cp int, v interface{}) {
	if x == nil {
		panic("vrt: channel operation outside an execution")
	}
	if x.cur.killed {
		return
	}
	c := lookup(k, cp)
	if c == nil {
		Block(func() bool { return false }, nil)
	}
	Point(&c.obj, "send")
	if c.canSend() {
		c.doSend(v)
		Point(&c.obj, "sent")
		return
	}
	s := &selState{}
	c.sendq = append(c.sendq, &waiter{sel: s, val: v})
	s.park()
	Block(func() bool { return s.done }, nil)
	s.wake()
	Touch(&c.obj, "sent")
	if s.shut {
		panic(plainError("send on closed channel"))
	}
}

func closeCh(k unsafe.Pointer, cp int) {
	if x == nil {
		panic("vrt: channel operation outside an execution")
	}
	if x.cur.killed {
		return
	}
	c := lookup(k, cp)
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	Point(&c.obj, "close")
	c.doClose()
	Point(&c.obj, "closed")
}

// TimerSend is a non-blocking send used by timers (no scheduling point).
func TimerSend[T any](ch chan T, v T) {
	c := lookup(keyOf(ch), cap(ch))
	if !c.closed && c.canSend() {
		w := popWaiter(&c.recvq)
		if c.cap > 0 {
			c.sx++
		}
		if w != nil {
			if c.cap > 0 {
				c.rx++
			}
			w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, box[T]{v}, true
			return
		}
		c.buf = append(c.buf, box[T]{v})
	}
}

// Drain empties a channel's buffer (timer Stop/Reset).
func Drain[T any](ch chan T) {
	if x == nil {
		return
	}
	c := lookup(keyOf(ch), cap(ch))
	c.rx += len(c.buf)
	c.buf = nil
}

// CloseNow closes a channel without a scheduling point (context cancellation
// from timers).
func CloseNow[T any](ch chan T) {
	if x == nil {
		return
	}
	if c := lookup(keyOf(ch), cap(ch)); !c.closed {
		c.doClose()
	}
}

// Closed reports whether the channel was closed.
func Closed[T any](ch chan T) bool {
	if x == nil {
		return false
	}
	return lookup(keyOf(ch), cap(ch)).closed
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recv(keyOf(ch), cap(ch))
	return conv[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recv(keyOf(ch), cap(ch))
	return conv[T](v), ok
}

// Send is ch <- v, curried so that v is converted to the element type.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { send(keyOf(ch), cap(ch), box[T]{v}) }
}

// Close is close(ch).
func Close[T any](ch chan<- T) { closeCh(keyOf(ch), cap(ch)) }

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if x == nil || ch == nil {
		return 0
	}
	return len(lookup(keyOf(ch), cap(ch)).buf)
}

// SelCase is one case of a select.
type SelCase interface {
	base() *caseBase
}

type caseBase struct {
	k    unsafe.Pointer
	cp   int
	send bool
	val  interface{}
	got  interface{}
	ok   bool
}

func (c *caseBase) base() *caseBase { return c }

// RecvC is a receive case.
type RecvC[T any] struct{ caseBase }

// Val is the received value.
func (c *RecvC[T]) Val() T { return conv[T](c.got) }

// Ok is false if the channel was closed.
func (c *RecvC[T]) Ok() bool { return c.ok }

// RecvCase is "case <-ch".
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{caseBase{k: keyOf(ch), cp: cap(ch)}}
}

// SendCase is "case ch <- v".
func SendCase[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		return &RecvC[T]{caseBase{k: keyOf(ch), cp: cap(ch), send: true, val: box[T]{v}}}
	}
}

// Select performs the select and returns the index of the chosen case, or -1.
func Select(hasDefault bool, cases ...SelCase) int {
	if x == nil {
		panic("vrt: select outside an execution")
	}
	if x.cur.killed {
		if hasDefault {
			return -1
		}
		x.exitKilled()
	}
	cs := make([]*vchan, len(cases))
	var po *Obj
	for i, c := range cases {
		b := c.base()
		cs[i] = lookup(b.k, b.cp)
		if cs[i] != nil && po == nil {
			po = &cs[i].obj
		}
	}
	Point(po, "select")
	for i := range cs {
		if cs[i] != nil && &cs[i].obj != po {
			Touch(&cs[i].obj, "select")
		}
	}
	var ready []int
	for i, c := range cs {
		if c == nil {
			continue
		}
		if cases[i].base().send && c.canSend() || !cases[i].base().send && c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = pickReady(len(ready))
		}
		i := ready[k]
		b := cases[i].base()
		if b.send {
			cs[i].doSend(b.val)
			Point(&cs[i].obj, "sent")
		} else {
			b.got, b.ok = cs[i].doRecv()
		}
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selState{}
	for i, c := range cs {
		if c == nil {
			continue
		}
		w := &waiter{sel: s, idx: i, val: cases[i].base().val}
		if cases[i].base().send {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	s.park()
	Block(func() bool { return s.done }, nil)
	s.wake()
	b := cases[s.idx].base()
	c := cs[s.idx]
	Touch(&c.obj, "selected")
	if b.send {
		if s.shut {
			panic(plainError("send on closed channel"))
		}
	} else {
		b.got, b.ok = s.val, s.ok
	}
	return s.idx
}
