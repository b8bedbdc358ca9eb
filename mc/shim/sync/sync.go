// Package sync mirrors the standard package on the virtual runtime.
package sync

import (
	"unsafe"

	rsync "sync"
	"verifmc/vrt"
)

type Locker = rsync.Locker

// use tells the race detector that the object's memory is accessed: replacing
// or copying it with a plain assignment is then seen to conflict.
func use(p *uint64) { vrt.RaceReadAddr(unsafe.Pointer(p)) }

// Mutex is a virtual mutex.
type Mutex struct {
	ep     uint64
	locked bool
	obj    vrt.Obj
	tok    uint64
}

func (m *Mutex) fresh() {
	// a lock in a package variable must not stay held by a torn-down execution
	if id := vrt.ExecID(); m.ep != id {
		m.ep, m.locked = id, false
	}
}

func (m *Mutex) Lock() {
	if !vrt.Active() {
		m.fresh()
		if m.locked {
			panic("deadlock outside execution")
		}
		m.locked = true
		return
	}
	if vrt.Dead() {
		return
	}
	m.fresh()
	vrt.Point(&m.obj, "lock")
	use(&m.tok)
	vrt.Block(func() bool { return !m.locked }, nil)
	m.locked = true
	vrt.Touch(&m.obj, "locked")
	vrt.RaceAcquire(unsafe.Pointer(&m.tok))
}

func (m *Mutex) TryLock() bool {
	if !vrt.Active() {
		m.fresh()
		if m.locked {
			return false
		}
		m.locked = true
		return true
	}
	if vrt.Dead() {
		return true
	}
	m.fresh()
	vrt.Point(&m.obj, "trylock")
	use(&m.tok)
	if m.locked {
		return false
	}
	m.locked = true
	vrt.RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

func (m *Mutex) Unlock() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	m.fresh()
	if !m.locked {
		vrt.Fatal("sync: unlock of unlocked mutex")
		return
	}
	use(&m.tok)
	vrt.RaceRelease(unsafe.Pointer(&m.tok))
	m.locked = false
	vrt.Point(&m.obj, "unlock")
}

// RWMutex has the writer preference and hand-over rules of the original.
type RWMutex struct {
	ep      uint64
	wheld   bool // a writer owns the inner mutex
	announc bool // it has announced itself: new readers wait
	w       bool
	r       int
	waiting []*bool
	obj     vrt.Obj
	tokW    uint64
	tokR    uint64
}

func (m *RWMutex) fresh() {
	if id := vrt.ExecID(); m.ep != id {
		m.ep, m.wheld, m.announc, m.w, m.r, m.waiting = id, false, false, false, 0, nil
	}
}

func (m *RWMutex) Lock() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	m.fresh()
	vrt.Point(&m.obj, "lock")
	use(&m.tokW)
	vrt.Block(func() bool { return !m.wheld }, nil)
	m.wheld, m.announc = true, true
	vrt.Touch(&m.obj, "announce")
	if m.r != 0 {
		vrt.Block(func() bool { return m.r == 0 }, nil)
	}
	m.w = true
	vrt.Touch(&m.obj, "locked")
	vrt.RaceAcquire(unsafe.Pointer(&m.tokW))
	vrt.RaceAcquire(unsafe.Pointer(&m.tokR))
}

func (m *RWMutex) TryLock() bool {
	if vrt.Active() && vrt.Dead() {
		return true
	}
	m.fresh()
	vrt.Point(&m.obj, "trylock")
	use(&m.tokW)
	if m.wheld || m.r != 0 {
		return false
	}
	m.wheld, m.announc, m.w = true, true, true
	vrt.RaceAcquire(unsafe.Pointer(&m.tokW))
	vrt.RaceAcquire(unsafe.Pointer(&m.tokR))
	return true
}

func (m *RWMutex) Unlock() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	m.fresh()
	if !m.w {
		vrt.Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	use(&m.tokW)
	vrt.RaceRelease(unsafe.Pointer(&m.tokW))
	m.w, m.announc = false, false
	for _, g := range m.waiting {
		*g = true
		m.r++
	}
	m.waiting = nil
	m.wheld = false
	vrt.Point(&m.obj, "unlock")
}

func (m *RWMutex) RLock() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	m.fresh()
	vrt.Point(&m.obj, "rlock")
	use(&m.tokW)
	if !m.announc {
		m.r++
	} else {
		g := new(bool)
		m.waiting = append(m.waiting, g)
		vrt.Block(func() bool { return *g }, nil)
	}
	vrt.Touch(&m.obj, "rlocked")
	vrt.RaceAcquire(unsafe.Pointer(&m.tokW))
}

func (m *RWMutex) TryRLock() bool {
	if vrt.Active() && vrt.Dead() {
		return true
	}
	m.fresh()
	vrt.Point(&m.obj, "tryrlock")
	use(&m.tokW)
	if m.announc {
		return false
	}
	m.r++
	vrt.RaceAcquire(unsafe.Pointer(&m.tokW))
	return true
}

func (m *RWMutex) RUnlock() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	m.fresh()
	if m.r <= 0 {
		vrt.Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	use(&m.tokW)
	vrt.RaceReleaseMerge(unsafe.Pointer(&m.tokR))
	m.r--
	vrt.Point(&m.obj, "runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a virtual wait group.
type WaitGroup struct {
	ep  uint64
	n   int
	wtr int
	obj vrt.Obj
	tok uint64
	sem uint64
}

func (w *WaitGroup) fresh() {
	if id := vrt.ExecID(); w.ep != id {
		w.ep, w.n, w.wtr = id, 0, 0
	}
}

func (w *WaitGroup) Add(d int) {
	if vrt.Active() && vrt.Dead() {
		return
	}
	w.fresh()
	vrt.Point(&w.obj, "wg.add")
	use(&w.tok)
	if d < 0 {
		vrt.RaceReleaseMerge(unsafe.Pointer(&w.tok))
	}
	if d > 0 && w.n == 0 {
		// the first increment must be ordered before Wait, as in the original
		vrt.RaceReadAddr(unsafe.Pointer(&w.sem))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vrt.Point(&w.obj, "wg.added")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	w.fresh()
	vrt.Point(&w.obj, "wg.wait")
	use(&w.tok)
	if w.n > 0 {
		if w.wtr == 0 {
			vrt.RaceWriteAddr(unsafe.Pointer(&w.sem))
		}
		w.wtr++
		vrt.Block(func() bool { return w.n == 0 }, nil)
		w.wtr--
	}
	vrt.Touch(&w.obj, "wg.waited")
	vrt.RaceAcquire(unsafe.Pointer(&w.tok))
}

// Once runs a function once; concurrent callers wait for it.
type Once struct {
	m    Mutex
	done bool
	ep   uint64
	tok  uint64
}

func (o *Once) Do(f func()) {
	if vrt.Active() && vrt.Dead() {
		return
	}
	vrt.Point(&o.m.obj, "once")
	use(&o.tok)
	if o.done {
		vrt.RaceAcquire(unsafe.Pointer(&o.tok))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			vrt.RaceRelease(unsafe.Pointer(&o.tok))
			vrt.Point(&o.m.obj, "once.done")
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a virtual condition variable.
type Cond struct {
	L   Locker
	q   []*bool
	obj vrt.Obj
	tok uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vrt.Active() && vrt.Dead() {
		vrt.Block(func() bool { return false }, nil)
		return
	}
	g := new(bool)
	c.q = append(c.q, g)
	c.L.Unlock()
	vrt.Block(func() bool { return *g }, nil)
	vrt.RaceAcquire(unsafe.Pointer(&c.tok))
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	vrt.Point(&c.obj, "signal")
	use(&c.tok)
	vrt.RaceReleaseMerge(unsafe.Pointer(&c.tok))
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	vrt.Point(&c.obj, "signalled")
}

func (c *Cond) Broadcast() {
	if vrt.Active() && vrt.Dead() {
		return
	}
	vrt.Point(&c.obj, "broadcast")
	use(&c.tok)
	vrt.RaceReleaseMerge(unsafe.Pointer(&c.tok))
	for _, g := range c.q {
		*g = true
	}
	c.q = nil
	vrt.Point(&c.obj, "broadcasted")
}

// Pool recycles last-in first-out, the order that exposes early reuse.
type Pool struct {
	New   func() any
	ep    uint64
	items []any
	obj   vrt.Obj
	tok   uint64
}

func (p *Pool) fresh() {
	if id := vrt.ExecID(); p.ep != id {
		p.ep, p.items = id, nil
	}
}

func (p *Pool) Get() any {
	if vrt.Active() && vrt.Dead() {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	p.fresh()
	vrt.Point(&p.obj, "pool.get")
	use(&p.tok)
	vrt.RaceAcquire(unsafe.Pointer(&p.tok))
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[: n-1 : n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || vrt.Active() && vrt.Dead() {
		return
	}
	p.fresh()
	vrt.Point(&p.obj, "pool.put")
	use(&p.tok)
	vrt.RaceReleaseMerge(unsafe.Pointer(&p.tok))
	p.items = append(p.items, v)
	vrt.Point(&p.obj, "pool.putted")
}

type mapEnt struct {
	k, v any
	live bool
}

// Map keeps its entries in insertion order.
type Map struct {
	ents []*mapEnt
	obj  vrt.Obj
	tok  uint64
}

func hashable(k any) {
	_ = k == k //nolint
}

func (m *Map) find(k any) *mapEnt {
	hashable(k)
	for _, e := range m.ents {
		if e.live && e.k == k {
			return e
		}
	}
	return nil
}

func (m *Map) begin(kind string) bool {
	if vrt.Active() && vrt.Dead() {
		return false
	}
	vrt.Point(&m.obj, kind)
	use(&m.tok)
	vrt.RaceAcquire(unsafe.Pointer(&m.tok))
	return true
}

func (m *Map) end() {
	vrt.RaceReleaseMerge(unsafe.Pointer(&m.tok))
	vrt.Point(&m.obj, "map.end")
}

func (m *Map) Load(k any) (any, bool) {
	if !m.begin("map.load") {
		return nil, false
	}
	if e := m.find(k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Clear() {
	if !m.begin("map.clear") {
		return
	}
	for _, e := range m.ents {
		e.live = false
	}
	m.ents = nil
	m.end()
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if !m.begin("map.loadorstore") {
		return v, false
	}
	defer m.end()
	if e := m.find(k); e != nil {
		return e.v, true
	}
	m.ents = append(m.ents, &mapEnt{k, v, true})
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	if !m.begin("map.delete") {
		return nil, false
	}
	defer m.end()
	for i, e := range m.ents {
		if e.k == k {
			e.live = false
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			return e.v, true
		}
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	if !m.begin("map.store") {
		return nil, false
	}
	defer m.end()
	if e := m.find(k); e != nil {
		old := e.v
		e.v = v
		return old, true
	}
	m.ents = append(m.ents, &mapEnt{k, v, true})
	return nil, false
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	if !m.begin("map.cas") {
		return false
	}
	defer m.end()
	if e := m.find(k); e != nil && e.v == old {
		e.v = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	if !m.begin("map.cad") {
		return false
	}
	defer m.end()
	for i, e := range m.ents {
		if e.k == k && e.v == old {
			e.live = false
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			return true
		}
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	if !m.begin("map.range") {
		return
	}
	snap := append([]*mapEnt(nil), m.ents...)
	for i, e := range snap {
		if i > 0 && !m.begin("map.next") {
			return
		}
		if !e.live {
			continue
		}
		if !f(e.k, e.v) {
			break
		}
	}
}
