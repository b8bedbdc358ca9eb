// Package vrt is a virtual runtime: goroutines, channels, clocks and the shims
// built on it run one thread at a time under a scheduler whose every decision
// is a recorded choice, so executions can be enumerated and replayed.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"sync/atomic"
	rtime "time"
	"unsafe"
	"verifmc/raceroot"
)

// Thread is one virtual goroutine.
type Thread struct {
	ID      int
	Name    string
	Lib     bool // started by a go statement of the code under test
	ch      chan struct{}
	pred    func() bool
	next    func() int64
	idle    bool // waits for everybody else to be blocked
	done    bool
	killed  bool
	started bool
	streak  int
	h       uint64
	endTok  uint64
}

// Done reports whether the thread has ended.
func (t *Thread) Done() bool { return t.done }

type timer struct {
	at   int64
	seq  int
	fire func()
	dead bool
}

// Choice is one recorded decision.
type Choice struct {
	N, C int
	Kind byte // 's' preemption, 'b' pick after blocking, 'e' environment
}

// Failure describes why an execution is a counterexample.
type Failure struct {
	Kind string // check, panic, deadlock, horizon, race, hang, fatal
	Msg  string
}

func (f *Failure) String() string { return f.Kind + ": " + f.Msg }

// Config bounds one execution.
type Config struct {
	Preempt   int // budget for preemptions (and costly block choices)
	Env       int // budget for environment deviations
	BlockCost int // cost of not picking the canonical thread after a block
	MaxSteps  int
	Fixed     bool // no scheduling choices at all
	Trace     bool
}

// Exec is one execution.
type Exec struct {
	calm    int
	cfg     Config
	threads []*Thread
	live    []*Thread // not ended, by ID
	cur     *Thread
	now     int64
	timers  []*timer
	tseq    int
	prefix  []int
	choices []Choice
	usedP   int
	usedE   int
	steps   int
	quiet   int // points since the clock last moved
	fail    *Failure
	ended   bool
	doneCh  chan struct{}
	chans   []*vchan
	objs    int
	TraceL  []string
	diverge bool
	noSched int
	states  []uint64
	endTok  uint64
	locals  map[string]interface{}
	keys    []keyed
	// points of execution after which the tree is new
	newFrom int
	base    int // step budget is counted from here
}

type keyed struct {
	k unsafe.Pointer
	v interface{}
}

var x *Exec
var execCount uint64
var resets []func()

// OnReset registers a function that re-initialises package variables.
func OnReset(f func()) { resets = append(resets, f) }

const epoch0 = int64(1_700_000_000_000_000_000)

// Active reports whether an execution is running.
func Active() bool { return x != nil }

// Dead reports that the calling thread is being torn down: operations must not
// have effects.
func Dead() bool { return x == nil || x.cur.killed }

// Now is the virtual time in ns since the Unix epoch.
func Now() int64 {
	if x == nil {
		return epoch0
	}
	return x.now
}

// Since0 is the virtual time elapsed since the execution started.
func Since0() int64 { return Now() - epoch0 }

// Self returns the running thread.
func Self() *Thread {
	if x == nil {
		return nil
	}
	return x.cur
}

// Obj gives a shim object an identity inside an execution.
type Obj struct {
	ep uint64
	id int
	h  uint64
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	return a
}

func (o *Obj) touch() {
	if o.ep != execCount {
		o.ep = execCount
		x.objs++
		o.id = x.objs
		o.h = uint64(o.id) * 0x9e3779b97f4a7c15
	}
}

// Touch orders the calling thread after every earlier Touch of o in the state
// fingerprint (it has no effect on the execution itself).
func Touch(o *Obj, kind string) {
	if x == nil || x.cur.killed {
		return
	}
	o.touch()
	t := x.cur
	k := uint64(0)
	for i := 0; i < len(kind); i++ {
		k = k*31 + uint64(kind[i])
	}
	nh := mix(mix(t.h, o.h), k)
	t.h, o.h = nh, nh
}

func (e *Exec) sig() uint64 {
	s := uint64(e.now)
	for _, t := range e.threads {
		v := mix(t.h, uint64(t.ID)+1)
		if t.done {
			v = mix(v, 7)
		}
		s ^= v
	}
	return s
}

// Point is a scheduling point before (or after) an operation on o.
func Point(o *Obj, kind string) {
	if x == nil {
		return
	}
	t := x.cur
	if t.killed {
		return
	}
	x.step(t, o, kind)
	if x.noSched == 0 {
		x.reschedule(t)
	}
	if o != nil {
		Touch(o, kind)
	}
}

func (e *Exec) step(t *Thread, o *Obj, kind string) {
	e.steps++
	e.quiet++
	if e.cfg.Trace {
		id := 0
		if o != nil {
			o.touch()
			id = o.id
		}
		e.TraceL = append(e.TraceL, fmt.Sprintf("%8.3fms T%d(%s) %s #%d", float64(e.now-epoch0)/1e6, t.ID, t.Name, kind, id))
		if len(e.TraceL) > 4000 {
			e.TraceL = append(e.TraceL[:2000:2000], e.TraceL[3000:]...)
		}
	}
	if e.steps&0xfff == 0 && !Deadline.IsZero() && rtime.Now().After(Deadline) {
		e.abort("timecap", "stopped by the time cap")
	}
	if e.steps-e.base > e.cfg.MaxSteps {
		e.abort("horizon", fmt.Sprintf("no end after %d steps (livelock) in T%d(%s) at %s", e.steps, t.ID, t.Name, kind))
	}
}

// Deadline, when set, ends an execution without a verdict.
var Deadline rtime.Time

// Tracef adds a line to the trace of the execution.
func Tracef(f string, a ...interface{}) {
	if x != nil && x.cfg.Trace {
		x.TraceL = append(x.TraceL, fmt.Sprintf("%8.3fms T%d(%s)   | ", float64(x.now-epoch0)/1e6, x.cur.ID, x.cur.Name)+fmt.Sprintf(f, a...))
	}
}

// Tracing reports whether a trace is being recorded.
func Tracing() bool { return x != nil && x.cfg.Trace }

func (t *Thread) enabled() bool {
	if t.done || t.idle {
		return false
	}
	return t.pred == nil || t.pred()
}

// reschedule lets another enabled thread run instead of t (a preemption).
func (e *Exec) reschedule(t *Thread) {
	if len(e.live) == 1 {
		return
	}
	if e.quiet > 3000 {
		// a busy loop: real time would pass
		e.quiet = 0
		e.advance()
	}
	t.streak++
	force := t.streak > 400
	if !force && (e.cfg.Fixed || e.usedP >= e.cfg.Preempt) {
		return
	}
	var others []*Thread
	n := len(e.live)
	for i, p := 0, e.after(t.ID); i < n; i++ {
		o := e.live[(p+i)%n]
		if o != t && o.enabled() {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return
	}
	if force {
		t.streak = 0
		e.transfer(t, others[0])
		return
	}
	c := e.choose(len(others)+1, 's')
	if c == 0 {
		return
	}
	e.usedP++
	e.transfer(t, others[c-1])
}

// RaceReport returns the detector's new genuine reports.
var RaceReport func() string

// Yield gives way to the next enabled thread, if any.
func Yield() {
	if x == nil || x.cur.killed {
		return
	}
	e, t := x, x.cur
	e.step(t, nil, "yield")
	if e.quiet > 3000 {
		e.quiet = 0
		e.advance()
	}
	n := len(e.live)
	for i, p := 0, e.after(t.ID); i < n; i++ {
		o := e.live[(p+i)%n]
		if o != t && o.enabled() {
			e.transfer(t, o)
			return
		}
	}
}

// after is the index in live of the first thread with a larger ID.
func (e *Exec) after(id int) int {
	return sort.Search(len(e.live), func(i int) bool { return e.live[i].ID > id })
}

// drop drops a thread that ended from live.
func (e *Exec) drop(t *Thread) {
	if p := e.after(t.ID) - 1; p >= 0 && e.live[p] == t {
		for ; p+1 < len(e.live); p++ { // a helper of the runtime would be reported as a race
			e.live[p] = e.live[p+1]
		}
		e.live = e.live[:p]
	}
}

func (e *Exec) transfer(from, to *Thread) {
	to.streak = 0
	e.cur = to
	raceDisable()
	to.ch <- struct{}{}
	<-from.ch
	raceEnable()
	if from.killed {
		e.exitKilled()
	}
}

func (e *Exec) exitKilled() { runtime.Goexit() }

func (e *Exec) choose(n int, kind byte) int {
	i := len(e.choices)
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		if c >= n {
			e.diverge = true
			c = 0
		}
	} else if i == len(e.prefix) {
		e.newFrom = e.steps
	}
	e.choices = append(e.choices, Choice{n, c, kind})
	if i >= len(e.prefix) {
		e.states = append(e.states, mix(e.sig(), uint64(e.cur.ID)))
	}
	if e.cfg.Trace && c != 0 {
		e.TraceL = append(e.TraceL, fmt.Sprintf("          choice #%d: %c %d/%d", i, kind, c, n))
	}
	return c
}

// Choose is an environment choice among n answers; answer 0 is the default and
// every other one costs one unit of the environment budget.
func Choose(n int) int {
	if x == nil || n < 2 || x.cur.killed || x.usedE >= x.cfg.Env {
		return 0
	}
	c := x.choose(n, 'e')
	if c != 0 {
		x.usedE++
	}
	x.cur.h = mix(x.cur.h, uint64(c)+100)
	return c
}

// Pick is an environment choice that costs nothing.
func Pick(n int) int {
	if x == nil || n < 2 || x.cur.killed {
		return 0
	}
	c := x.choose(n, 'f')
	x.cur.h = mix(x.cur.h, uint64(c)+200)
	return c
}

// Calm makes the selects of this execution take turns among their ready cases
// instead of branching: for long runs.
func Calm() { x.calm = 1 }

func pickReady(n int) int {
	if x != nil && x.calm > 0 && !x.cur.killed {
		x.calm++
		return x.calm / 3 % n
	}
	return Pick(n)
}

// Block waits until pred holds.  next, if not nil, gives the virtual time at
// which pred may become true by itself (or a negative number).
func Block(pred func() bool, next func() int64) {
	if x == nil {
		if pred() {
			return
		}
		panic("vrt: blocking operation outside an execution")
	}
	e, t := x, x.cur
	if t.killed {
		if pred() {
			return
		}
		e.exitKilled()
	}
	if pred() {
		return
	}
	t.pred, t.next = pred, next
	t.streak = 0
	n := e.pickNext(t)
	if n != t {
		e.transfer(t, n)
	}
	t.pred, t.next = nil, nil
}

// pickNext chooses the thread to run when t cannot continue.
func (e *Exec) pickNext(t *Thread) *Thread {
	for {
		var en []*Thread
		n := len(e.live)
		for i, p := 0, e.after(t.ID-1); i < n; i++ {
			o := e.live[(p+i)%n]
			if o.enabled() {
				en = append(en, o)
			}
		}
		if len(en) == 0 {
			// quiescence waiters first, then the clock
			for _, o := range e.live {
				if o.idle && !o.done {
					o.idle = false
					e.quiet = 0
					en = append(en, o)
					break
				}
			}
		}
		if len(en) == 0 {
			if !e.advance() {
				e.fail = &Failure{"deadlock", e.describe()}
				e.finish(t)
			}
			continue
		}
		if len(en) == 1 || e.cfg.Fixed || e.noSched > 0 {
			return en[0]
		}
		if e.usedP+e.cfg.BlockCost > e.cfg.Preempt && e.cfg.BlockCost > 0 {
			return en[0]
		}
		c := e.choose(len(en), 'b')
		if c != 0 {
			e.usedP += e.cfg.BlockCost
		}
		return en[c]
	}
}

func (e *Exec) describe() string {
	s := "no thread can run:"
	for _, t := range e.threads {
		if !t.done {
			s += fmt.Sprintf(" T%d(%s)", t.ID, t.Name)
		}
	}
	return s
}

// advance moves the clock to the next event; false if there is none.
func (e *Exec) advance() bool {
	best := int64(-1)
	for _, t := range e.live {
		if t.done || t.next == nil {
			continue
		}
		if v := t.next(); v > e.now && (best < 0 || v < best) {
			best = v
		}
	}
	for _, tm := range e.timers {
		if !tm.dead && (best < 0 || tm.at < best) {
			best = tm.at
		}
	}
	if best < 0 {
		return false
	}
	if best > e.now {
		e.now = best
		e.quiet = 0
	}
	e.runTimers()
	return true
}

func (e *Exec) runTimers() {
	for {
		var b *timer
		bi := -1
		for i, tm := range e.timers {
			if tm.at <= e.now && (b == nil || tm.at < b.at || tm.at == b.at && tm.seq < b.seq) {
				b, bi = tm, i
			}
		}
		if b == nil {
			return
		}
		e.timers = cut(e.timers, bi)
		if !b.dead {
			b.fire()
		}
	}
}

// cut removes l[i]; append would be reported as the program's memory access.
func cut(l []*timer, i int) []*timer {
	for ; i+1 < len(l); i++ {
		l[i] = l[i+1]
	}
	return l[:i]
}

// Timer is a cancellable virtual timer.
type Timer struct{ t *timer }

// AddTimer runs f (which must not block) at virtual time at.
func AddTimer(at int64, f func()) *Timer {
	if x == nil {
		return &Timer{&timer{dead: true}}
	}
	x.tseq++
	tm := &timer{at: at, seq: x.tseq, fire: f}
	x.timers = append(x.timers, tm)
	return &Timer{tm}
}

// Stop cancels the timer; false if it fired or was stopped before.
func (t *Timer) Stop() bool {
	if t.t.dead {
		return false
	}
	t.t.dead = true
	if x != nil {
		for i, tm := range x.timers {
			if tm == t.t {
				x.timers = cut(x.timers, i)
				return true
			}
		}
	}
	return false
}

// Sleep blocks for d ns of virtual time.
func Sleep(d int64) {
	if x == nil {
		return
	}
	if x.cur.killed {
		return
	}
	x.step(x.cur, nil, "sleep")
	if d <= 0 {
		if x.noSched == 0 {
			x.reschedule(x.cur)
		}
		return
	}
	at := x.now + d
	e := x
	Block(func() bool { return e.now >= at }, func() int64 { return at })
}

// Settle blocks until no other thread can run at the current virtual time.
func Settle() {
	if x == nil || x.cur.killed {
		return
	}
	e, t := x, x.cur
	t.idle = true
	t.streak = 0
	n := e.pickNext(t)
	if n != t {
		e.transfer(t, n)
	}
	t.idle = false
}

// Atomic runs f without scheduling points (harness bookkeeping).
func Atomic(f func()) {
	if x == nil {
		f()
		return
	}
	e := x
	e.noSched++
	f()
	e.noSched--
}

// Go starts a virtual goroutine for the code under test.
func Go(f func()) { spawn(f, "lib", true) }

// GoNamed starts a harness thread.
func GoNamed(name string, f func()) *Thread { return spawn(f, name, false) }

func spawn(f func(), name string, lib bool) *Thread {
	if x == nil {
		panic("vrt: go statement outside an execution")
	}
	e := x
	if e.cur != nil && e.cur.killed {
		return &Thread{done: true}
	}
	t := e.newThread(f, name, lib)
	if e.cur != nil {
		t.h = mix(e.cur.h, uint64(t.ID))
		Point(nil, "go")
	}
	return t
}

// SpawnFromTimer starts a thread from a timer callback.
func SpawnFromTimer(f func()) {
	if x == nil {
		return
	}
	x.newThread(f, "timer", true)
}

func (e *Exec) newThread(f func(), name string, lib bool) *Thread {
	if len(e.live) >= 2000 {
		e.abort("horizon", "2000 goroutines alive at once")
	}
	t := &Thread{ID: len(e.threads), Name: name, Lib: lib, ch: make(chan struct{}, 1)}
	e.threads = append(e.threads, t)
	e.live = append(e.live, t)
	go e.runThread(t, f)
	return t
}

func (e *Exec) runThread(t *Thread, f func()) {
	raceDisable()
	<-t.ch
	raceEnable()
	normal := false
	defer func() {
		if !normal && !t.killed {
			if r := recover(); r != nil {
				if e.fail == nil {
					st := string(debug.Stack())
					e.fail = &Failure{"panic", fmt.Sprintf("goroutine T%d(%s) died: %v\n%s", t.ID, t.Name, r, trimStack(st))}
				}
			} // else runtime.Goexit by the code: an ordinary end
		} else if t.killed {
			_ = recover()
		}
		t.done = true
		if t.killed {
			e.live = nil
		} else {
			e.drop(t)
		}
		RaceReleaseMerge(unsafe.Pointer(&e.endTok))
		RaceReleaseMerge(unsafe.Pointer(&t.endTok))
		raceDisable()
		if t.killed || e.fail != nil || t.ID == 0 {
			e.doneCh <- struct{}{}
			raceEnable()
			return
		}
		n := func() *Thread {
			defer func() { _ = recover() }()
			return e.pickNext(t)
		}()
		if n == nil {
			raceEnable()
			return
		}
		n.streak = 0
		e.cur = n
		n.ch <- struct{}{}
		raceEnable()
	}()
	if t.killed {
		return
	}
	t.started = true
	raceroot.Call(f)
	normal = true
}

// finish ends the execution from the running thread t (never returns for a
// live thread; a thread that already ended just reports).
func (e *Exec) finish(t *Thread) {
	raceDisable()
	e.doneCh <- struct{}{}
	if t.done {
		raceEnable()
		panic("vrt: finished")
	}
	<-t.ch
	raceEnable()
	e.exitKilled()
}

func (e *Exec) abort(kind, msg string) {
	if e.fail == nil {
		e.fail = &Failure{kind, msg}
	}
	e.finish(e.cur)
}

// Fail records a property violation and ends the execution.
func Fail(f string, a ...interface{}) {
	if x == nil {
		panic("violation outside execution: " + fmt.Sprintf(f, a...))
	}
	if x.cur.killed {
		return
	}
	x.abort("check", fmt.Sprintf(f, a...))
}

// Fatal records an unrecoverable runtime error ("fatal error: ...").
func Fatal(msg string) {
	if x == nil {
		panic(msg)
	}
	if x.cur.killed {
		return
	}
	x.abort("fatal", msg)
}

// Join waits until the thread has ended.
func Join(t *Thread) {
	Block(func() bool { return t.done }, nil)
	RaceAcquire(unsafe.Pointer(&t.endTok))
}

// Live counts threads that have not ended, except the caller.
func Live(libOnly bool) int {
	n := 0
	for _, t := range x.threads {
		if !t.done && (t.Lib || !libOnly && t != x.cur) {
			n++
		}
	}
	return n
}

// LiveNames lists them.
func LiveNames() string {
	s := ""
	for _, t := range x.threads {
		if !t.done && t != x.cur {
			s += fmt.Sprintf(" T%d(%s)", t.ID, t.Name)
		}
	}
	return s
}

// Keyed returns the value attached to pointer k in this execution.
func Keyed(k unsafe.Pointer, mk func() interface{}) interface{} {
	if x == nil {
		return mk()
	}
	for i := range x.keys {
		if x.keys[i].k == k {
			return x.keys[i].v
		}
	}
	v := mk()
	x.keys = append(x.keys, keyed{k, v})
	return v
}

// ExecID identifies the current execution.
func ExecID() uint64 { return execCount }

// Steps is the number of points passed so far.
func Steps() int {
	if x == nil {
		return 0
	}
	return x.steps
}

// Result of one execution.
type Result struct {
	Choices []Choice
	Fail    *Failure
	Steps   int
	NewFrom int
	States  []uint64
	Trace   []string
	Diverge bool
	Threads int
	EndSig  uint64
	Elapsed int64
}

// Progress is bumped once per execution and by long sequential harnesses.
var Progress uint64

// Tick tells the watchdog that a long sequential harness is alive.
// and renews the step budget of the execution.
func Tick() {
	atomic.AddUint64(&Progress, 1)
	if x != nil {
		x.base = x.steps
		x.quiet = 0
	}
}

// Run executes body as thread 0 under the given choice prefix.
func Run(cfg Config, prefix []int, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 60000
	}
	execCount++
	atomic.AddUint64(&Progress, 1)
	e := &Exec{cfg: cfg, now: epoch0, prefix: prefix, doneCh: make(chan struct{}, 1)}
	for _, f := range resets {
		f()
	}
	race0 := RaceErrors()
	x = e
	t0 := e.newThread(body, "main", false)
	e.cur = t0
	raceDisable()
	t0.ch <- struct{}{}
	<-e.doneCh
	raceEnable()
	// tear down whatever is left
	e.ended = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.done {
			continue
		}
		t.killed = true
		e.cur = t
		raceDisable()
		t.ch <- struct{}{}
		<-e.doneCh
		raceEnable()
	}
	RaceAcquire(unsafe.Pointer(&e.endTok))
	x = nil
	if n := RaceErrors() - race0; n > 0 {
		msg := fmt.Sprintf("%d data race(s) reported by the race detector in this execution", n)
		if RaceReport != nil {
			msg = RaceReport()
		}
		if msg != "" && e.fail == nil {
			e.fail = &Failure{"race", msg}
		}
	}
	if e.newFrom == 0 && len(prefix) > 0 {
		e.newFrom = e.steps
	}
	return &Result{Choices: e.choices, Fail: e.fail, Steps: e.steps, NewFrom: e.newFrom, States: e.states, Trace: e.TraceL, Diverge: e.diverge, Threads: len(e.threads), EndSig: e.sig(), Elapsed: e.now - epoch0}
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}
