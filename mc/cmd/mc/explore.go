package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sync/atomic"
	"time"

	"verifmc/vrt"
)

// Case is one closed program: a body explored over every choice within bounds.
type Case struct {
	Name  string
	Body  func()
	P     int  // preemption bound
	E     int  // environment-deviation bound
	BC    int  // cost of a non-canonical pick after a block (0: free)
	Fixed bool // sequential: no scheduling choices
	Split bool // large tree: every worker explores a share of it
	Max   int  // step horizon
	// AllowDeadlock etc. are decided by the body; any Failure is a violation.
}

// Scenario generates cases for one property.
type Scenario struct {
	Prop     string
	Name     string
	Race     bool // also run under the race detector
	RaceOnly bool
	Desc     string
	Gen      func(q *Q)
}

// Q receives the cases of a scenario.
type Q struct {
	Thorough bool
	Race     bool
	emit     func(c Case)
	idx      int
	suf      string
}

// times are the time-outs and intervals the servers are set to.
type times struct {
	RT, WT   int           // listening server, ms
	CT, RI   time.Duration // reverse server
	RRT, RWT time.Duration
	TLS      bool // reverse server dials over TLS
}

var tm = defTimes
var defTimes = times{2000, 1000, 400 * ms, 300 * ms, 2000 * ms, 1000 * ms, false}

// At generates cases under other times.
func (q *Q) At(t times, f func()) {
	old, os := tm, q.suf
	tm = t
	q.suf = fmt.Sprintf("%s [read %dms write %dms, connect %v retry %v read %v write %v, tls %v]", os, t.RT, t.WT, t.CT, t.RI, t.RRT, t.RWT, t.TLS)
	f()
	tm, q.suf = old, os
}

func wRT() time.Duration { return time.Duration(tm.RT) * ms }
func wWT() time.Duration { return time.Duration(tm.WT) * ms }

// slack is how long any single step of the reverse server may take.
func slack() time.Duration { return tm.CT + tm.RI + tm.RRT + tm.RWT + 2*sec }

// Case emits a case.
func (q *Q) Case(c Case) {
	t, f := tm, c.Body
	c.Body = func() { tm = t; f() }
	c.Name += q.suf
	q.emit(c)
	q.idx++
}

// Seq emits a sequential case.
func (q *Q) Seq(name string, body func()) {
	q.Case(Case{Name: name, Body: body, Fixed: true})
}

// Pick chooses by tier.
func (q *Q) N(quick, thorough int) int {
	if q.Thorough {
		return thorough
	}
	return quick
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var scenarios []Scenario

func reg(s Scenario) { scenarios = append(scenarios, s) }

// Violation is a replayable counterexample.
type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Case     int      `json:"case"`
	CaseName string   `json:"case_name"`
	Thorough bool     `json:"thorough"`
	Race     bool     `json:"race_build"`
	Choices  []int    `json:"choices"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Confirm  int      `json:"reproduced"`
	Trace    []string `json:"trace"`
}

// Stats is what one worker covered.
type Stats struct {
	Execs      int64             `json:"execs"`
	Steps      int64             `json:"steps"`
	NewSteps   int64             `json:"new_steps"`
	Checks     int64             `json:"checks"`
	States     int64             `json:"states"`
	Cases      int64             `json:"cases"`
	Interleave int64             `json:"with_choice"`
	Outcomes   int64             `json:"outcomes"`
	Diverged   int64             `json:"diverged"`
	Capped     bool              `json:"capped"`
	CapNote    []string          `json:"cap_note"`
	PerScen    map[string]int64  `json:"per_scenario"`
	Bounds     map[string]string `json:"bounds"`
	Samples    []string          `json:"samples"`
	Violations []Violation       `json:"violations"`
	MaxThreads int               `json:"max_threads"`
	MaxDepth   int               `json:"max_choices"`
}

type worker struct {
	prop     string
	thorough bool
	race     bool
	shard, n int
	deadline time.Time
	known    map[string]bool
	st       Stats
	seen     map[uint64]struct{}
	outc     map[uint64]struct{}
	only     string
	progress *progressFile
	cur      struct {
		scen string
		cs   int
		name string
	}
}

// outcome lets bodies report what happened, to count distinct outcomes.
var curOutcome uint64

// Outcome folds an observation of the current execution.
func Outcome(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	curOutcome = curOutcome*1099511628211 ^ h.Sum64()
}

// nChecks counts oracle evaluations.
var nChecks int64

// Checked counts one comparison against the oracle.
func Checked() { nChecks++ }

func (w *worker) config(c *Case) vrt.Config {
	cfg := vrt.Config{Preempt: c.P, Env: c.E, BlockCost: c.BC, MaxSteps: c.Max, Fixed: c.Fixed}
	return cfg
}

func ints(cs []vrt.Choice) []int {
	// trailing zeros are implied
	n := len(cs)
	for n > 0 && cs[n-1].C == 0 {
		n--
	}
	r := make([]int, n)
	for i := range r {
		r[i] = cs[i].C
	}
	return r
}

func (w *worker) runCase(sc *Scenario, idx int, c Case) bool {
	w.st.Cases++
	w.cur.scen, w.cur.cs, w.cur.name = sc.Name, idx, c.Name
	cfg := w.config(&c)
	type node struct{ prefix []int }
	stack := []node{{nil}}
	unit := 0
	execs := int64(0)
	for len(stack) > 0 {
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if time.Now().After(w.deadline) {
			w.st.Capped = true
			w.st.CapNote = append(w.st.CapNote, fmt.Sprintf("%s/%s stopped by the time cap after %d executions", sc.Name, c.Name, execs))
			return false
		}
		w.progress.set(sc.Name, idx, c.Name, nd.prefix)
		curOutcome = 14695981039346656037
		nChecks = 0
		vrt.Deadline = w.deadline
		if d := time.Now().Add(90 * time.Second); !w.thorough && d.Before(w.deadline) {
			vrt.Deadline = d
		}
		r := vrt.Run(cfg, nd.prefix, c.Body)
		vrt.Deadline = time.Time{}
		execs++
		w.count(sc, &c, r, len(nd.prefix))
		if r.Fail != nil && r.Fail.Kind == "timecap" {
			w.st.Capped = true
			w.st.CapNote = append(w.st.CapNote, fmt.Sprintf("%s/%s stopped by the time cap within execution %d", sc.Name, c.Name, execs))
			return true
		}
		if r.Fail != nil {
			if !w.violation(sc, idx, c, r) {
				return false
			}
			continue // known: do not explore below it
		}
		if c.Fixed && c.E == 0 && len(r.Choices) == 0 {
			break
		}
		for i := len(r.Choices) - 1; i >= len(nd.prefix); i-- {
			for a := r.Choices[i].N - 1; a >= 1; a-- {
				if c.Split && len(nd.prefix) == 0 {
					unit++
					if w.n > 1 && unit%w.n != w.shard {
						continue
					}
				}
				p := make([]int, i+1)
				for k := 0; k < i; k++ {
					p[k] = r.Choices[k].C
				}
				p[i] = a
				stack = append(stack, node{p})
			}
		}
	}
	return true
}

func (w *worker) count(sc *Scenario, c *Case, r *vrt.Result, plen int) {
	s := &w.st
	s.Execs++
	s.Steps += int64(r.Steps)
	s.NewSteps += int64(r.Steps - r.NewFrom)
	s.Checks += nChecks
	if r.Diverge {
		s.Diverged++
	}
	if s.PerScen == nil {
		s.PerScen = map[string]int64{}
		s.Bounds = map[string]string{}
	}
	s.PerScen[sc.Name]++
	if _, ok := s.Bounds[sc.Name]; !ok || len(r.Choices) > 0 {
		s.Bounds[sc.Name] = fmt.Sprintf("preemptions<=%d, env deviations<=%d, block-choice cost %d, sequential=%v", c.P, c.E, c.BC, c.Fixed)
	}
	if len(r.Choices) > 0 {
		s.Interleave++
	}
	if r.Threads > s.MaxThreads {
		s.MaxThreads = r.Threads
	}
	if len(r.Choices) > s.MaxDepth {
		s.MaxDepth = len(r.Choices)
	}
	if len(w.seen) < 4_000_000 {
		base := hashStr(sc.Name, w.cur.cs)
		for _, v := range r.States {
			w.seen[v^base] = struct{}{}
		}
		w.seen[r.EndSig^base^0x5555] = struct{}{}
	}
	if len(w.outc) < 1_000_000 {
		w.outc[curOutcome^hashStr(sc.Name, 0)] = struct{}{}
	}
	if len(s.Samples) < 6 && (s.Execs == 1 || s.Execs == 10 || s.Execs == 100 || s.Execs == 1000 || s.Execs == 10000) {
		s.Samples = append(s.Samples, fmt.Sprintf("%s / %s: choices %v, %d scheduling points, %d threads, virtual time %v, held",
			sc.Name, c.Name, ints(r.Choices), r.Steps, r.Threads, time.Duration(r.Elapsed)))
	}
}

func hashStr(s string, n int) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, s, "#", n)
	return h.Sum64()
}

// violation confirms and records; false stops the worker.
func (w *worker) violation(sc *Scenario, idx int, c Case, r *vrt.Result) bool {
	ch := ints(r.Choices)
	v := Violation{Property: sc.Prop, Scenario: sc.Name, Case: idx, CaseName: c.Name, Thorough: w.thorough, Race: w.race, Choices: ch, Kind: r.Fail.Kind, Message: r.Fail.Msg}
	if w.race && r.Fail.Kind == "race" {
		v.Confirm = 1 // the detector reports a pair once per process: confirmed in a fresh process by the parent
	} else {
		for i := 0; i < 5; i++ {
			cfg := w.config(&c)
			cfg.Trace = i == 4
			r2 := vrt.Run(cfg, ch, c.Body)
			if r2.Fail != nil {
				v.Confirm++
				v.Trace = r2.Trace
				if len(r2.Trace) == 0 {
					v.Trace = nil
				}
			}
		}
	}
	key := w.prop + "|" + sc.Name + "|" + c.Name
	w.st.Violations = append(w.st.Violations, v)
	return w.known[key]
}

type progressFile struct {
	path string
	last atomic.Value
}

func (p *progressFile) set(scen string, cs int, name string, prefix []int) {
	p.last.Store(Violation{Scenario: scen, Case: cs, CaseName: name, Choices: prefix})
}

// watchdog turns a real hang (a loop that never reaches a scheduling point)
// into a violation.
func (w *worker) watchdog(out string, limit time.Duration) {
	last := atomic.LoadUint64(&vrt.Progress)
	since := time.Now()
	n := 0
	for {
		time.Sleep(200 * time.Millisecond)
		n++
		if w.progress.path != "" && n%2 == 0 {
			if v, ok := w.progress.last.Load().(Violation); ok {
				b, _ := json.Marshal(v)
				_ = os.WriteFile(w.progress.path, b, 0o644)
			}
		}
		if p := atomic.LoadUint64(&vrt.Progress); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > limit {
			v, _ := w.progress.last.Load().(Violation)
			v.Property, v.Thorough, v.Race = w.prop, w.thorough, w.race
			v.Kind, v.Message, v.Confirm = "hang", fmt.Sprintf("the code ran %v without reaching a scheduling point or finishing", limit), 1
			w.st.Violations = append(w.st.Violations, v)
			w.finish(out)
			os.Exit(0)
		}
	}
}

func (w *worker) finish(out string) {
	w.st.States = int64(len(w.seen))
	w.st.Outcomes = int64(len(w.outc))
	b, _ := json.Marshal(&w.st)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func (w *worker) run() {
	w.seen = map[uint64]struct{}{}
	w.outc = map[uint64]struct{}{}
	g := 0
	for i := range scenarios {
		sc := &scenarios[i]
		if sc.Prop != w.prop || w.race && !sc.Race || !w.race && sc.RaceOnly {
			continue
		}
		if w.only != "" && sc.Name != w.only {
			continue
		}
		stop := false
		q := &Q{Thorough: w.thorough, Race: w.race}
		q.emit = func(c Case) {
			g++
			if stop || !(c.Split || w.n <= 1 || g%w.n == w.shard) {
				return
			}
			if !w.runCase(sc, q.idx, c) {
				stop = true
			}
		}
		sc.Gen(q)
		if stop && len(w.st.Violations) > 0 {
			return
		}
	}
}

// replay runs one recorded counterexample with a trace.
func replay(v Violation) *vrt.Result {
	var res *vrt.Result
	for i := range scenarios {
		sc := &scenarios[i]
		if sc.Prop != v.Property || sc.Name != v.Scenario {
			continue
		}
		q := &Q{Thorough: v.Thorough, Race: v.Race}
		q.emit = func(c Case) {
			if q.idx != v.Case {
				return
			}
			w := &worker{}
			cfg := w.config(&c)
			cfg.Trace = true
			res = vrt.Run(cfg, v.Choices, c.Body)
		}
		sc.Gen(q)
	}
	return res
}
