package main

import "fmt"

// Linearizability: a history of completed operations is explained by some
// order consistent with real time in which every operation, applied to the
// model one at a time, gives the observed result.

type lop[S any] struct {
	thr       int
	name      string
	call, ret int
	got       string
	apply     func(m S) string // mutates the model, returns the expected observation
	optional  bool             // never returned: may or may not have taken effect
}

type linOp = lop[*MNode]

var linClock int

func stamp() int { linClock++; return linClock }

// linearizable returns "" if the history has an explanation whose final state
// also satisfies final (if given).
func linearizable(ops []*linOp, init *MNode, final func(m *MNode) bool) string {
	return linear(ops, init, (*MNode).clone, (*MNode).key, final)
}

func linear[S any](ops []*lop[S], init S, clone func(S) S, key func(S) string, final func(m S) bool) string {
	Checked()
	n := len(ops)
	seen := map[string]bool{}
	var rec func(done uint, m S) bool
	rec = func(done uint, m S) bool {
		rest := false
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && !o.optional {
				rest = true
			}
		}
		if !rest && (final == nil || final(m)) {
			return true
		}
		k := fmt.Sprint(done, key(m))
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 {
				continue
			}
			min := true
			for j, p := range ops {
				if j != i && done&(1<<uint(j)) == 0 && !p.optional && p.ret < o.call {
					min = false
					break
				}
			}
			if !min {
				continue
			}
			c := clone(m)
			exp := o.apply(c)
			if !o.optional && exp != o.got {
				continue
			}
			if rec(done|1<<uint(i), c) {
				return true
			}
		}
		return false
	}
	if rec(0, clone(init)) {
		return ""
	}
	s := "no order of the calls explains what was observed:"
	for i := 0; i < n; i++ {
		o := ops[i]
		s += fmt.Sprintf("\n  T%d [%d,%d] %s -> %s", o.thr, o.call, o.ret, o.name, o.got)
	}
	return s
}
