package main

import (
	"os"
	"strconv"
	"strings"

	"verifmc/vrt"
)

// Only the translated package is instrumented, but runtime helpers (append,
// copy, maps) report whoever calls them. A report counts if both accesses were
// made by the code under test (or for it, on its buffers).

var raceLogOff int64

// raceLog reads this process's new reports and keeps the genuine ones.
func raceLog(base string) func() string {
	path := base + "." + strconv.Itoa(os.Getpid())
	return func() string {
		f, err := os.Open(path)
		if err != nil {
			return "data race (no report found)"
		}
		defer f.Close()
		st, _ := f.Stat()
		b := make([]byte, st.Size()-raceLogOff)
		n, _ := f.ReadAt(b, raceLogOff)
		raceLogOff += int64(n)
		out := ""
		for _, r := range strings.Split(string(b[:n]), "==================") {
			if genuineRace(r) {
				out += strings.TrimSpace(r) + "\n"
			}
		}
		return out
	}
}

func genuineRace(r string) bool {
	var stacks [][]string
	var cur []string
	in := false
	for _, l := range append(strings.Split(r, "\n"), "") {
		t := strings.TrimSpace(l)
		lo := strings.ToLower(t)
		switch {
		case strings.Contains(lo, "read at 0x") || strings.Contains(lo, "write at 0x"):
			in, cur = true, nil
		case t == "" && in:
			stacks = append(stacks, cur)
			in = false
		case in && strings.HasSuffix(t, ")") && !strings.HasPrefix(t, "/"):
			cur = append(cur, t)
		}
	}
	if len(stacks) < 2 {
		return false
	}
	for _, s := range stacks[:2] {
		if !libAccess(s) {
			return false
		}
	}
	return true
}

func libAccess(s []string) bool {
	for _, f := range s {
		switch {
		case strings.HasPrefix(f, "verifmc/modbus."), strings.HasPrefix(f, "verifmc/vrt.RaceRead"), strings.HasPrefix(f, "verifmc/vrt.RaceWrite"):
			return true
		case strings.HasPrefix(f, "sync/atomic."), strings.HasPrefix(f, "verifmc/shim/atomic."):
			// an atomic access, on behalf of the caller
		case strings.HasPrefix(f, "verifmc/"), strings.HasPrefix(f, "main."):
			return false
		}
	}
	return false
}

func init() {
	if p := os.Getenv("VERIF_RACELOG"); p != "" && vrt.Race {
		vrt.RaceReport = raceLog(p)
	}
}
