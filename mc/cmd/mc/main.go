// Command mc enumerates executions of the translated code under test and checks
// the properties on every one of them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifmc/vrt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay|list ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "needsrace":
		for _, s := range scenarios {
			if len(os.Args) > 3 && s.Prop == os.Args[3] && s.Race {
				os.Exit(0)
			}
		}
		os.Exit(1)
	case "list":
		for _, s := range scenarios {
			fmt.Printf("%s %-28s race=%v %s\n", s.Prop, s.Name, s.Race, s.Desc)
		}
	}
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	out := fs.String("out", "", "")
	secs := fs.Int("secs", 100, "")
	known := fs.String("known", "", "")
	only := fs.String("only", "", "")
	race := fs.Bool("race", false, "")
	_ = fs.Parse(args)
	debug.SetGCPercent(400)
	log.SetOutput(io.Discard)
	w := &worker{prop: *prop, thorough: *tier == "thorough", race: *race, shard: *shard, n: *n, only: *only,
		deadline: time.Now().Add(time.Duration(*secs) * time.Second), known: map[string]bool{}, progress: &progressFile{path: *out + ".progress"}}
	for _, k := range strings.Split(*known, "\n") {
		if k != "" {
			w.known[k] = true
		}
	}
	go w.watchdog(*out, 60*time.Second)
	// the code under test may print to stdout (default logger): drop it
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	w.run()
	w.finish(*out)
}

func cmdReplay(args []string) int {
	if vrt.Race && os.Getenv("VERIF_RACELOG") == "" {
		// again with the detector's reports going to a file
		d, err := os.MkdirTemp("", "mcrace")
		if err == nil {
			defer os.RemoveAll(d)
			self, _ := os.Executable()
			cmd := exec.Command(self, append([]string{"replay"}, args...)...)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path="+d+"/race", "VERIF_RACELOG="+d+"/race")
			if cmd.Run() != nil {
				return 1
			}
			return 0
		}
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	so := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	r := replay(v)
	if r == nil {
		fmt.Fprintln(os.Stderr, "no such case")
		return 3
	}
	for _, l := range r.Trace {
		fmt.Fprintln(so, l)
	}
	if r.Fail == nil {
		fmt.Fprintln(so, "replay: the property held")
		return 0
	}
	fmt.Fprintf(so, "replay: %s\n", r.Fail)
	return 1
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"` // scenario|case name
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	raceBin := fs.String("racebin", "", "")
	work := fs.String("work", "", "")
	procs := fs.Int("procs", 8, "")
	secs := fs.Int("secs", 0, "")
	only := fs.String("only", "", "")
	_ = fs.Parse(args)
	t0 := time.Now()
	if *secs == 0 {
		*secs = 150
		if *tier == "thorough" {
			*secs = 1500
		}
	}
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		}
	}
	var keys []string
	for _, k := range kf.Findings {
		if k.Property == *prop {
			keys = append(keys, *prop+"|"+k.Key)
		}
	}
	var st []Stats
	var extra []Violation
	hasPlain, hasRace := false, false
	for _, s := range scenarios {
		if s.Prop == *prop {
			hasPlain = hasPlain || !s.RaceOnly
			hasRace = hasRace || s.Race
		}
	}
	if !hasPlain && !hasRace {
		fmt.Fprintln(os.Stderr, "no scenario for", *prop)
		return 3
	}
	run := func(bin string, race bool, n int) {
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out := filepath.Join(*work, fmt.Sprintf("%s-%v-%d.json", *prop, race, i))
				a := []string{"worker", "-prop", *prop, "-tier", *tier, "-shard", strconv.Itoa(i), "-n", strconv.Itoa(n), "-out", out, "-secs", strconv.Itoa(*secs), "-known", strings.Join(keys, "\n"), "-only", *only}
				if race {
					a = append(a, "-race")
				}
				cmd := exec.Command(bin, a...)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path="+out+".race", "VERIF_RACELOG="+out+".race", "GOTRACEBACK=single")
				var eb strings.Builder
				cmd.Stderr = &limited{b: &eb}
				err := cmd.Run()
				mu.Lock()
				defer mu.Unlock()
				b, rerr := os.ReadFile(out)
				var s Stats
				if err == nil && rerr == nil && json.Unmarshal(b, &s) == nil {
					st = append(st, s)
					return
				}
				// the worker process died: the code under test took the process down
				var v Violation
				if pb, e := os.ReadFile(out + ".progress"); e == nil {
					_ = json.Unmarshal(pb, &v)
				}
				v.Property, v.Thorough, v.Race, v.Kind, v.Confirm = *prop, *tier == "thorough", race, "crash", 1
				v.Message = fmt.Sprintf("the process died (%v): %s", err, eb.String())
				extra = append(extra, v)
			}(i)
		}
		wg.Wait()
	}
	self, _ := os.Executable()
	if hasPlain {
		run(self, false, *procs)
	}
	tPlain := time.Since(t0)
	found := len(extra) > 0 // then the race build has nothing to add
	for _, s := range st {
		for _, v := range s.Violations {
			listed := false
			for _, k := range kf.Findings {
				listed = listed || k.Property == *prop && k.Key == v.Scenario+"|"+v.CaseName
			}
			found = found || v.Confirm > 0 && !listed
		}
	}
	if hasRace && !found && *raceBin != "" && *raceBin != "none" {
		run(*raceBin, true, *procs)
	}
	return report(*prop, *tier, *verif, *raceBin, *work, st, extra, kf, t0, tPlain)
}

type limited struct {
	b *strings.Builder
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 4000 {
		l.b.Write(p)
	}
	return len(p), nil
}

func report(prop, tier, verif, raceBin, work string, st []Stats, extra []Violation, kf knownFile, t0 time.Time, tPlain time.Duration) int {
	var t Stats
	t.PerScen, t.Bounds = map[string]int64{}, map[string]string{}
	var viol []Violation
	viol = append(viol, extra...)
	for _, s := range st {
		t.Execs += s.Execs
		t.Steps += s.Steps
		t.NewSteps += s.NewSteps
		t.Checks += s.Checks
		t.States += s.States
		t.Cases += s.Cases
		t.Interleave += s.Interleave
		t.Outcomes += s.Outcomes
		t.Diverged += s.Diverged
		t.Capped = t.Capped || s.Capped
		t.CapNote = append(t.CapNote, s.CapNote...)
		for k, v := range s.PerScen {
			t.PerScen[k] += v
		}
		for k, v := range s.Bounds {
			t.Bounds[k] = v
		}
		if len(t.Samples) < 12 {
			t.Samples = append(t.Samples, s.Samples...)
		}
		if s.MaxThreads > t.MaxThreads {
			t.MaxThreads = s.MaxThreads
		}
		if s.MaxDepth > t.MaxDepth {
			t.MaxDepth = s.MaxDepth
		}
		viol = append(viol, s.Violations...)
	}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Choices) < len(viol[j].Choices) })
	knownHit := map[string]bool{}
	var fresh []Violation
	var unconfirmed []string
	for _, v := range viol {
		listed := false
		for _, k := range kf.Findings {
			if k.Property == prop && k.Key == v.Scenario+"|"+v.CaseName {
				listed = true
				knownHit[k.Key] = true
			}
		}
		if listed {
			continue
		}
		if v.Confirm == 0 {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%s: %s: %s", v.Scenario, v.CaseName, v.Kind, v.Message))
			continue
		}
		fresh = append(fresh, v)
	}
	for _, k := range kf.Findings {
		if k.Property == prop && knownHit[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	code := 0
	rdir := filepath.Join(verif, "evidence", "replay")
	for i, v := range fresh {
		if i >= 3 {
			break
		}
		_ = os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, i))
		if v.Race {
			// a trace and the detector's report, from a fresh process
			b, _ := json.Marshal(&v)
			_ = os.WriteFile(path, b, 0o644)
			cmd := exec.Command(raceBin, "replay", path)
			log := filepath.Join(work, "replay.race")
			cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path="+log, "VERIF_RACELOG="+log)
			o, _ := cmd.CombinedOutput()
			v.Trace = strings.Split(string(o), "\n")
			if len(v.Trace) > 400 {
				v.Trace = v.Trace[len(v.Trace)-400:]
			}
		}
		b, _ := json.MarshalIndent(&v, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		msg := v.Message
		if len(msg) > 600 {
			msg = msg[:600] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  scenario %s, case %d (%s), choices %v, reproduced %d/5\n  %s: %s\n", v.Scenario, v.Case, v.CaseName, v.Choices, v.Confirm, v.Kind, msg)
		code = 1
	}
	if len(unconfirmed) > 0 {
		fmt.Printf("unconfirmed (did not reproduce, not reported): %v\n", unconfirmed)
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if len(t.CapNote) > 20 {
		t.CapNote = t.CapNote[:20]
	}
	if len(t.Samples) == 0 {
		t.Samples = []string{"none (stopped at the first execution)"}
	}
	cov := map[string]interface{}{
		"states":                        t.States,
		"transitions":                   t.NewSteps,
		"traces_validated_against_impl": t.Execs,
		"evaluations":                   t.Checks,
		"distinct_nontrivial":           t.Outcomes,
		"rule":                          "every trace is a complete execution of the real (mechanically translated) code under the controlled scheduler and environment; states are distinct fingerprints of scheduling/environment decision states and end states, transitions are scheduling points beyond the replayed prefix, evaluations are oracle comparisons, distinct_nontrivial counts distinct observed outcomes",
		"samples":                       t.Samples,
		"exhaustive":                    !t.Capped && len(extra) == 0 && code == 0 && t.Diverged == 0,
		"closed_programs":               t.Cases,
		"executions_with_choices":       t.Interleave,
		"replayed_steps_total":          t.Steps,
		"executions_per_scenario":       t.PerScen,
		"bounds":                        t.Bounds,
		"max_threads":                   t.MaxThreads,
		"max_choice_points":             t.MaxDepth,
		"diverged_replays":              t.Diverged,
		"caps_hit":                      t.CapNote,
		"plain_phase_s":                 tPlain.Seconds(),
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"scheduling points are the synchronisation, channel, clock, socket and port operations; unsynchronised accesses are caught by the race-detector build of the same scenarios",
			"the virtual network/port/clock reproduce the error values and semantics of the Go standard library on Linux",
			"the enumeration is seedless (VERIF_SEED is not used): it covers the stated bounds completely unless caps_hit is non-empty",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: %d closed programs, %d executions, %d states, %d transitions, %d oracle checks, %d outcomes, exhaustive=%v, %.1fs (plain %.1fs)\n",
		prop, tier, t.Cases, t.Execs, t.States, t.NewSteps, t.Checks, t.Outcomes, !t.Capped, time.Since(t0).Seconds(), tPlain.Seconds())
	if t.Capped {
		fmt.Printf("  caps hit: %v\n", t.CapNote)
	}
	return code
}
