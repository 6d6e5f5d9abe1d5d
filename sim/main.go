package verifsim

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Summary is what one worker reports.
type Summary struct {
	Property    string            `json:"property"`
	Rule        string            `json:"rule"`
	Runs        int               `json:"runs"`
	Sessions    int               `json:"sessions"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"` // of non-trivial runs
	Shapes      []uint64          `json:"shapes"`
	SimTime     int64             `json:"sim_ns"`
	Events      int               `json:"events"`
	Switches    int               `json:"switches"`
	Prompts     int               `json:"prompts"`
	Commands    int               `json:"commands"`
	Faults      map[string]int    `json:"faults"`
	Probes      map[string]int    `json:"probes"`
	Scens       map[string]int    `json:"scens"`
	Samples     []string          `json:"samples"`
	Seconds     float64           `json:"seconds"`
	FirstIdx    int               `json:"first"`
	LastIdx     int               `json:"last"`
	Replay      string            `json:"replay,omitempty"`
	Violation   *Violation        `json:"violation,omitempty"`
	Known       map[string]int    `json:"known,omitempty"`
	KnownMsg    map[string]string `json:"known_msg,omitempty"`
	Determinism int               `json:"determinism_reruns"`
}

func cliArgs(args []string) map[string]string {
	m := map[string]string{}
	for _, a := range args {
		k, v, _ := strings.Cut(a, "=")
		m[k] = v
	}
	return m
}

func atoi(s string, def int) int {
	if s == "" {
		return def
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		harness("bad number %q", s)
	}
	return n
}

// Main is the simulator's command line.
func Main(prog func()) (code int) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h.msg)
			} else {
				fmt.Fprintf(os.Stderr, "HARNESS PANIC: %v\n%s\n", r, debug.Stack())
			}
			code = 2
		}
	}()
	args := append([]string(nil), os.Args[1:]...)
	if len(args) == 0 {
		fmt.Println("usage: sim.test batch|replay|show|list ...")
		return 2
	}
	theProg = prog
	if err := setupGlobals(); err != nil {
		harness("%v", err)
	}
	installHooks()
	quietGC()
	switch args[0] {
	case "list":
		for _, k := range sortedKeys(properties) {
			var n []string
			for _, s := range properties[k].Scens {
				n = append(n, s.Name)
			}
			fmt.Println(k, strings.Join(n, " "))
		}
		return 0
	case "batch":
		return batch(cliArgs(args[1:]))
	case "replay":
		return replay(args[1], len(args) > 2)
	case "show":
		return show(cliArgs(args[1:]))
	}
	harness("unknown command %q", args[0])
	return 2
}

func readKnown(path string) map[string]bool {
	known := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		m := cliArgs(strings.Fields(l)[1:])
		known[m["property"]+" "+m["key"]] = true
	}
	return known
}

func batch(a map[string]string) int {
	prop := properties[a["prop"]]
	if prop == nil {
		harness("unknown property %q", a["prop"])
	}
	seed := uint64(atoi(a["seed"], 1))
	worker, nworkers := atoi(a["worker"], 0), atoi(a["nworkers"], 1)
	secs := atoi(a["secs"], 20)
	maxRuns := atoi(a["runs"], 1<<30)
	tier := a["tier"]
	known := readKnown(a["known"])
	only := a["scen"]
	runtime.GOMAXPROCS(2)

	sum := &Summary{Property: prop.ID, Rule: prop.Rule, Faults: map[string]int{}, Probes: map[string]int{}, Scens: map[string]int{},
		Known: map[string]int{}, KnownMsg: map[string]string{}, FirstIdx: worker}
	hashes, shapes := map[uint64]bool{}, map[uint64]bool{}
	begin := time.Now()
	deadline := begin.Add(time.Duration(secs) * time.Second)
	expired := func() bool {
		if time.Now().After(deadline) || sum.Runs >= maxRuns {
			return true
		}
		if a["stop"] != "" {
			if _, err := os.Stat(a["stop"]); err == nil {
				return true
			}
		}
		return false
	}
	n := 0
	account := func(run *Run, sc *Scenario) {
		st := &run.w.stats
		sum.Runs++
		sum.Scens[sc.Name]++
		sum.Sessions += st.Procs
		sum.SimTime += st.SimTime
		sum.Events += st.Events
		sum.Switches += st.Switches
		sum.Prompts += st.Prompts
		sum.Commands += st.Commands
		for k, v := range st.Faults {
			sum.Faults[k] += v
		}
		for k, v := range st.Probes {
			sum.Probes[k] += v
		}
		shapes[run.w.shape] = true
		if run.nontrivial {
			sum.NonTrivial++
			hashes[run.w.hash] = true
			if len(sum.Samples) < 3 && (sum.NonTrivial == 1 || sum.NonTrivial%97 == 0) {
				sum.Samples = append(sum.Samples, describe(run))
			}
		}
		if n++; n%8 == 0 {
			runtime.GC()
		}
	}
	// judge returns true when the run shows an unlisted violation.
	judge := func(run *Run) *Violation {
		for i := range run.viol {
			v := &run.viol[i]
			id := prop.ID + " " + v.Key
			if known[id] {
				sum.Known[v.Key]++
				sum.KnownMsg[v.Key] = v.Msg
				continue
			}
			return v
		}
		return nil
	}
	finish := func() {
		sum.Seconds = time.Since(begin).Seconds()
		for h := range hashes {
			sum.Hashes = append(sum.Hashes, h)
		}
		for h := range shapes {
			sum.Shapes = append(sum.Shapes, h)
		}
		sort.Slice(sum.Hashes, func(i, j int) bool { return sum.Hashes[i] < sum.Hashes[j] })
		sort.Slice(sum.Shapes, func(i, j int) bool { return sum.Shapes[i] < sum.Shapes[j] })
		if a["out"] != "" {
			saveJSON(a["out"], sum)
		} else {
			s := *sum
			s.Hashes, s.Shapes = nil, nil
			b, _ := json.MarshalIndent(s, "", " ")
			fmt.Println(string(b))
			fmt.Println("distinct", len(sum.Hashes), "shapes", len(sum.Shapes), "runs/s", float64(sum.Runs)/sum.Seconds)
		}
	}
	report := func(pl *Plan, v *Violation, idx, variant int) {
		if a["stop"] != "" {
			os.WriteFile(a["stop"], []byte("x"), 0644)
		}
		lim := time.Now().Add(time.Duration(atoi(a["shrink"], 25)) * time.Second)
		small, tries := shrink(pl, v.Class, func() bool { return time.Now().Before(lim) })
		run := execute(small, true)
		vv := hasClass(run, v.Class)
		if vv == nil {
			harness("minimised plan does not reproduce %s", v.Class)
		}
		rp := &Replay{Property: prop.ID, Seed: seed, Index: idx, Variant: variant, Class: vv.Class, Key: vv.Key,
			Message: vv.Msg, Hash: fmt.Sprintf("%016x", run.w.hash), Plan: small, Trace: run.w.trace}
		if tries > 0 {
			rp.Original = pl
		}
		dir := a["replaydir"]
		if dir == "" {
			dir = "."
		}
		path := fmt.Sprintf("%s/%s-%d-%d-%d.json", dir, prop.ID, seed, idx, variant)
		saveJSON(path, rp)
		sum.Replay, sum.Violation = path, vv
	}

	// a first run in a process pays for caches that later runs find filled;
	// none of them may influence a trace, which the re-runs below check
	for idx := worker; !expired(); idx += nworkers {
		pl, sc, r := gen(prop, seed, idx, tier)
		if only != "" && sc.Name != only {
			continue
		}
		sum.LastIdx = idx
		base := execute(pl, false)
		account(base, sc)
		if v := judge(base); v != nil {
			report(pl, v, idx, 0)
			finish()
			return 1
		}
		if idx/nworkers%40 == 0 {
			again := execute(pl, false)
			sum.Determinism++
			if again.w.hash != base.w.hash {
				harness("run %s/%d is not deterministic: %016x %016x", prop.ID, idx, base.w.hash, again.w.hash)
			}
		}
		if sc.Mutate == nil {
			continue
		}
		for v := 1; v <= sc.Variants && !expired(); v++ {
			q := sc.Mutate(r.Fork(), clonePlan(pl), base, v)
			if q == nil {
				break
			}
			q = clonePlan(q)
			run := execute(q, false)
			account(run, sc)
			if vi := judge(run); vi != nil {
				report(q, vi, idx, v)
				finish()
				return 1
			}
		}
	}
	finish()
	return 0
}

// describe is a one-line account of a run for the evidence file.
func describe(run *Run) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s seed=%d:", run.plan.Scen, run.plan.Seed)
	for _, st := range run.plan.Steps {
		for _, e := range st.Env {
			fmt.Fprintf(&b, " {%s}", e.Op)
		}
		for _, s := range st.Sess {
			fmt.Fprintf(&b, " [dev%d", s.Dev)
			for _, o := range s.Ops {
				fmt.Fprintf(&b, " %q", o.Line)
			}
			for _, f := range s.Faults {
				fmt.Fprintf(&b, " !%s@%s%d", f.Kind, f.Op, f.At)
			}
			b.WriteString("]")
		}
	}
	s := b.String()
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

func replay(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		harness("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		harness("%v", err)
	}
	run := execute(rp.Plan, true)
	if verbose {
		for _, l := range run.w.trace {
			fmt.Println(l)
		}
		dumpOut(run)
	}
	v := hasClass(run, rp.Class)
	h := fmt.Sprintf("%016x", run.w.hash)
	if v == nil {
		fmt.Printf("replay: %s does not occur (trace %s, recorded %s)\n", rp.Class, h, rp.Hash)
		return 0
	}
	fmt.Printf("replay: %s: %s\n", v.Class, v.Msg)
	if h != rp.Hash {
		fmt.Printf("replay: trace %s differs from the recorded %s\n", h, rp.Hash)
		return 3
	}
	return 1
}

func dumpOut(run *Run) {
	for _, p := range run.w.procs {
		fmt.Printf("---- p%d %v code=%d crash=%s runaway=%q\n%s\n", p.id, p.args[1:], p.code, p.crashed, p.runaway, stripANSI(p.out.String()))
		if p.panicV != nil {
			fmt.Printf("panic: %v\n%s\n", p.panicV, p.stack)
		}
	}
}

// show runs one generated plan and prints everything.
func show(a map[string]string) int {
	prop := properties[a["prop"]]
	if prop == nil {
		harness("unknown property %q", a["prop"])
	}
	pl, sc, r := gen(prop, uint64(atoi(a["seed"], 1)), atoi(a["idx"], 0), a["tier"])
	run := execute(pl, true)
	if v := atoi(a["variant"], 0); v > 0 {
		var q *Plan
		for i := 1; i <= v; i++ {
			q = sc.Mutate(r.Fork(), clonePlan(pl), run, i)
		}
		run = execute(clonePlan(q), true)
	}
	if a["plan"] != "" {
		b, _ := json.MarshalIndent(run.plan, "", " ")
		fmt.Println(string(b))
	}
	for _, l := range run.w.trace {
		fmt.Println(l)
	}
	dumpOut(run)
	for _, v := range run.viol {
		fmt.Printf("VIOLATION %s [%s] %s\n", v.Class, v.Key, v.Msg)
	}
	fmt.Printf("hash %016x nontrivial=%v\n", run.w.hash, run.nontrivial)
	return 0
}
