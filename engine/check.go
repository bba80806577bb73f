package main

// The check driver: runs the harnesses of one property, replays violations
// against natively compiled code, and writes the evidence.

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RunSpec is one harness with its bounds.
type RunSpec struct {
	Pkg      string         `json:"pkg"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params,omitempty"`
	Sched    string         `json:"sched,omitempty"`
	Preempt  int            `json:"preempt,omitempty"`
	Timers   string         `json:"timers,omitempty"`
	NoPerm   bool           `json:"no_map_perm,omitempty"`
	Reach    []string       `json:"reach,omitempty"`
	Budget   int            `json:"budget_s,omitempty"`
	MaxSteps int64          `json:"max_steps,omitempty"`
	Tier     string         `json:"tier,omitempty"` // "", "quick", "thorough"
	Thorough map[string]int `json:"thorough,omitempty"`
	TPreempt int            `json:"thorough_preempt,omitempty"`
	NoNative bool           `json:"no_native,omitempty"` // not natively replayable
	RealDB   bool           `json:"realdb,omitempty"`    // also validated against the real goleveldb
	Concr    int            `json:"concretize,omitempty"`
	Bounds   string         `json:"bounds,omitempty"`
	NoRaces  bool           `json:"no_races,omitempty"` // schedules explored without looking for data races
	HangOK   bool           `json:"-"`
}

// CheckSpec is one property.
type CheckSpec struct {
	ID          string    `json:"id"`
	Level       string    `json:"level"`
	Runs        []RunSpec `json:"runs"`
	Assumptions []string  `json:"assumptions"`
	Bounds      string    `json:"bounds"`
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known, fixed
	Harness  string `json:"harness,omitempty"`
	Label    string `json:"label,omitempty"`
	Match    string `json:"match,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type replayDoc struct {
	Property  string         `json:"property"`
	Pkg       string         `json:"pkg"`
	Fn        string         `json:"fn"`
	Params    map[string]int `json:"params"`
	Inputs    []Input        `json:"inputs"`
	Sched     string         `json:"sched"`
	Preempt   int            `json:"preempt"`
	Timers    string         `json:"timers"`
	NoPerm    bool           `json:"no_map_perm"`
	Violation Violation      `json:"violation"`
	Confirmed string         `json:"confirmed"`
	NoNative  bool           `json:"no_native"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// prepare runs the steps that harness packages need before they are loaded,
// as to generate code with the generators under test.
func prepare(pkgs []string) error {
	for _, p := range pkgs {
		dir := filepath.Join(verifDir(), "harness", strings.TrimPrefix(p, "verif/"))
		if _, err := os.Stat(filepath.Join(dir, "pre.sh")); err != nil {
			continue
		}
		cmd := exec.Command("bash", "pre.sh")
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%s: %v\n%s", filepath.Join(dir, "pre.sh"), err, out)
		}
		fmt.Print(string(out))
	}
	return nil
}

func (r *RunSpec) config() *Config {
	c := &Config{RepoMod: "github.com/inklabs/rangedb", MaxSteps: 3000000, MaxDepth: 3000, Solver: "z3", TimeoutMs: 20000, Workers: 8,
		SchedMode: "det", TimerMode: "idle", MapPerm: !r.NoPerm, Concretize: 300, Params: r.Params, Preempt: r.Preempt}
	if r.Sched != "" {
		c.SchedMode = r.Sched
	}
	c.Races = !r.NoRaces
	if r.Timers != "" {
		c.TimerMode = r.Timers
	}
	if r.MaxSteps > 0 {
		c.MaxSteps = r.MaxSteps
	}
	if r.Concr > 0 {
		c.Concretize = r.Concr
	}
	if c.Params == nil {
		c.Params = map[string]int{}
	}
	return c
}

type nativeBuilder struct {
	dir  string
	bins map[string]string
	errs map[string]error
}

// build compiles the harness package natively against the current /repo.
func (nb *nativeBuilder) build(pkg string, realdb bool) (string, error) {
	key := pkg
	if realdb {
		key += "#real"
	}
	if b, ok := nb.bins[key]; ok {
		return b, nb.errs[key]
	}
	name := strings.ReplaceAll(strings.ReplaceAll(key, "/", "_"), "#", "_")
	hdir := filepath.Join(verifDir(), "harness")
	src := filepath.Join(nb.dir, name+".go")
	fns := exportedHarnesses(filepath.Join(hdir, strings.TrimPrefix(pkg, "verif/")), realdb)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\nimport (\n\t\"fmt\"\n\t\"os\"\n\th %q\n\t\"verif/sym\"\n)\nfunc main() {\n\tif err := sym.Load(os.Args[2]); err != nil { panic(err) }\n\tswitch os.Args[1] {\n", pkg)
	for _, f := range fns {
		fmt.Fprintf(&sb, "\tcase %q: h.%s()\n", f, f)
	}
	fmt.Fprintf(&sb, "\tdefault: panic(\"no harness\")\n\t}\n\tfmt.Println(\"REPLAY-OK\")\n}\n")
	if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	vdir := filepath.Join(hdir, "zz_"+name)
	ov := map[string]any{"Replace": map[string]string{filepath.Join(vdir, "main.go"): src}}
	ob, _ := json.Marshal(ov)
	ovf := filepath.Join(nb.dir, name+".json")
	os.WriteFile(ovf, ob, 0o644)
	bin := filepath.Join(nb.dir, name+".bin")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if realdb {
		args = append(args, "-tags", "realdb", "-modfile", filepath.Join(hdir, "go.real.mod"))
	}
	args = append(args, "./zz_"+name)
	cmd := exec.Command("go", args...)
	cmd.Dir = hdir
	out, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("native build of %s failed: %v\n%s", key, err, out)
	}
	nb.bins[key], nb.errs[key] = bin, err
	return bin, err
}

var reExported = regexp.MustCompile(`(?m)^func ([A-Z]\w*)\(\) \{`)

func exportedHarnesses(dir string, realdb bool) []string {
	var r []string
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if realdb && strings.Contains(string(b), "//go:build !realdb") {
			continue
		}
		for _, m := range reExported.FindAllStringSubmatch(string(b), -1) {
			r = append(r, m[1])
		}
	}
	sort.Strings(r)
	return r
}

// runNative runs a harness natively on given inputs; it returns the outcome:
// "ok", "assume", "violation <label>", "panic ...", "hang".
func runNative(bin, fn string, inputs []Input, params map[string]int, timeout time.Duration) (string, string) {
	f, err := os.CreateTemp("", "symreplay*.json")
	if err != nil {
		return "error", err.Error()
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(map[string]any{"inputs": inputs, "params": params})
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	tmp, err := os.MkdirTemp("", "symnative")
	if err != nil {
		return "error", err.Error()
	}
	defer os.RemoveAll(tmp)
	cmd := exec.CommandContext(ctx, bin, fn, f.Name())
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	cmd.Dir = tmp
	out, err := cmd.CombinedOutput()
	s := string(out)
	if ctx.Err() != nil {
		return "hang", s
	}
	if i := strings.Index(s, "REPLAY-VIOLATION label="); i >= 0 {
		l := s[i+len("REPLAY-VIOLATION label="):]
		return "violation " + strings.Fields(l)[0], s
	}
	if err == nil && strings.Contains(s, "REPLAY-OK") {
		return "ok", s
	}
	if strings.Contains(s, "all goroutines are asleep") {
		return "hang", s
	}
	if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
		return "panic", s
	}
	if strings.Contains(s, "assumption does not hold") {
		return "assume", s
	}
	return "error", s
}

func confirmNative(bin string, v *Violation, run *RunSpec) (bool, string) {
	res, out := runNative(bin, run.Fn, v.Inputs, run.Params, 20*time.Second)
	tail := out
	if len(tail) > 1500 {
		tail = tail[:1500]
	}
	switch {
	case v.Kind == "assert" && res == "violation "+v.Label:
		return true, "native execution of the compiled code fails the same assertion: " + strings.TrimSpace(tail)
	case v.Kind == "assert" && (strings.HasPrefix(res, "violation ") || res == "panic" || res == "hang"):
		return true, "native execution of the compiled code fails too (" + res + "): " + strings.TrimSpace(tail)
	case v.Kind == "panic" && res == "panic":
		return true, "native execution of the compiled code panics: " + strings.TrimSpace(tail)
	case (v.Kind == "deadlock" || v.Kind == "bound") && res == "hang":
		return true, "native execution of the compiled code hangs"
	}
	return false, "native execution: " + res + ": " + strings.TrimSpace(tail)
}

func checkMain(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	only := fl.String("run", "", "only this harness function")
	verbose := fl.Bool("v", false, "verbose")
	noNative := fl.Bool("nonative", false, "no native validation")
	tierF := fl.String("tier", "", "tier")
	if len(args) < 1 {
		fmt.Println("usage: check ID")
		return 2
	}
	id := args[0]
	fl.Parse(args[1:])
	tier := os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	var spec CheckSpec
	if err := loadJSON(filepath.Join(verifDir(), "checks", id+".json"), &spec); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var known []Known
	if err := loadJSON(filepath.Join(verifDir(), "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fmt.Println("ERROR", err)
		return 2
	}
	debug.SetMemoryLimit(20 << 30)
	var runs []RunSpec
	pkgs := map[string]bool{}
	for _, r := range spec.Runs {
		if *only != "" && r.Fn != *only {
			continue
		}
		if r.Tier != "" && r.Tier != tier {
			continue
		}
		np := map[string]int{}
		for k, v := range r.Params {
			np[k] = v
		}
		if tier == "thorough" {
			for k, v := range r.Thorough {
				np[k] = v
			}
			if r.TPreempt > 0 {
				r.Preempt = r.TPreempt
			}
		}
		r.Params = np
		if r.Budget == 0 {
			r.Budget = 150
		}
		if tier == "thorough" {
			r.Budget *= 10
		}
		runs = append(runs, r)
		pkgs[r.Pkg] = true
	}
	var pats []string
	for p := range pkgs {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	cfg0 := (&RunSpec{}).config()
	if err := prepare(pats); err != nil {
		fmt.Println("ERROR cannot prepare the harnesses:", err)
		return 2
	}
	e, err := loadEngine(filepath.Join(verifDir(), "harness"), pats, cfg0, nil)
	if err != nil {
		fmt.Println("ERROR cannot load the code under test:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nb := &nativeBuilder{dir: tmp, bins: map[string]string{}, errs: map[string]error{}}

	var (
		inconclusive []string // no answer
		uncovered    []string // parts without an answer
		harnesses    []map[string]any
		samples      []any
		funcs        = map[string]bool{}
		totPaths     int64
		totDecs      int64
		totAsserts   int64
		totNontriv   int64
		totQ         int64
		totSat       int64
		totUnsat     int64
		totUnk       int64
		totSolver    float64
		validated    int
		violations   int
		exhaustive   = true
		knownSeen    = map[string]bool{}
	)
	exit := 0
	for ri := range runs {
		r := &runs[ri]
		p := e.pkgByP[r.Pkg]
		if p == nil || p.Func(r.Fn) == nil {
			fmt.Println("ERROR no harness", r.Pkg, r.Fn)
			return 2
		}
		e.cfg = r.config()
		x := newExplorer(e, p.Func(r.Fn), r.Fn)
		x.seed = seed
		x.deadline = time.Now().Add(time.Duration(r.Budget) * time.Second)
		isKnown := func(v Violation) *Known {
			for i := range known {
				k := &known[i]
				if k.Status != "known" || k.Property != id || (k.Harness != "" && k.Harness != r.Fn) || (k.Label != "" && k.Label != v.Label) {
					continue
				}
				if k.Match != "" {
					if ok, _ := regexp.MatchString(k.Match, v.Msg+"\n"+v.Stack+"\n"+strings.Join(v.Notes, "\n")); !ok {
						continue
					}
				}
				return k
			}
			return nil
		}
		x.knownViol = func(v Violation) bool { return isKnown(v) != nil }
		tr := time.Now()
		x.run()
		runS := time.Since(tr).Seconds()
		if x.solverErr != nil {
			inconclusive = append(inconclusive, r.Fn+": solver: "+x.solverErr.Error())
		}
		nUnsupp := 0
		for m, n := range x.unsupp {
			nUnsupp += n
			uncovered = append(uncovered, fmt.Sprintf("%s: %d paths use something the executor does not support: %s", r.Fn, n, m))
			exhaustive = false
		}
		if nUnsupp > 0 && x.donePaths == 0 && len(x.viols) == 0 {
			inconclusive = append(inconclusive, r.Fn+": no path could be executed to its end")
		}
		if x.unknownQ > 0 {
			uncovered = append(uncovered, fmt.Sprintf("%s: the solver gave no verdict on %d paths", r.Fn, x.unknownQ))
			exhaustive = false
		}
		if x.truncated {
			exhaustive = false
			fmt.Printf("NOTE %s: stopped by the %s after %d paths; what was left is not covered\n", r.Fn, x.stopMsg, x.paths)
		}
		newViol := false
		for vi := range x.viols {
			v := &x.viols[vi]
			if k := isKnown(*v); k != nil {
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
				continue
			}
			doc := replayDoc{Property: id, Pkg: r.Pkg, Fn: r.Fn, Params: r.Params, Inputs: v.Inputs, Sched: e.cfg.SchedMode, Preempt: e.cfg.Preempt, Timers: e.cfg.TimerMode, NoPerm: r.NoPerm, Violation: *v, NoNative: r.NoNative}
			ok := false
			how := ""
			det := e.cfg.SchedMode == "det"
			if !r.NoNative && det && v.Kind != "race" {
				bin, err := nb.build(r.Pkg, false)
				if err != nil {
					how = err.Error()
				} else {
					// map order, select and timers are free natively: try more than once
					n := 1
					if v.NSched > 0 {
						n = 25
					}
					for i := 0; i < n && !ok; i++ {
						ok, how = confirmNative(bin, v, r)
					}
					if !ok && v.NSched > 0 {
						// the order that it needs cannot be forced natively
						nat := how
						ok, how = x.confirm(*v)
						how += "; " + nat
					}
				}
			} else {
				// schedule-dependent: re-execute the real code under the recorded decisions
				ok, how = x.confirm(*v)
				if !r.NoNative && ok {
					if bin, err := nb.build(r.Pkg, false); err == nil {
						hit := 0
						const n = 20
						for i := 0; i < n; i++ {
							res, _ := runNative(bin, r.Fn, v.Inputs, r.Params, 10*time.Second)
							if res != "ok" && res != "assume" && res != "error" {
								hit++
							}
							if hit > 0 || res == "hang" {
								break
							}
						}
						how += fmt.Sprintf("; free-running native execution showed it: %v", hit > 0)
					}
				}
			}
			doc.Confirmed = how
			if !ok {
				inconclusive = append(inconclusive, fmt.Sprintf("%s: %s: %s: not confirmed by the replay (%s)", r.Fn, v.Label, firstLine(v.Msg), how))
				if *verbose {
					b, _ := json.MarshalIndent(doc, "", " ")
					fmt.Println(string(b))
				}
				continue
			}
			violations++
			newViol = true
			path := writeReplay(doc)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  harness %s %v\n  %s: %s\n  %s\n", r.Fn, r.Params, v.Label, v.Msg, how)
			exit = 1
		}
		if !newViol && !x.truncated && len(x.viols) == 0 {
			for _, want := range r.Reach {
				if !x.reached[want] {
					inconclusive = append(inconclusive, fmt.Sprintf("%s: vacuous: no path reaches %q", r.Fn, want))
				}
			}
		}
		// validate witnesses against the compiled code
		nval, nflaky := 0, 0
		if !newViol && !r.NoNative && !*noNative && e.cfg.SchedMode == "det" {
			variants := []bool{false}
			if r.RealDB {
				variants = append(variants, true)
			}
			for _, real := range variants {
				bin, err := nb.build(r.Pkg, real)
				if err != nil {
					inconclusive = append(inconclusive, err.Error())
					continue
				}
				type outcome struct{ res, out string }
				first := make([]outcome, len(x.witnesses))
				var nwg sync.WaitGroup
				for i, w := range x.witnesses {
					nwg.Add(1)
					go func() {
						defer nwg.Done()
						first[i].res, first[i].out = runNative(bin, r.Fn, w, r.Params, 60*time.Second)
					}()
				}
				nwg.Wait()
				for i, w := range x.witnesses {
					res, out := first[i].res, first[i].out
					if res == "ok" {
						nval++
						continue
					}
					if strings.HasPrefix(res, "violation ") || res == "panic" || res == "hang" {
						// inputs that the executor chose make the compiled code fail
						again := 0
						for i := 0; i < 5; i++ {
							time.Sleep(200 * time.Millisecond)
							if r2, _ := runNative(bin, r.Fn, w, r.Params, 60*time.Second); r2 == res {
								again++
							}
						}
						if again == 5 && !real && !newViol && !matchKnown(known, id, r.Fn, strings.TrimPrefix(res, "violation "), out) {
							lab := strings.TrimPrefix(res, "violation ")
							doc := replayDoc{Property: id, Pkg: r.Pkg, Fn: r.Fn, Params: r.Params, Inputs: w, Sched: e.cfg.SchedMode, Timers: e.cfg.TimerMode, NoPerm: r.NoPerm,
								Violation: Violation{Harness: r.Fn, Label: lab, Kind: "native", Msg: firstLine(out), Inputs: w}, Confirmed: "native execution of the compiled code fails repeatedly on this witness"}
							path := writeReplay(doc)
							violations++
							newViol = true
							exit = 1
							fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
							fmt.Printf("  harness %s %v\n  %s: %s\n", r.Fn, r.Params, lab, firstLine(out))
							break
						}
						if again < 5 {
							nflaky++
							continue
						}
					}
					if len(out) > 600 {
						out = out[:600]
					}
					inconclusive = append(inconclusive, fmt.Sprintf("%s: a path that the executor finds correct ends natively with %s (real goleveldb: %v): %s inputs %v", r.Fn, res, real, out, w))
				}
			}
		}
		validated += nval
		for f := range x.covered {
			funcs[f] = true
		}
		totPaths += x.paths
		totDecs += x.decisions
		totAsserts += x.asserts
		totNontriv += x.asserts - x.trivial
		totQ += x.queries
		totSat += x.satN
		totUnsat += x.unsatN
		totUnk += x.unkN
		totSolver += x.solverTime.Seconds()
		for i, s := range x.samples {
			if i < 2 {
				samples = append(samples, r.Fn+": "+s)
			}
		}
		harnesses = append(harnesses, map[string]any{"harness": r.Pkg + "." + r.Fn, "params": r.Params, "scheduler": e.cfg.SchedMode, "preemption_bound": e.cfg.Preempt, "timers": e.cfg.TimerMode,
			"bounds": r.Bounds, "paths": x.paths, "completed": x.donePaths, "infeasible": x.infeasible, "sleep_set_pruned": x.redundant, "decisions": x.decisions, "scheduling_decisions": x.schedDecs,
			"assertions": x.asserts, "assertions_decided_by_simplification": x.trivial, "branch_sides_decided_by_byte_domains": x.domN, "queries_answered_from_cache": x.cacheN, "queries": x.queries, "sat": x.satN, "unsat": x.unsatN, "unknown": x.unkN, "solver_s": round2(x.solverTime.Seconds()),
			"run_s": round2(runS), "instructions": x.steps, "reached": sortedKeys(x.reached), "exhausted_within_bounds": !x.truncated, "witnesses_replayed_natively": nval})
		fmt.Printf("%-14s %v sched=%s: %d paths (%d complete), %d assertions, %d queries, solver %.1fs, %.1fs, %d witnesses replayed\n", r.Fn, r.Params, e.cfg.SchedMode, x.paths, x.donePaths, x.asserts, x.queries, x.solverTime.Seconds(), runS, nval)
		if newViol {
			break
		}
	}
	for i := range known {
		k := &known[i]
		if k.Property == id && k.Status == "known" && !knownSeen[k.What] && *only == "" && exit == 0 {
			fmt.Printf("NOTE listed finding did not occur in this run: %s\n", k.What)
		}
	}
	var fl2 []string
	for f := range funcs {
		fl2 = append(fl2, f)
	}
	sort.Strings(fl2)
	cov := map[string]any{
		"states": totPaths, "transitions": totDecs, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":       "states = symbolic paths executed (each one a set of inputs and schedules), transitions = decisions taken on them (branches, choices, context switches)",
		"functions_encoded": fl2, "queries": map[string]any{"total": totQ, "sat": totSat, "unsat": totUnsat, "unknown": totUnk}, "solver_time_s": round2(totSolver),
		"assertions_checked": totAsserts, "assertions_sent_to_solver": totNontriv, "harnesses": harnesses, "bounds": spec.Bounds, "load_s": round2(loadS), "exhaustive": exhaustive,
		"inconclusive": inconclusive, "parts_without_an_answer": uncovered,
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": spec.Level, "coverage": cov, "assumptions": spec.Assumptions, "wall_s": round2(time.Since(t0).Seconds()), "violations": violations}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, m := range uncovered {
		fmt.Println("NOTE", m)
	}
	if exit == 0 && len(inconclusive) > 0 {
		for _, m := range inconclusive {
			fmt.Println("INCONCLUSIVE", m)
		}
		return 2
	}
	return exit
}

func writeReplay(doc replayDoc) string {
	os.MkdirAll(filepath.Join(verifDir(), "replay"), 0o755)
	path := filepath.Join(verifDir(), "replay", fmt.Sprintf("%s-%s-%s.json", doc.Property, doc.Fn, sanitize(doc.Violation.Label)))
	b, _ := json.MarshalIndent(doc, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Println("ERROR", err)
	}
	return path
}

func matchKnown(known []Known, id, fn, label, text string) bool {
	for i := range known {
		k := &known[i]
		if k.Status != "known" || k.Property != id || (k.Harness != "" && k.Harness != fn) || (k.Label != "" && k.Label != label) {
			continue
		}
		if ok, _ := regexp.MatchString(k.Match, text); ok {
			return true
		}
	}
	return false
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

// confirm re-executes the harness under the decisions of a violation.
func (x *Explorer) confirm(v Violation) (bool, string) {
	y := newExplorer(x.eng, x.entry, x.name)
	m := Model{}
	cnt := map[string]int{}
	for _, i := range v.Inputs {
		m[fmt.Sprintf("%s#%d", i.Name, cnt[i.Name])] = i.Val
		cnt[i.Name]++
	}
	in := x.eng.newInterp()
	in.ex = y
	defer in.sol.close()
	p := in.runPath(Item{prefix: v.Decs, model: m})
	y.record(in, p)
	for _, w := range y.viols {
		if w.Label == v.Label && w.Kind == v.Kind {
			return true, fmt.Sprintf("re-execution of the real code under the recorded inputs and schedule (%d context switches) fails the same way", len(v.Sched))
		}
	}
	return false, "re-execution ended with " + p.end.kind + " " + firstLine(p.end.msg)
}

func replayMain(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: replay FILE")
		return 2
	}
	var doc replayDoc
	if err := loadJSON(args[0], &doc); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	r := RunSpec{Pkg: doc.Pkg, Fn: doc.Fn, Params: doc.Params, Sched: doc.Sched, Preempt: doc.Preempt, Timers: doc.Timers, NoPerm: doc.NoPerm, NoNative: doc.NoNative}
	cfg := r.config()
	if err := prepare([]string{doc.Pkg}); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	e, err := loadEngine(filepath.Join(verifDir(), "harness"), []string{doc.Pkg}, cfg, nil)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	x := newExplorer(e, e.pkgByP[doc.Pkg].Func(doc.Fn), doc.Fn)
	ok, how := x.confirm(doc.Violation)
	fmt.Printf("%s: %s\n%s\n", doc.Violation.Label, doc.Violation.Msg, how)
	for _, s := range doc.Violation.Sched {
		fmt.Println("  ", s)
	}
	if !doc.NoNative && cfg.SchedMode == "det" {
		tmp, err := os.MkdirTemp("", "symgo")
		if err != nil {
			return 2
		}
		defer os.RemoveAll(tmp)
		nb := &nativeBuilder{dir: tmp, bins: map[string]string{}, errs: map[string]error{}}
		bin, err := nb.build(doc.Pkg, false)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		nok, nhow := confirmNative(bin, &doc.Violation, &r)
		fmt.Println(nhow)
		ok = ok || nok
	}
	if ok {
		return 1
	}
	return 0
}
