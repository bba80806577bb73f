package main

// Path exploration: every path is a re-execution of the harness under a prefix
// of decisions; new branches ask the solver for the other side.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Item struct {
	prefix []int64
	model  Model
}

type Input struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
}

type Violation struct {
	Harness string   `json:"harness"`
	Label   string   `json:"label"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Inputs  []Input  `json:"inputs"`
	Sched   []string `json:"schedule,omitempty"`
	Decs    []int64  `json:"decisions"`
	Stack   string   `json:"stack,omitempty"`
	Notes   []string `json:"notes,omitempty"`
	NSched  int      `json:"sched_decisions"`
}

type Path struct {
	prefix   []int64
	decs     []int64
	labels   []string
	model    Model
	pcset    map[*Term]bool
	npc      int
	counts   map[string]int
	vars     []*Term
	varNames []string
	sched    *Sched
	nchan    int
	end      *pathEnd
	once     sync.Once
	races    *raceState
	viol     *Violation
	notes    []string
	reached  map[string]bool
	asserts  int
	trivial  int
	unknown  bool
	nsched   int
	uuidN    int
	side     map[any]any
	nsymsel  int
	concrete map[string][]uint64 // concrete replay values, nil when symbolic
	flushed  bool
	atomics  map[Ptr]Value
	dom      *doms
	slice    *slicer
	ended    time.Time
}


func (p *Path) finish(e pathEnd) {
	p.once.Do(func() {
		p.end = &e
		close(p.sched.done)
	})
}

type Explorer struct {
	eng     *Engine
	entry   *ssa.Function
	name    string
	mu      sync.Mutex
	cond    *sync.Cond
	work    []Item
	active  int
	stop    bool
	stopMsg string

	paths, donePaths, redundant, infeasible int64
	boundEnds                               map[string]int
	unsupp                                  map[string]int
	viols                                   []Violation
	violSeen                                map[string]bool
	reached                                 map[string]bool
	asserts, trivial                        int64
	steps                                   int64
	covered                                 map[string]bool
	unknownQ                                int64
	domN, cacheN                            int64
	queries, satN, unsatN, unkN             int64
	solverTime                              time.Duration
	deadline                                time.Time
	samples                                 []string
	decisions, schedDecs                    int64
	maxViol                                 int
	knownViol                               func(v Violation) bool
	truncated                               bool
	switches                                int64
	solverErr                               error
	witnesses                               [][]Input
	seed                                    int
	rng                                     uint64
}

const maxWitnesses = 5

func newExplorer(e *Engine, entry *ssa.Function, name string) *Explorer {
	x := &Explorer{eng: e, entry: entry, name: name, boundEnds: map[string]int{}, unsupp: map[string]int{}, violSeen: map[string]bool{},
		reached: map[string]bool{}, covered: map[string]bool{}, maxViol: 1}
	x.cond = sync.NewCond(&x.mu)
	x.work = []Item{{}}
	return x
}

func (e *Engine) newInterp() *Interp {
	in := &Interp{eng: e, tc: newTermCtx(), pkgInit: map[*ssa.Package]int{}, covered: map[*Func]bool{}}
	in.sol = newSolver(e.cfg.Solver, e.cfg.TimeoutMs)
	return in
}

func (x *Explorer) run() {
	var wg sync.WaitGroup
	for w := 0; w < x.eng.cfg.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := x.eng.newInterp()
			in.ex = x
			defer in.sol.close()
			for {
				it, ok := x.next()
				if !ok {
					break
				}
				p := in.runPath(it)
				x.record(in, p)
			}
			x.mu.Lock()
			for f := range in.covered {
				if f.isRepo {
					x.covered[f.name] = true
				}
			}
			x.domN += in.domN
			x.cacheN += in.cacheN
			x.queries += in.sol.Queries
			x.satN += in.sol.SatN
			x.unsatN += in.sol.UnsatN
			x.unkN += in.sol.UnknownN
			x.solverTime += in.sol.Time
			if in.sol.err != nil {
				x.solverErr = in.sol.err
			}
			x.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (x *Explorer) next() (Item, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return Item{}, false
		}
		if len(x.work) > 0 {
			it := x.work[len(x.work)-1]
			x.work = x.work[:len(x.work)-1]
			x.active++
			return it, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return Item{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) push(it Item) {
	x.mu.Lock()
	x.work = append(x.work, it)
	x.cond.Signal()
	x.mu.Unlock()
}

func (x *Explorer) record(in *Interp, p *Path) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.active--
	x.paths++
	x.asserts += int64(p.asserts)
	x.trivial += int64(p.trivial)
	x.steps += in.steps
	x.decisions += int64(len(p.decs))
	x.schedDecs += int64(p.nsched)
	x.switches += int64(p.sched.switches)
	if p.unknown {
		x.unknownQ++
	}
	for r := range p.reached {
		x.reached[r] = true
	}
	switch p.end.kind {
	case "done":
		x.donePaths++
		if len(x.samples) < 3 || (x.donePaths&(x.donePaths-1) == 0 && len(x.samples) < 8) {
			x.samples = append(x.samples, sample(in, p))
		}
		// keep a few completed paths, spread over the run, for native validation
		x.rng = x.rng*6364136223846793005 + uint64(x.seed)*2 + 1442695040888963407
		if len(x.witnesses) < maxWitnesses {
			x.witnesses = append(x.witnesses, in.inputsOf(p))
		} else if k := (x.rng >> 33) % uint64(x.donePaths); k < maxWitnesses {
			x.witnesses[k] = in.inputsOf(p)
		}
	case "infeasible":
		x.infeasible++
	case "redundant":
		x.redundant++
	case "bound":
		x.boundEnds[firstLine(p.end.msg)]++
		x.addViol(in, p, "bound", p.end.msg)
	case "unsupported":
		x.unsupp[p.end.msg]++
	case "violation":
		x.addViolation(*p.viol)
	case "panic", "deadlock":
		x.addViol(in, p, p.end.kind, p.end.msg)
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) && (len(x.work) > 0 || x.active > 0) {
		x.stop, x.stopMsg, x.truncated = true, "time budget", true
	}
	if x.eng.cfg.MaxPaths > 0 && x.paths >= x.eng.cfg.MaxPaths && len(x.work) > 0 {
		x.stop, x.stopMsg, x.truncated = true, "path budget", true
	}
	if x.stop || (x.active == 0 && len(x.work) == 0) {
		x.cond.Broadcast()
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (x *Explorer) addViol(in *Interp, p *Path, kind, msg string) {
	x.addViolation(in.mkViolation(p, kind, kind, msg))
}

func (x *Explorer) addViolation(v Violation) {
	v.Harness = x.name
	key := v.Label + "|" + v.Kind
	if v.Kind == "panic" || v.Kind == "deadlock" || v.Kind == "bound" {
		key += firstLine(v.Msg)
	}
	if x.violSeen[key] {
		return
	}
	x.violSeen[key] = true
	x.viols = append(x.viols, v)
	if x.knownViol != nil && x.knownViol(v) {
		return
	}
	n := 0
	for _, w := range x.viols {
		if w.Kind != "bound" && (x.knownViol == nil || !x.knownViol(w)) {
			n++
		}
	}
	if n >= x.maxViol || len(x.viols) > 20 {
		x.stop, x.stopMsg = true, "violation found"
	}
}

func sample(in *Interp, p *Path) string {
	var parts []string
	for _, i := range in.inputsOf(p) {
		parts = append(parts, fmt.Sprintf("%s=%d", i.Name, i.Val))
		if len(parts) > 40 {
			break
		}
	}
	s := fmt.Sprintf("path with %d decisions, %d path-condition conjuncts, %d assertions; one witness: %s", len(p.decs), p.npc, p.asserts, strings.Join(parts, " "))
	if len(p.sched.trace) > 0 {
		t := p.sched.trace
		if len(t) > 30 {
			t = t[:30]
		}
		s += "; switches: " + strings.Join(t, ", ")
	}
	return s
}

func (in *Interp) inputsOf(p *Path) []Input {
	var r []Input
	for i, v := range p.vars {
		r = append(r, Input{p.varNames[i], p.model[v.name] & maskB(v.w)})
	}
	return r
}

func (in *Interp) mkViolation(p *Path, kind, label, msg string) Violation {
	v := Violation{Kind: kind, Label: label, Msg: msg, Inputs: in.inputsOf(p), Decs: append([]int64(nil), p.decs...), Notes: p.notes, NSched: p.nsched}
	v.Sched = append([]string(nil), p.sched.trace...)
	return v
}

// runPath executes the harness once.
func (in *Interp) runPath(it Item) *Path {
	p := &Path{prefix: it.prefix, model: it.model, pcset: map[*Term]bool{}, counts: map[string]int{}, reached: map[string]bool{}, side: map[any]any{}, dom: newDoms(), slice: newSlicer()}
	if p.model == nil {
		p.model = Model{}
	}
	if len(in.tc.tab) > 400000 {
		in.tc.reset()
	}
	in.tc.newEval()
	in.steps = 0
	in.quiet = 0
	in.initDep = 0
	in.resetVolatile()
	cfg := in.eng.cfg
	s := &Sched{in: in, mode: cfg.SchedMode, done: make(chan struct{}), sleep: map[*G]bool{}, bound: cfg.Preempt, timerMode: cfg.TimerMode,
		mutexes: map[Ptr]*mutexState{}, wgs: map[Ptr]*wgState{}, conds: map[Ptr][]*waiter{}, now: 1600000000 * 1e9}
	p.sched = s
	if cfg.Races {
		p.races = newRaceState()
	}
	in.path = p
	main := s.newG("harness")
	main.isMain = true
	main.fresh = false
	s.cur = main
	f := in.eng.fun(in.ex.entry)
	s.startG(main, func() {
		in.callFn(nil, f, nil, nil)
	})
	main.resume <- struct{}{}
	<-s.done
	s.killAll()
	in.path = nil
	return p
}

// ---- decisions ----

func (p *Path) replaying() bool { return len(p.decs) < len(p.prefix) }

func (in *Interp) addPC(t *Term) {
	p := in.path
	if t.isConst() || p.pcset[t] {
		return
	}
	p.pcset[t] = true
	if t.op == OAnd {
		in.addPC(t.a)
		in.addPC(t.b)
		return
	}
	p.dom.learn(in.tc, t)
	p.slice.add(t)
	p.npc++
}

func (in *Interp) setModel(m Model) {
	in.path.model = m
	in.tc.newEval()
}

func (in *Interp) implied(t *Term) (bool, bool) {
	p := in.path
	if t.isConst() {
		return t.val != 0, true
	}
	if p.pcset[t] {
		return true, true
	}
	if p.pcset[in.tc.Not(t)] {
		return false, true
	}
	return p.dom.decide(in.tc, t)
}

// branch decides a symbolic condition, forking the path when both sides are feasible.
func (in *Interp) branch(t *Term) bool {
	if v, ok := in.implied(t); ok {
		return v
	}
	p := in.path
	if p == nil {
		panic(unsupported("symbolic branch outside a path"))
	}
	if p.replaying() {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		if d != 0 {
			in.addPC(t)
			return true
		}
		in.addPC(in.tc.Not(t))
		return false
	}
	val := in.tc.Eval(t, p.model) != 0
	taken, other := t, in.tc.Not(t)
	d := int64(1)
	if !val {
		taken, other = other, taken
		d = 0
	}
	var res Result
	var m Model
	if v, x, ok := p.dom.pick(in.tc, other); ok {
		in.domN++
		res, m = Sat, cloneModel(p.model)
		m[v.name] = x
	} else {
		res, m = in.query(other)
	}
	switch res {
	case Sat:
		np := make([]int64, len(p.decs)+1)
		copy(np, p.decs)
		np[len(p.decs)] = 1 - d
		in.ex.push(Item{np, m})
	case Unknown:
		p.unknown = true
	}
	p.decs = append(p.decs, d)
	in.addPC(taken)
	return val
}

func (in *Interp) branchV(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return in.branch(v)
	}
	panic("branchV")
}

// choose introduces a fresh decision variable with n values and forks over them.
func (in *Interp) choose(n int, label string) int {
	p := in.path
	if n <= 1 {
		return 0
	}
	if label == "sched" || label == "select" || label == "timer" || label == "maporder" {
		p.nsched++
	}
	v := in.freshVar(label, 8)
	in.addPC(in.tc.Cmp(OUlt, v, in.tc.Const(uint64(n), 8)))
	if p.replaying() {
		d := p.prefix[len(p.decs)]
		p.decs = append(p.decs, d)
		in.addPC(in.tc.Eq(v, in.tc.Const(uint64(d), 8)))
		if p.model[v.name] != uint64(d) {
			m := cloneModel(p.model)
			m[v.name] = uint64(d)
			in.setModel(m)
		}
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		np := make([]int64, len(p.decs)+1)
		copy(np, p.decs)
		np[len(p.decs)] = int64(i)
		m := cloneModel(p.model)
		m[v.name] = uint64(i)
		in.ex.push(Item{np, m})
	}
	p.decs = append(p.decs, 0)
	in.addPC(in.tc.Eq(v, in.tc.Const(0, 8)))
	if p.model[v.name] != 0 {
		m := cloneModel(p.model)
		m[v.name] = 0
		in.setModel(m)
	}
	return 0
}

func cloneModel(m Model) Model {
	r := make(Model, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (in *Interp) freshVar(name string, w int) *Term {
	p := in.path
	k := p.counts[name]
	p.counts[name]++
	t := in.tc.Var(fmt.Sprintf("%s#%d", name, k), w)
	p.vars = append(p.vars, t)
	p.varNames = append(p.varNames, name)
	return t
}

func (in *Interp) assume(v Value) {
	t := in.toBool(v)
	if r, ok := in.implied(t); ok {
		if !r {
			panic(pathEnd{"infeasible", "assumption"})
		}
		return
	}
	p := in.path
	if in.tc.Eval(t, p.model) == 0 {
		res, m := in.query(t)
		switch res {
		case Sat:
			in.setModel(m)
		case Unsat:
			panic(pathEnd{"infeasible", "assumption"})
		default:
			p.unknown = true
			panic(pathEnd{"infeasible", "assumption undecided"})
		}
	}
	in.addPC(t)
}

func (in *Interp) assert(v Value, label, msg string) {
	p := in.path
	p.asserts++
	t := in.toBool(v)
	if r, ok := in.implied(t); ok {
		p.trivial++
		if !r {
			in.violate(label, msg)
		}
		return
	}
	if in.tc.Eval(t, p.model) == 0 {
		in.violate(label, msg)
	}
	res, m := in.query(in.tc.Not(t))
	switch res {
	case Sat:
		in.setModel(m)
		in.violate(label, msg)
	case Unknown:
		p.unknown = true
	}
	in.addPC(t)
}

func (in *Interp) violate(label, msg string) {
	p := in.path
	kind := "assert"
	if label == "race" {
		kind = "race"
	}
	v := in.mkViolation(p, kind, label, msg)
	v.Stack = in.stack()
	p.viol = &v
	panic(pathEnd{"violation", label + ": " + msg})
}

// concretize splits on the feasible values of a term.
func (in *Interp) concretize(t *Term) uint64 {
	if debugConc && !t.isConst() {
		println("CONC", in.stack())
	}
	if t.isConst() {
		return t.val
	}
	for i := 0; ; i++ {
		if i > in.eng.cfg.Concretize {
			panic(unsupported("too many values to concretise: %s", t))
		}
		// the candidate value is itself recorded, so that a replay under
		// another model tries the same values
		p := in.path
		var v uint64
		if p.replaying() {
			v = uint64(p.prefix[len(p.decs)])
		} else {
			v = in.tc.Eval(t, p.model)
		}
		p.decs = append(p.decs, int64(v))
		if in.branch(in.tc.Eq(t, in.tc.Const(v, t.w))) {
			return v
		}
	}
}

var debugConc = os.Getenv("SYMGO_CONC") != ""

func (in *Interp) concInt(v Value, w int) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return norm(in.concretize(v), v.w, false)
	}
	panic(unsupported("concInt of %T", v))
}

// concStr returns a concrete string (forking when needed).
func (in *Interp) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(in.concInt(x, 8))
		}
		return string(b)
	}
	panic(unsupported("concStr of %T", v))
}

func (in *Interp) panicString(tp targetPanic) string {
	s := "panic: "
	if i, ok := tp.v.(Iface); ok {
		if i.T == nil {
			s += "nil"
		} else {
			switch v := i.V.(type) {
			case string:
				s += v
			default:
				s += types.TypeString(i.T, nil)
				if in.hasMethod(i, "Error") {
					end, _ := in.guard(func() {
						r := in.callMethod(nil, i, "Error")
						if str, ok := r.(string); ok {
							s += ": " + str
						}
					})
					_ = end
				}
			}
		}
	}
	return s + "\n" + tp.trace
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var debugOut = os.Getenv("SYM_DEBUG") != ""
