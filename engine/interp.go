package main

// Interpreter core: shared engine, per-worker interpreter, frames, calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine is shared by the workers.
type Engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	mu       sync.Mutex
	canonMap typeutil.Map
	funcs    sync.Map // *ssa.Function -> *Func
	globIdx  map[*ssa.Global]int
	globs    []*ssa.Global
	volatile map[*ssa.Package]bool
	replace  map[string]*ssa.Function // model replacements by full name
	msets    typeutil.MethodSetCache
	methC    sync.Map
	implC    sync.Map
	cfg      *Config
	errStrT  types.Type // runtime.errorString
	pkgByP   map[string]*ssa.Package
	rtypeT   types.Type // *reflect.rtype
	pcs      map[*Func]uint64
}

type Config struct {
	RepoMod    string
	MaxSteps   int64
	MaxDepth   int
	Solver     string
	TimeoutMs  int
	Workers    int
	Preempt    int    // preemption bound; -1 = unbounded with sleep sets
	SchedMode  string // "det", "pb", "full"
	TimerMode  string // "idle", "any"
	MapPerm    bool
	Races      bool // report data races
	MaxPaths   int64
	Concretize int
	Params     map[string]int
}

type Func struct {
	fn                *ssa.Function
	name              string
	nslots            int
	params            []int
	freevars          []int
	blocks            []*Block
	recover           *Block
	hasDefer          bool
	intr              intrinsic
	compiled          bool
	once              sync.Once
	noBody            bool
	pkgPath           string
	isRepo            bool
	results           *types.Tuple
	visible           bool
	libOnce, volatile bool
	quietPkg          bool
	wild              bool
}

type intrinsic func(in *Interp, fr *Frame, args []Value) Value

type instr func(fr *Frame)

type Block struct {
	f    *Func
	idx  int
	code []instr
	pos  []token.Pos
	term func(fr *Frame) *Edge
}

type move struct {
	dst int
	src opd
}
type Edge struct {
	to    *Block
	moves []move
}

type opd struct {
	kind uint8
	idx  int
	v    Value
}

const (
	oSlot = iota
	oConst
	oZero
	oGlobal
)

type Frame struct {
	fn        *Func
	in        *Interp
	g         *G
	caller    *Frame
	slots     []Value
	block     *Block
	cur       int
	result    Value
	defers    *deferRec
	panicking bool
	panicV    any
	depth     int
	callPos   token.Pos
}

type deferRec struct {
	fn   Value
	args []Value
	next *deferRec
	pos  token.Pos
}

// Interp is private to one worker.
type Interp struct {
	domN      int64 // branch sides decided by a byte domain
	cacheN    int64 // queries answered from the cache
	qcache    map[string]cached
	qcacheGen int
	eng       *Engine
	tc        *TermCtx
	sol       *Solver
	globs     []*Value
	pkgInit   map[*ssa.Package]int // 1 running, 2 done
	steps     int64
	ex        *Explorer
	path      *Path
	// function coverage of this worker
	covered       map[*Func]bool
	quiet         int // >0: no scheduling points
	initDep       int
	pendingElemW  int
	pendingSigned bool
}

func (e *Engine) canon(t types.Type) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.canonLocked(t)
}
func (e *Engine) canonLocked(t types.Type) types.Type {
	t = types.Unalias(t)
	if c := e.canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	e.canonMap.Set(t, t)
	return t
}

func (e *Engine) fun(fn *ssa.Function) *Func {
	if f, ok := e.funcs.Load(fn); ok {
		return f.(*Func)
	}
	f := &Func{fn: fn}
	f.name = fn.String()
	if o := fn.Origin(); o != nil {
		f.name = o.String()
	}
	if p := fnPkg(fn); p != nil {
		f.pkgPath = p.Path()
	}
	f.isRepo = strings.HasPrefix(f.pkgPath, e.cfg.RepoMod)
	f.results = fn.Signature.Results()
	f.intr = lookupIntrinsic(e, f)
	f.quietPkg = quietPkgs[f.pkgPath]
	f.libOnce = f.name == "(*sync.Once).Do"
	f.volatile = e.volatile[e.pkgByP[f.pkgPath]]
	a, _ := e.funcs.LoadOrStore(fn, f)
	return a.(*Func)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return obj.Pkg()
		}
	}
	return nil
}

func (e *Engine) compile(f *Func) {
	f.once.Do(func() {
		if r, ok := e.replace[f.name]; ok {
			compileFunc(e, f, r)
			return
		}
		compileFunc(e, f, f.fn)
	})
}

func (fr *Frame) get(o *opd) Value {
	switch o.kind {
	case oSlot:
		return fr.slots[o.idx]
	case oConst:
		return o.v
	case oGlobal:
		return fr.in.global(o.idx)
	case oZero:
		return zero(o.v.(types.Type))
	}
	panic("bad opd")
}

func (in *Interp) global(i int) Ptr {
	if i < len(in.globs) {
		if p := in.globs[i]; p != nil {
			return p
		}
	}
	return in.initGlobal(i)
}

func (in *Interp) initGlobal(i int) Ptr {
	e := in.eng
	e.mu.Lock()
	g := e.globs[i]
	n := len(e.globs)
	e.mu.Unlock()
	for len(in.globs) < n {
		in.globs = append(in.globs, nil)
	}
	if in.globs[i] == nil {
		p := new(Value)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		in.globs[i] = p
	}
	if ov, ok := globalOverride[g.String()]; ok {
		*in.globs[i] = ov(in, g)
		return in.globs[i]
	}
	in.initPkg(g.Pkg)
	return in.globs[i]
}

// initPkg runs a package's initialisation on first access to one of its globals.
func (in *Interp) initPkg(p *ssa.Package) {
	if p == nil || in.pkgInit[p] != 0 {
		return
	}
	in.pkgInit[p] = 1
	initFn := p.Func("init")
	if initFn != nil && !skipInit[p.Pkg.Path()] {
		in.quiet++
		in.initDep++
		f := in.eng.fun(initFn)
		// guard variable must not stop us: it is per worker and false here.
		in.callFn(nil, f, nil, nil)
		in.initDep--
		in.quiet--
	}
	in.pkgInit[p] = 2
}

// resetVolatile forgets the globals of repo/harness/model packages.
func (in *Interp) resetVolatile() {
	for i := range in.globs {
		if in.globs[i] != nil && in.eng.volatile[in.eng.globs[i].Pkg] {
			in.globs[i] = nil
		}
	}
	for p := range in.pkgInit {
		if in.eng.volatile[p] {
			delete(in.pkgInit, p)
		}
	}
}

func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{v: Iface{in.eng.errStrT, msg}, trace: in.stack()})
}

func (in *Interp) callFn(caller *Frame, f *Func, args []Value, env []Value) Value {
	if f.intr != nil {
		return f.intr(in, caller, args)
	}
	return in.callCode(caller, f, args, env)
}

// callBody interprets a function that has an intrinsic.
func (in *Interp) callBody(caller *Frame, pkg, name string, args []Value) Value {
	return in.callCode(caller, in.eng.funcByName(pkg, name), args, nil)
}

func (in *Interp) callCode(caller *Frame, f *Func, args []Value, env []Value) Value {
	if !f.compiled {
		in.eng.compile(f)
	}
	if f.noBody {
		panic(unsupported("function without body: %s", f.name))
	}
	if in.covered != nil && !in.covered[f] {
		in.covered[f] = true
	}
	if f.quietPkg && in.quiet == 0 && in.path != nil && in.path.sched.mode != "det" && in.initDep == 0 {
		// entering an atomic package: one scheduling point, then no more inside
		in.visible(in.path.sched.cur, footprint{wild: true, what: f.name})
		in.quiet++
		defer func() { in.quiet-- }()
	}
	if f.libOnce && caller != nil && !caller.fn.volatile && in.path != nil && in.path.sched.mode != "det" {
		// Library state outlives a path, so whether the function still has to run depends on earlier paths: it takes no part in the schedule.
		in.quiet++
		defer func() { in.quiet-- }()
	}
	fr := &Frame{fn: f, in: in, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.g = caller.g
		if fr.depth > in.eng.cfg.MaxDepth {
			panic(pathEnd{"bound", "call depth bound exceeded in " + f.name})
		}
	} else if in.path != nil {
		fr.g = in.path.sched.cur
	}
	if fr.g != nil {
		old := fr.g.top
		fr.g.top = fr
		fr.slots = make([]Value, f.nslots)
		for i, p := range f.params {
			fr.slots[p] = args[i]
		}
		for i, p := range f.freevars {
			fr.slots[p] = env[i]
		}
		fr.block = f.blocks[0]
		fr.exec()
		fr.g.top = old
		return fr.result
	}
	fr.slots = make([]Value, f.nslots)
	for i, p := range f.params {
		fr.slots[p] = args[i]
	}
	for i, p := range f.freevars {
		fr.slots[p] = env[i]
	}
	fr.block = f.blocks[0]
	fr.exec()
	return fr.result
}

func (fr *Frame) exec() {
	if !fr.fn.hasDefer {
		fr.run()
		return
	}
	for fr.block != nil {
		fr.runProtected()
	}
}

func (fr *Frame) runProtected() {
	defer func() {
		if fr.block == nil {
			return
		}
		p := recover()
		switch p.(type) {
		case targetPanic:
		default:
			panic(p)
		}
		fr.panicking = true
		fr.panicV = p
		if fr.g != nil {
			fr.g.top = fr
		}
		fr.runDefers()
		if fr.fn.recover != nil {
			fr.block = fr.fn.recover
		} else {
			fr.block = nil
			if fr.fn.results.Len() == 1 {
				fr.result = zero(fr.fn.results.At(0).Type())
			} else if fr.fn.results.Len() > 1 {
				fr.result = zero(fr.fn.results)
			}
		}
	}()
	fr.run()
	fr.block = nil
}

func (fr *Frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		p := fr.panicV
		panic(p)
	}
}

func (fr *Frame) runDefer(d *deferRec) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			if tp, is := p.(targetPanic); is {
				fr.panicking = true
				fr.panicV = tp
				if fr.g != nil {
					fr.g.top = fr
				}
				return
			}
			panic(p)
		}
	}()
	fr.in.callValue(fr, d.fn, d.args)
	ok = true
}

func (fr *Frame) run() {
	in := fr.in
	for {
		b := fr.block
		in.steps += int64(len(b.code)) + 1
		if in.steps > in.eng.cfg.MaxSteps {
			panic(pathEnd{"bound", fmt.Sprintf("step bound %d exceeded in %s", in.eng.cfg.MaxSteps, fr.fn.name)})
		}
		for i, c := range b.code {
			fr.cur = i
			c(fr)
		}
		fr.cur = len(b.code)
		e := b.term(fr)
		if e == nil {
			return
		}
		switch len(e.moves) {
		case 0:
		case 1:
			fr.slots[e.moves[0].dst] = fr.get(&e.moves[0].src)
		default:
			var tmp [8]Value
			t := tmp[:0]
			for i := range e.moves {
				t = append(t, fr.get(&e.moves[i].src))
			}
			for i := range e.moves {
				fr.slots[e.moves[i].dst] = t[i]
			}
		}
		fr.block = e.to
	}
}

// callValue calls a function value (closure or builtin).
func (in *Interp) callValue(fr *Frame, fv Value, args []Value) Value {
	switch fv := fv.(type) {
	case *Closure:
		if fv == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if fv.native != nil {
			return fv.native(in, fr, args)
		}
		return in.callFn(fr, fv.fn, args, fv.env)
	case *Func:
		return in.callFn(fr, fv, args, nil)
	case builtinVal:
		return in.callBuiltin(fr, fv, args)
	}
	panic(unsupported("call of %T", fv))
}

type builtinVal struct {
	name string
	args []types.Type
	res  types.Type
}

func (fr *Frame) position() token.Pos {
	if fr.block == nil {
		return token.NoPos
	}
	if fr.cur < len(fr.block.pos) {
		return fr.block.pos[fr.cur]
	}
	return token.NoPos
}

// stack renders the interpreted call stack of the current goroutine.
func (in *Interp) stack() string {
	if in.path == nil || in.path.sched == nil || in.path.sched.cur == nil {
		return ""
	}
	return in.stackOf(in.path.sched.cur)
}

func (in *Interp) stackOf(g *G) string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 40; fr = fr.caller {
		pos := in.eng.fset.Position(fr.position())
		f := pos.Filename
		if i := strings.LastIndex(f, "/"); i >= 0 {
			if j := strings.LastIndex(f[:i], "/"); j >= 0 {
				f = f[j+1:]
			}
		}
		fmt.Fprintf(&sb, "%s (%s:%d)\n", fr.fn.name, f, pos.Line)
		n++
	}
	return sb.String()
}

// guard runs f and classifies the way it ended.
func (in *Interp) guard(f func()) (end *pathEnd, tp *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end = &r
			case targetPanic:
				tp = &r
			case unsup:
				end = &pathEnd{"unsupported", r.msg + "\n" + in.stack()}
			case runtime.Error:
				end = &pathEnd{"unsupported", fmt.Sprintf("engine error: %v\n%s\n%s", r, in.stack(), debug.Stack())}
			case string:
				end = &pathEnd{"unsupported", fmt.Sprintf("engine error: %v\n%s\n%s", r, in.stack(), debug.Stack())}
			default:
				end = &pathEnd{"unsupported", fmt.Sprintf("engine error: %v\n%s\n%s", r, in.stack(), debug.Stack())}
			}
		}
	}()
	f()
	return nil, nil
}

// method finds the concrete method implementing an interface call.
type methKey struct {
	t    types.Type
	pkg  *types.Package
	name string
}

func (e *Engine) method(t types.Type, pkg *types.Package, name string) *Func {
	if token.IsExported(name) {
		pkg = nil
	}
	k := methKey{t, pkg, name}
	if f, ok := e.methC.Load(k); ok {
		return f.(*Func)
	}
	e.mu.Lock()
	fn := e.prog.LookupMethod(t, pkg, name)
	e.mu.Unlock()
	if fn == nil {
		return nil
	}
	f := e.fun(fn)
	e.methC.Store(k, f)
	return f
}

type implKey struct {
	t types.Type
	i types.Type
}

func (e *Engine) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if b, ok := e.implC.Load(k); ok {
		return b.(bool)
	}
	e.mu.Lock()
	ms := e.msets.MethodSet(t)
	iface := it.Underlying().(*types.Interface)
	ok := true
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil || !types.Identical(sel.Type(), m.Type()) {
			ok = false
			break
		}
	}
	e.mu.Unlock()
	e.implC.Store(k, ok)
	return ok
}

// callMethod calls method name on an interface value.
func (in *Interp) callMethod(fr *Frame, v Iface, name string, args ...Value) Value {
	if v.T == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	var pkg *types.Package
	f := in.eng.method(v.T, pkg, name)
	if f == nil {
		panic(unsupported("no method %s on %s", name, v.T))
	}
	return in.callFn(fr, f, append([]Value{v.V}, args...), nil)
}

func (in *Interp) hasMethod(v Iface, name string) bool {
	if v.T == nil {
		return false
	}
	in.eng.mu.Lock()
	defer in.eng.mu.Unlock()
	return in.eng.msets.MethodSet(v.T).Lookup(nil, name) != nil
}

func (in *Interp) coveredNames() []string {
	var r []string
	for f := range in.covered {
		if f.isRepo {
			r = append(r, f.name)
		}
	}
	sort.Strings(r)
	return r
}
