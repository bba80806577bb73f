package main

// Intrinsics: functions of the environment that are modelled instead of
// being interpreted from source.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var quietPkgs = map[string]bool{"context": true, "encoding/json": true, "reflect": true}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/cpu": true, "internal/godebug": true, "internal/poll": true,
	"reflect": true, "internal/reflectlite": true, "internal/syscall/unix": true, "internal/abi": true, "fmt": true, "log": true,
	"sync": true, "internal/sync": true, "sync/atomic": true, "crypto/internal/fips140": true, "crypto/internal/fips140/check": true,
	"internal/bytealg": true, "net": true, "crypto/rand": true, "crypto/aes": true, "crypto/cipher": true, "golang.org/x/crypto/chacha20poly1305": true,
}

var globalOverride = map[string]func(in *Interp, g *ssa.Global) Value{
	"crypto/rand.Reader": func(in *Interp, g *ssa.Global) Value {
		if in.eng.pkgByP["verif/mcrypto"] == nil {
			return Iface{}
		}
		return Iface{T: in.eng.namedType("verif/mcrypto", "Rand"), V: Struct{}}
	},
}

var intrinsics = map[string]intrinsic{}

// prefix intrinsics: every function of these packages is a no-op returning zero values
var nopFuncs = map[string]bool{}

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func lookupIntrinsic(e *Engine, f *Func) intrinsic {
	if i, ok := intrinsics[f.name]; ok {
		return i
	}
	if f.name == "reflect.TypeFor" {
		t := f.fn.TypeArgs()[0]
		return func(in *Interp, fr *Frame, args []Value) Value { return in.rtype(t) }
	}
	if f.name == "reflect.TypeAssert" && len(f.fn.TypeArgs()) == 1 {
		t := f.fn.TypeArgs()[0]
		return func(in *Interp, fr *Frame, args []Value) Value { return in.typeAssert(t, in.rarg(args[0])) }
	}
	if f.pkgPath == "reflect" && !reflectReal[f.name] && (f.fn.Synthetic == "" || len(f.fn.TypeArgs()) > 0) {
		n := f.name
		return func(in *Interp, fr *Frame, args []Value) Value { panic(unsupported("%s", n)) }
	}
	if nopFuncs[f.name] || strings.Contains(f.name, ".file_") && strings.HasSuffix(f.name, "_proto_init") { // the latter: protobuf descriptors
		res := f.results
		return func(in *Interp, fr *Frame, args []Value) Value {
			switch res.Len() {
			case 0:
				return nil
			case 1:
				return zero(res.At(0).Type())
			}
			return zero(res)
		}
	}
	return nil
}

func (e *Engine) funcByName(pkg, name string) *Func {
	p := e.pkgByP[pkg]
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	fn := p.Func(name)
	if fn == nil {
		panic(unsupported("function %s.%s not found", pkg, name))
	}
	return e.fun(fn)
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgByP[pkg]
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	t := p.Type(name)
	if t == nil {
		panic(unsupported("type %s.%s not found", pkg, name))
	}
	return e.canon(t.Type())
}

// field returns a pointer to the named field of the struct at p.
func (in *Interp) fieldOf(p Ptr, i int) Ptr {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return &(*p).(Struct)[i]
}

func intArg(in *Interp, v Value) int { return int(int64(in.concInt(v, 64))) }

// mkErr builds an error value with errors.New.
func (in *Interp) mkErr(fr *Frame, msg Value) Value {
	return in.callFn(fr, in.eng.funcByName("errors", "New"), []Value{msg}, nil)
}

func init() {
	// ---- sym ----
	const S = "verif/sym."
	reg(S+"Bool", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(a[0].(string), 0) })
	reg(S+"Byte", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(a[0].(string), 8) })
	reg(S+"U64", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(a[0].(string), 64) })
	reg(S+"I64", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(a[0].(string), 64) })
	reg(S+"U32", func(in *Interp, fr *Frame, a []Value) Value { return in.freshVar(a[0].(string), 32) })
	reg(S+"Int", func(in *Interp, fr *Frame, a []Value) Value {
		v := in.freshVar(a[0].(string), 64)
		lo, hi := in.toTerm(a[1], 64), in.toTerm(a[2], 64)
		in.assume(fromBool(in.tc.And(in.tc.Not(in.tc.Cmp(OSlt, v, lo)), in.tc.Not(in.tc.Cmp(OSlt, hi, v)))))
		return v
	})
	reg(S+"Choose", func(in *Interp, fr *Frame, a []Value) Value {
		n := intArg(in, a[1])
		return uint64(in.choose(n, a[0].(string)))
	})
	reg(S+"Bytes", func(in *Interp, fr *Frame, a []Value) Value {
		n := intArg(in, a[1])
		r := make(Slice, n)
		for i := range r {
			r[i] = in.freshVar(a[0].(string), 8)
		}
		return r
	})
	reg(S+"Str", func(in *Interp, fr *Frame, a []Value) Value {
		n := intArg(in, a[1])
		r := make([]Value, n)
		for i := range r {
			r[i] = in.freshVar(a[0].(string), 8)
		}
		return mkStr(r)
	})
	reg(S+"Assume", func(in *Interp, fr *Frame, a []Value) Value { in.assume(a[0]); return nil })
	reg(S+"Assert", func(in *Interp, fr *Frame, a []Value) Value {
		in.assert(a[0], in.concStr(a[1]), in.fmtNoFork(a[2]))
		return nil
	})
	reg(S+"Fail", func(in *Interp, fr *Frame, a []Value) Value {
		in.path.asserts++
		in.violate(in.concStr(a[0]), in.fmtNoFork(a[1]))
		return nil
	})
	reg(S+"Reach", func(in *Interp, fr *Frame, a []Value) Value {
		in.path.reached[a[0].(string)] = true
		return nil
	})
	reg(S+"Note", func(in *Interp, fr *Frame, a []Value) Value {
		in.path.notes = append(in.path.notes, in.fmtNoFork(a[0]))
		return nil
	})
	reg(S+"Err", func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return "nil"
		}
		switch n := types.TypeString(i.T, nil); n {
		case "*errors.errorString", "*fmt.wrapError":
			return in.fmtNoFork(in.callMethod(fr, i, "Error"))
		default:
			return n
		}
	})
	reg("github.com/lib/pq.unsupported", func(in *Interp, fr *Frame, a []Value) Value {
		panic(unsupported("SQL model: %s", in.concStr(a[0])))
	})
	reg("(*verif/h/kit.Mutex).Lock (*verif/h/kit.Mutex).Unlock (*github.com/syndtr/goleveldb/leveldb.nlock).Lock (*github.com/syndtr/goleveldb/leveldb.nlock).Unlock", func(in *Interp, fr *Frame, a []Value) Value { return nil })
	reg(S+"Symbolic", func(in *Interp, fr *Frame, a []Value) Value { return true })
	reg(S+"Param", func(in *Interp, fr *Frame, a []Value) Value {
		if v, ok := in.eng.cfg.Params[a[0].(string)]; ok {
			return uint64(int64(v))
		}
		return a[1]
	})
	reg(S+"Concrete", func(in *Interp, fr *Frame, a []Value) Value { return norm(in.concInt(a[0], 64), 64, true) })
	reg(S+"ConcreteU64", func(in *Interp, fr *Frame, a []Value) Value { return in.concInt(a[0], 64) })
	reg(S+"And", func(in *Interp, fr *Frame, a []Value) Value {
		return fromBool(in.tc.And(in.toBool(a[0]), in.toBool(a[1])))
	})
	reg(S+"Or", func(in *Interp, fr *Frame, a []Value) Value {
		return fromBool(in.tc.Or(in.toBool(a[0]), in.toBool(a[1])))
	})
	reg(S+"Implies", func(in *Interp, fr *Frame, a []Value) Value {
		return fromBool(in.tc.Or(in.tc.Not(in.toBool(a[0])), in.toBool(a[1])))
	})
	reg(S+"IteU64", func(in *Interp, fr *Frame, a []Value) Value {
		return fromInt(in.tc.Ite(in.toBool(a[0]), in.toTerm(a[1], 64), in.toTerm(a[2], 64)), false)
	})
	reg(S+"StrEq", func(in *Interp, fr *Frame, a []Value) Value { return in.equal(a[0], a[1]) })
	reg(S+"BytesEq", func(in *Interp, fr *Frame, a []Value) Value {
		return in.equal(mkStr(append([]Value(nil), a[0].(Slice)...)), mkStr(append([]Value(nil), a[1].(Slice)...)))
	})
	reg(S+"Quiesce", func(in *Interp, fr *Frame, a []Value) Value {
		g := in.curG()
		g.quiesce = true
		in.park(g, func() bool { return true }, footprint{wild: true, what: "quiesce"}, "quiesce")
		if in.racing() != nil {
			for _, x := range in.path.sched.gs {
				in.handOver(x, g)
			}
		}
		return nil
	})
	reg(S+"Blocked", func(in *Interp, fr *Frame, a []Value) Value {
		return uint64(len(in.path.sched.blockedOthers()))
	})
	reg(S+"BlockedDesc", func(in *Interp, fr *Frame, a []Value) Value {
		return strings.Join(in.path.sched.blockedOthers(), "; ")
	})
	reg(S+"NowNanos", func(in *Interp, fr *Frame, a []Value) Value { return uint64(in.path.sched.now) })
	reg(S+"SetSched", func(in *Interp, fr *Frame, a []Value) Value {
		// switches the scheduler mode from here on ("det" for set-up phases)
		s := in.path.sched
		m := a[0].(string)
		if m == "cfg" {
			m = in.eng.cfg.SchedMode
		}
		s.mode = m
		return nil
	})
	reg(S+"Caught", func(in *Interp, fr *Frame, a []Value) Value {
		// runs f, reports whether it panicked
		ok := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, is := r.(targetPanic); is {
						ok = true
						in.path.notes = append(in.path.notes, firstLine(in.panicString(tp)))
						if fr != nil && fr.g != nil {
							fr.g.top = fr
						}
						return
					}
					panic(r)
				}
			}()
			in.callValue(fr, a[0], nil)
		}()
		return ok
	})

	// ---- runtime & friends ----
	for _, n := range strings.Fields(`runtime.Gosched runtime.GC runtime.KeepAlive runtime.SetFinalizer runtime.LockOSThread runtime.UnlockOSThread
		runtime/debug.SetGCPercent runtime.NumGoroutine (*strings.Builder).copyCheck internal/race.Acquire internal/race.Release internal/race.Disable internal/race.Enable
		internal/race.ReadRange internal/race.WriteRange internal/race.Read internal/race.Write internal/race.ReleaseMerge runtime.Callers internal/godebug.setUpdate internal/godebug.registerMetric
		internal/godebug.setNewIncNonDefault (*internal/godebug.Setting).IncNonDefault (*internal/godebug.Setting).Value internal/godebug.New
		log.Printf log.Println log.Print (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Print (*log.Logger).Output log.Output log.SetOutput log.SetFlags
		os.runtime_args syscall.runtime_envs runtime.Stack runtime/debug.PrintStack
		crypto/internal/fips140deps/godebug.New crypto/internal/fips140/check.init
		crypto/internal/boring.Unreachable crypto/internal/fips140only.Enforced crypto/internal/fips140only.Enabled
		crypto/internal/fips140.RecordApproved crypto/internal/fips140.RecordNonApproved crypto/internal/boring.NotReached
		internal/cpu.Initialize testing.Testing
		`) {
		nopFuncs[n] = true
	}
	delete(nopFuncs, "crypto/internal/fips140/check.init")
	reg("runtime.Gosched", func(in *Interp, fr *Frame, a []Value) Value {
		g := in.curG()
		if in.path.sched.mode == "det" {
			in.park(g, func() bool { return true }, footprint{}, "gosched")
			return nil
		}
		in.visible(g, footprint{what: "gosched"})
		return nil
	})
	reg("runtime.Caller", func(in *Interp, fr *Frame, a []Value) Value { return Tuple{uint64(0), "", uint64(0), false} })
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(in *Interp, fr *Frame, a []Value) Value { return uint64(4) })
	reg("internal/abi.NoEscape internal/abi.Escape strings.noescape", func(in *Interp, fr *Frame, a []Value) Value { return a[0] })
	reg("os.Getenv syscall.Getenv", func(in *Interp, fr *Frame, a []Value) Value { return "" })
	reg("os.Exit", func(in *Interp, fr *Frame, a []Value) Value {
		panic(pathEnd{"panic", "os.Exit called\n" + in.stack()})
	})
	reg("log.Fatalf log.Fatal log.Fatalln (*log.Logger).Fatalf (*log.Logger).Fatal", func(in *Interp, fr *Frame, a []Value) Value {
		panic(pathEnd{"panic", "log.Fatal called\n" + in.stack()})
	})
	reg("log.New", func(in *Interp, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = zero(in.eng.namedType("log", "Logger"))
		return p
	})

	// ---- gRPC statuses (cloned and serialized by protobuf reflection) ----
	reg("(*google.golang.org/grpc/internal/status.Status).Proto", func(in *Interp, fr *Frame, a []Value) Value {
		p, _ := a[0].(Ptr)
		if p == nil {
			return Ptr(nil)
		}
		return (*p).(Struct)[0]
	})
	reg("(*google.golang.org/grpc/internal/status.Status).WithDetails", func(in *Interp, fr *Frame, a []Value) Value {
		return Tuple{a[0], Iface{}}
	})
	reg("google.golang.org/grpc/internal/status.FromProto", func(in *Interp, fr *Frame, a []Value) Value {
		p := new(Value)
		*p = Struct{a[0]}
		return p
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock", func(in *Interp, fr *Frame, a []Value) Value { in.lock(a[0].(Ptr)); return nil })
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", func(in *Interp, fr *Frame, a []Value) Value { in.unlock(a[0].(Ptr)); return nil })
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock", func(in *Interp, fr *Frame, a []Value) Value { return in.tryLock(a[0].(Ptr)) })
	reg("(*sync.RWMutex).Lock", func(in *Interp, fr *Frame, a []Value) Value { in.rwLock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).Unlock", func(in *Interp, fr *Frame, a []Value) Value { in.rwUnlock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *Frame, a []Value) Value { in.rwRLock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *Frame, a []Value) Value { in.rwRUnlock(a[0].(Ptr)); return nil })
	reg("(*sync.RWMutex).TryLock", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		m := in.path.sched.mutex(p)
		in.visible(in.curG(), fpW("trylock", p))
		if m.locked || m.readers > 0 {
			return false
		}
		m.locked, m.wpend, m.wlocked = true, true, true
		in.acq(p, "")
		in.acq(p, "readers")
		return true
	})
	reg("(*sync.RWMutex).TryRLock", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		m := in.path.sched.mutex(p)
		in.visible(in.curG(), fpW("tryrlock", p))
		if m.wpend {
			return false
		}
		m.readers++
		in.acq(p, "")
		return true
	})
	reg("(*sync.WaitGroup).Add", func(in *Interp, fr *Frame, a []Value) Value {
		in.wgAdd(a[0].(Ptr), intArg(in, a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(in *Interp, fr *Frame, a []Value) Value { in.wgAdd(a[0].(Ptr), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		w := in.wg(p)
		in.visible(in.curG(), fpR("wg.Wait", p))
		if w.n > 0 {
			in.park(in.curG(), func() bool { return w.n == 0 }, fpR("wg.Wait", p), "sync.WaitGroup.Wait")
		}
		in.acq(p, "")
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		in.wgAdd(p, 1)
		f := a[1]
		in.spawn(fr, &Closure{native: func(in *Interp, fr *Frame, _ []Value) Value {
			in.callValue(fr, f, nil)
			in.wgAdd(p, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("sync.NewCond", func(in *Interp, fr *Frame, a []Value) Value {
		p := new(Value)
		t := in.eng.namedType("sync", "Cond")
		*p = zero(t)
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				(*p).(Struct)[i] = a[0]
			}
		}
		return p
	})
	condL := func(in *Interp, p Ptr) Iface {
		st := in.eng.namedType("sync", "Cond").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				return (*p).(Struct)[i].(Iface)
			}
		}
		panic("cond")
	}
	reg("(*sync.Cond).Wait", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		s := in.path.sched
		w := &waiter{g: s.cur}
		s.conds[p] = append(s.conds[p], w)
		l := condL(in, p)
		in.callMethod(fr, l, "Unlock")
		if !w.done {
			in.park(s.cur, func() bool { return w.done }, fpW("cond", p), "sync.Cond.Wait")
		}
		in.acq(p, "")
		in.callMethod(fr, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		s := in.path.sched
		in.visible(s.cur, fpW("cond", p))
		in.rel(p, "")
		if q := s.conds[p]; len(q) > 0 {
			q[0].done = true
			s.wake(q[0].g)
			s.conds[p] = q[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		s := in.path.sched
		in.visible(s.cur, fpW("cond", p))
		in.rel(p, "")
		for _, w := range s.conds[p] {
			w.done = true
			s.wake(w.g)
		}
		delete(s.conds, p)
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		st := in.eng.namedType("sync", "Pool").Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := (*p).(Struct)[i].(*Closure)
				if f == nil {
					return Iface{}
				}
				return in.callValue(fr, f, nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(in *Interp, fr *Frame, a []Value) Value { return nil })
	in2map := func(in *Interp, p Ptr) *Map {
		k := "syncmap"
		_ = k
		if in.path == nil {
			panic(unsupported("sync.Map outside a path"))
		}
		m, ok := in.path.side[p].(*Map)
		if !ok {
			m = newMap(nil)
			in.path.side[p] = m
		}
		in.visible(in.curG(), fpW("sync.Map", p))
		in.acqRel(p)
		return m
	}
	reg("(*sync.Map).Load", func(in *Interp, fr *Frame, a []Value) Value {
		m := in2map(in, a[0].(Ptr))
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{e.cell, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(in *Interp, fr *Frame, a []Value) Value {
		in.mapSet(in2map(in, a[0].(Ptr)), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(in *Interp, fr *Frame, a []Value) Value {
		m := in2map(in, a[0].(Ptr))
		if e := in.mapFind(m, a[1]); e != nil {
			return Tuple{e.cell, true}
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(in *Interp, fr *Frame, a []Value) Value {
		m := in2map(in, a[0].(Ptr))
		if e := in.mapFind(m, a[1]); e != nil {
			v := e.cell
			in.mapDelete(m, a[1])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(in *Interp, fr *Frame, a []Value) Value {
		in.mapDelete(in2map(in, a[0].(Ptr)), a[1])
		return nil
	})
	reg("(*sync.Map).Swap", func(in *Interp, fr *Frame, a []Value) Value {
		m := in2map(in, a[0].(Ptr))
		var old Value = Iface{}
		had := false
		if e := in.mapFind(m, a[1]); e != nil {
			old, had = e.cell, true
		}
		in.mapSet(m, a[1], a[2])
		return Tuple{old, had}
	})
	reg("(*sync.Map).Range", func(in *Interp, fr *Frame, a []Value) Value {
		m := in2map(in, a[0].(Ptr))
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !in.branchV(in.callValue(fr, a[1], []Value{e.key, e.cell})) {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	type ty struct {
		n string
		w int
		s bool
	}
	for _, t := range []ty{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}, {"Pointer", 0, false}} {
		t := t
		pre := "sync/atomic."
		reg(pre+"Load"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicPoint(p, false)
			return *p
		})
		reg(pre+"Store"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicPoint(p, true)
			*p = a[1]
			return nil
		})
		reg(pre+"Swap"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicPoint(p, true)
			o := *p
			*p = a[1]
			return o
		})
		reg(pre+"CompareAndSwap"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicPoint(p, true)
			if in.branchV(in.equal(*p, a[1])) {
				*p = a[2]
				return true
			}
			return false
		})
		if t.w > 0 {
			reg(pre+"Add"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
				p := a[0].(Ptr)
				in.atomicPoint(p, true)
				x, ok1 := (*p).(uint64)
				y, ok2 := a[1].(uint64)
				if ok1 && ok2 {
					*p = norm(x+y, t.w, t.s)
				} else {
					*p = fromInt(in.tc.Add(in.toTerm(*p, t.w), in.toTerm(a[1], t.w)), t.s)
				}
				return *p
			})
			reg(pre+"And"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
				p := a[0].(Ptr)
				in.atomicPoint(p, true)
				o := *p
				*p = fromInt(in.tc.Bin(OBAnd, in.toTerm(*p, t.w), in.toTerm(a[1], t.w)), t.s)
				return o
			})
			reg(pre+"Or"+t.n, func(in *Interp, fr *Frame, a []Value) Value {
				p := a[0].(Ptr)
				in.atomicPoint(p, true)
				o := *p
				*p = fromInt(in.tc.Bin(OBOr, in.toTerm(*p, t.w), in.toTerm(a[1], t.w)), t.s)
				return o
			})
		}
	}
	av := func(p Ptr) *Value { return &(*p).(Struct)[0] }
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		in.atomicPoint(p, false)
		return *av(p)
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		in.atomicPoint(p, true)
		if a[1].(Iface).T == nil {
			panic(targetPanic{v: Iface{in.eng.errStrT, "sync/atomic: store of nil value into Value"}, trace: in.stack()})
		}
		*av(p) = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		in.atomicPoint(p, true)
		o := *av(p)
		*av(p) = a[1]
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		in.atomicPoint(p, true)
		if in.branchV(in.equal(*av(p), a[1])) {
			*av(p) = a[2]
			return true
		}
		return false
	})

	// ---- bytes/strings primitives ----
	reg("internal/bytealg.IndexByteString strings.IndexByte", func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexByte(strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.IndexByte bytes.IndexByte", func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexByte([]Value(a[0].(Slice)), a[1])
	})
	reg("internal/bytealg.LastIndexByteString strings.LastIndexByte", func(in *Interp, fr *Frame, a []Value) Value {
		return in.lastIndexByte(strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.LastIndexByte bytes.LastIndexByte", func(in *Interp, fr *Frame, a []Value) Value {
		return in.lastIndexByte([]Value(a[0].(Slice)), a[1])
	})
	reg("internal/bytealg.CountString", func(in *Interp, fr *Frame, a []Value) Value {
		return in.countByte(strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.Count", func(in *Interp, fr *Frame, a []Value) Value {
		return in.countByte([]Value(a[0].(Slice)), a[1])
	})
	reg("strings.Index internal/stringslite.Index internal/bytealg.IndexString", func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexSeq(strBytes(a[0]), strBytes(a[1]))
	})
	reg("bytes.Index internal/bytealg.Index", func(in *Interp, fr *Frame, a []Value) Value {
		return in.indexSeq([]Value(a[0].(Slice)), []Value(a[1].(Slice)))
	})
	reg("strings.LastIndex", func(in *Interp, fr *Frame, a []Value) Value {
		return in.lastIndexSeq(strBytes(a[0]), strBytes(a[1]))
	})
	reg("bytes.LastIndex", func(in *Interp, fr *Frame, a []Value) Value {
		return in.lastIndexSeq([]Value(a[0].(Slice)), []Value(a[1].(Slice)))
	})
	reg("bytes.Equal internal/bytealg.Equal", func(in *Interp, fr *Frame, a []Value) Value {
		return in.equal(tmpStr(a[0]), tmpStr(a[1]))
	})
	reg("bytes.Compare internal/bytealg.Compare", func(in *Interp, fr *Frame, a []Value) Value {
		return in.cmp3(tmpStr(a[0]), tmpStr(a[1]))
	})
	reg("strings.Compare internal/bytealg.CompareString", func(in *Interp, fr *Frame, a []Value) Value {
		return in.cmp3(a[0], a[1])
	})
	reg("bytes.HasPrefix", func(in *Interp, fr *Frame, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) < len(y) {
			return false
		}
		return in.equal(tmpStr(x[:len(y)]), tmpStr(y))
	})
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *Frame, a []Value) Value {
		n := intArg(in, a[0])
		if n > 1<<22 {
			panic(pathEnd{"bound", "allocation"})
		}
		s := make(Slice, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("strings.Clone internal/stringslite.Clone", func(in *Interp, fr *Frame, a []Value) Value { return a[0] })
	reg("(*strings.Builder).String", func(in *Interp, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		for _, f := range (*p).(Struct) {
			if s, ok := f.(Slice); ok {
				return mkStr(append([]Value(nil), s...))
			}
		}
		return ""
	})
	trim := func(l, r bool) intrinsic {
		return func(in *Interp, fr *Frame, a []Value) Value {
			if s, ok := a[0].(string); ok {
				if c, ok := a[1].(string); ok {
					if l {
						s = strings.TrimLeft(s, c)
					}
					if r {
						s = strings.TrimRight(s, c)
					}
					return s
				}
			}
			c := in.concStr(a[1])
			b := strBytes(a[0])
			for i := 0; i < len(c); i++ {
				if c[i] >= 0x80 {
					panic(unsupported("strings.Trim with a non-ASCII cutset"))
				}
			}
			in1 := func(v Value) bool {
				x, ok := v.(*Term)
				if !ok {
					return strings.IndexByte(c, byte(v.(uint64))) >= 0
				}
				t := in.tc.tFalse
				for i := 0; i < len(c); i++ {
					t = in.tc.Or(t, in.tc.Eq(x, in.tc.Const(uint64(c[i]), 8)))
				}
				return in.branch(t)
			}
			for l && len(b) > 0 && in1(b[0]) {
				b = b[1:]
			}
			for r && len(b) > 0 && in1(b[len(b)-1]) {
				b = b[:len(b)-1]
			}
			return mkStr(b)
		}
	}
	isSp := func(in *Interp, v Value) bool {
		x, ok := v.(*Term)
		if !ok {
			c := v.(uint64)
			if c >= 0x80 {
				panic(unsupported("strings.Fields/TrimSpace on mixed non-ASCII text"))
			}
			return c == ' ' || c >= 9 && c <= 13
		}
		tc := in.tc
		if in.branch(tc.Cmp(OUlt, tc.Const(0x7f, 8), x)) {
			panic(unsupported("strings.Fields/TrimSpace on symbolic non-ASCII text"))
		}
		return in.branch(tc.Or(tc.Eq(x, tc.Const(' ', 8)), tc.And(tc.Cmp(OUlt, tc.Const(8, 8), x), tc.Cmp(OUlt, x, tc.Const(14, 8)))))
	}
	reg("strings.Fields", func(in *Interp, fr *Frame, a []Value) Value {
		if _, ok := a[0].(string); ok {
			return in.callBody(fr, "strings", "Fields", a)
		}
		b := strBytes(a[0])
		r := Slice{}
		st := -1
		for i, c := range b {
			if isSp(in, c) {
				if st >= 0 {
					r = append(r, mkStr(append([]Value(nil), b[st:i]...)))
				}
				st = -1
			} else if st < 0 {
				st = i
			}
		}
		if st >= 0 {
			r = append(r, mkStr(append([]Value(nil), b[st:]...)))
		}
		return r
	})
	reg("strings.TrimSpace", func(in *Interp, fr *Frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		b := strBytes(a[0])
		for len(b) > 0 && isSp(in, b[0]) {
			b = b[1:]
		}
		for len(b) > 0 && isSp(in, b[len(b)-1]) {
			b = b[:len(b)-1]
		}
		return mkStr(append([]Value(nil), b...))
	})
	reg("strings.Trim", trim(true, true))
	reg("strings.TrimLeft", trim(true, false))
	reg("strings.TrimRight", trim(false, true))
	reg("strings.EqualFold", func(in *Interp, fr *Frame, a []Value) Value {
		return strings.EqualFold(in.concStr(a[0]), in.concStr(a[1]))
	})
	reg("strings.ToLower", func(in *Interp, fr *Frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		return in.mapASCII(a[0], 'A', 'Z', 32)
	})
	reg("strings.ToUpper", func(in *Interp, fr *Frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		return in.mapASCII(a[0], 'a', 'z', ^uint64(31))
	})
	reg("crypto/subtle.ConstantTimeCompare", func(in *Interp, fr *Frame, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) != len(y) {
			return uint64(0)
		}
		t := in.toBool(in.equal(tmpStr(x), tmpStr(y)))
		return fromInt(in.tc.Ite(t, in.tc.Const(1, 64), in.tc.Const(0, 64)), true)
	})

	// ---- math ----
	reg("math.Float64bits", func(in *Interp, fr *Frame, a []Value) Value { return math.Float64bits(a[0].(float64)) })
	reg("math.Float64frombits", func(in *Interp, fr *Frame, a []Value) Value {
		return math.Float64frombits(in.concInt(a[0], 64))
	})
	reg("math.Float32bits", func(in *Interp, fr *Frame, a []Value) Value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	})
	reg("math.Float32frombits", func(in *Interp, fr *Frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(in.concInt(a[0], 32))))
	})
	reg("math.Floor math.floor", func(in *Interp, fr *Frame, a []Value) Value { return math.Floor(a[0].(float64)) })
	reg("math.Ceil math.ceil", func(in *Interp, fr *Frame, a []Value) Value { return math.Ceil(a[0].(float64)) })
	reg("math.Trunc math.trunc", func(in *Interp, fr *Frame, a []Value) Value { return math.Trunc(a[0].(float64)) })
	reg("math.Sqrt math.sqrt", func(in *Interp, fr *Frame, a []Value) Value { return math.Sqrt(a[0].(float64)) })

	// ---- errors ----
	reg("errors.Is", func(in *Interp, fr *Frame, a []Value) Value {
		return in.errorsIs(fr, a[0].(Iface), a[1].(Iface))
	})
	reg("errors.As", func(in *Interp, fr *Frame, a []Value) Value {
		return in.errorsAs(fr, a[0].(Iface), a[1].(Iface))
	})

	// ---- sort with reflection ----
	reg("sort.Slice sort.SliceStable", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		less := a[1]
		// insertion sort on the live slice: same result contract as a stable sort
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !in.branchV(in.callValue(fr, less, []Value{uint64(j), uint64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	})

	// ---- io discard etc ----
	globalOverride["os.Stderr"] = func(in *Interp, g *ssa.Global) Value { return Ptr(new(Value)) }
	globalOverride["os.Stdout"] = func(in *Interp, g *ssa.Global) Value { return Ptr(new(Value)) }
	globalOverride["os.Stdin"] = func(in *Interp, g *ssa.Global) Value { return Ptr(new(Value)) }
	reg("(*os.File).Write", func(in *Interp, fr *Frame, a []Value) Value {
		return Tuple{uint64(len(a[1].(Slice))), Iface{}}
	})
	reg("fmt.Println fmt.Printf fmt.Print", func(in *Interp, fr *Frame, a []Value) Value { return Tuple{uint64(0), Iface{}} })
}

func tmpStr(v Value) Value { return &SymStr{[]Value(v.(Slice))} }

func (in *Interp) atomicPoint(p Ptr, write bool) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if in.path == nil {
		return
	}
	if in.quiet == 0 {
		fp := footprint{what: "atomic"}
		fp.objs = append(fp.objs, objRef{p, write})
		in.visible(in.curG(), fp)
	}
	in.acqRel(p)
}

func (in *Interp) wg(p Ptr) *wgState {
	s := in.path.sched
	w := s.wgs[p]
	if w == nil {
		w = &wgState{}
		s.wgs[p] = w
	}
	return w
}

func (in *Interp) wgAdd(p Ptr, d int) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	w := in.wg(p)
	if in.path.sched.mode == "full" {
		in.visible(in.curG(), fpW("wg.Add", p))
	}
	w.n += d
	in.rel(p, "")
	if w.n < 0 {
		panic(targetPanic{v: Iface{in.eng.errStrT, "sync: negative WaitGroup counter"}, trace: in.stack()})
	}
}

func (in *Interp) indexByte(b []Value, c Value) Value {
	for i, x := range b {
		if in.branchV(in.equalW(x, c, 8)) {
			return uint64(i)
		}
	}
	return uint64(math.MaxUint64)
}
func (in *Interp) equalW(a, b Value, w int) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return fromBool(in.tc.Eq(in.toTerm(a, w), in.toTerm(b, w)))
}
func (in *Interp) lastIndexByte(b []Value, c Value) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if in.branchV(in.equalW(b[i], c, 8)) {
			return uint64(i)
		}
	}
	return uint64(math.MaxUint64)
}
func (in *Interp) countByte(b []Value, c Value) Value {
	n := uint64(0)
	for _, x := range b {
		if in.branchV(in.equalW(x, c, 8)) {
			n++
		}
	}
	return n
}
func (in *Interp) indexSeq(s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if in.branchV(in.symStrEq(&SymStr{s[i : i+len(sub)]}, &SymStr{sub})) {
			return uint64(i)
		}
	}
	return uint64(math.MaxUint64)
}
func (in *Interp) lastIndexSeq(s, sub []Value) Value {
	for i := len(s) - len(sub); i >= 0; i-- {
		if in.branchV(in.symStrEq(&SymStr{s[i : i+len(sub)]}, &SymStr{sub})) {
			return uint64(i)
		}
	}
	return uint64(math.MaxUint64)
}
func (in *Interp) cmp3(a, b Value) Value {
	eq := in.toBool(in.equal(a, b))
	lt := in.toBool(in.strLess(a, b, false))
	m1 := in.tc.Const(^uint64(0), 64)
	return fromInt(in.tc.Ite(eq, in.tc.Const(0, 64), in.tc.Ite(lt, m1, in.tc.Const(1, 64))), true)
}
func (in *Interp) mapASCII(v Value, lo, hi uint64, d uint64) Value {
	b := strBytes(v)
	r := make([]Value, len(b))
	for i, x := range b {
		t := in.toTerm(x, 8)
		if !in.branch(in.tc.Cmp(OUlt, t, in.tc.Const(0x80, 8))) {
			panic(unsupported("case mapping of non-ASCII symbolic byte"))
		}
		inr := in.tc.And(in.tc.Cmp(OUle, in.tc.Const(lo, 8), t), in.tc.Cmp(OUle, t, in.tc.Const(hi, 8)))
		var m *Term
		if d == 32 {
			m = in.tc.Add(t, in.tc.Const(32, 8))
		} else {
			m = in.tc.Bin(OSub, t, in.tc.Const(32, 8))
		}
		r[i] = fromInt(in.tc.Ite(inr, m, t), false)
	}
	return mkStr(r)
}

func (in *Interp) unwrap(fr *Frame, err Iface) []Iface {
	if err.T == nil || !in.hasMethod(err, "Unwrap") {
		return nil
	}
	switch r := in.callMethod(fr, err, "Unwrap").(type) {
	case Iface:
		if r.T == nil {
			return nil
		}
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, x := range r {
			if i := x.(Iface); i.T != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(fr *Frame, err, target Iface) bool {
	if err.T == nil || target.T == nil {
		return err.T == target.T
	}
	if types.Comparable(target.T) && err.T == target.T && in.branchV(in.equal(err, target)) {
		return true
	}
	if in.hasMethod(err, "Is") {
		if in.branchV(in.callMethod(fr, err, "Is", target)) {
			return true
		}
	}
	for _, u := range in.unwrap(fr, err) {
		if in.errorsIs(fr, u, target) {
			return true
		}
	}
	return false
}

func (in *Interp) errorsAs(fr *Frame, err, target Iface) bool {
	if err.T == nil {
		return false
	}
	pt, ok := target.T.Underlying().(*types.Pointer)
	if !ok {
		in.rtPanic("errors: target must be a non-nil pointer")
	}
	p := target.V.(Ptr)
	if p == nil {
		in.rtPanic("errors: target must be a non-nil pointer")
	}
	elem := in.eng.canon(pt.Elem())
	if _, isI := elem.Underlying().(*types.Interface); isI {
		if in.eng.implements(err.T, elem) {
			*p = err
			return true
		}
	} else if err.T == elem {
		storeInto(p, err.V)
		return true
	}
	if in.hasMethod(err, "As") {
		if in.branchV(in.callMethod(fr, err, "As", target)) {
			return true
		}
	}
	for _, u := range in.unwrap(fr, err) {
		if in.errorsAs(fr, u, target) {
			return true
		}
	}
	return false
}

// fmtNoFork renders a value for messages without forking.
func (in *Interp) fmtNoFork(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(in.tc.Eval(x, in.path.model))
			}
		}
		return string(b)
	}
	return fmt.Sprintf("%v", v)
}
