package main

// Translation of SSA functions into closures.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type compiler struct {
	e     *Engine
	f     *Func
	slots map[ssa.Value]int
}

func compileFunc(e *Engine, f *Func, fn *ssa.Function) {
	defer func() { f.compiled = true }()
	if fn.Blocks == nil {
		f.noBody = true
		return
	}
	c := &compiler{e: e, f: f, slots: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		f.params = append(f.params, c.slot(p))
	}
	for _, p := range fn.FreeVars {
		f.freevars = append(f.freevars, c.slot(p))
	}
	f.blocks = make([]*Block, len(fn.Blocks))
	for i := range fn.Blocks {
		f.blocks[i] = &Block{f: f, idx: i}
	}
	for i, b := range fn.Blocks {
		blk := f.blocks[i]
		lastPos := token.NoPos
		for j, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			if p := ins.Pos(); p.IsValid() {
				lastPos = p
			}
			if j == len(b.Instrs)-1 {
				blk.term = c.term(b, ins)
				blk.pos = append(blk.pos, lastPos)
				break
			}
			blk.code = append(blk.code, c.instr(ins))
			blk.pos = append(blk.pos, lastPos)
		}
	}
	if fn.Recover != nil {
		f.recover = f.blocks[fn.Recover.Index]
	}
	f.nslots = len(c.slots)
}

func (c *compiler) slot(v ssa.Value) int {
	if i, ok := c.slots[v]; ok {
		return i
	}
	i := len(c.slots)
	c.slots[v] = i
	return i
}

func (c *compiler) opd(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return opd{kind: oZero, v: v.Type()}
			}
			return opd{kind: oConst, v: zero(v.Type())}
		}
		return opd{kind: oConst, v: constVal(v)}
	case *ssa.Global:
		c.e.mu.Lock()
		i, ok := c.e.globIdx[v]
		if !ok {
			i = len(c.e.globs)
			c.e.globs = append(c.e.globs, v)
			c.e.globIdx[v] = i
		}
		c.e.mu.Unlock()
		return opd{kind: oGlobal, idx: i}
	case *ssa.Function:
		return opd{kind: oConst, v: &Closure{fn: c.e.fun(v)}}
	case *ssa.Builtin:
		return opd{kind: oConst, v: builtinVal{name: v.Name()}}
	}
	return opd{kind: oSlot, idx: c.slot(v)}
}

func constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return norm(uint64(i), w, s)
			}
			u, _ := constant.Uint64Val(v)
			return norm(u, w, s)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Kind() == types.UnsafePointer:
			return Ptr(nil)
		}
	}
	panic(unsupported("const %s", c))
}

func (c *compiler) edge(from *ssa.BasicBlock, to *ssa.BasicBlock, succIdx int) *Edge {
	e := &Edge{to: c.f.blocks[to.Index]}
	// find pred index; with duplicate edges choose matching occurrence
	occ := 0
	for k := 0; k < succIdx; k++ {
		if from.Succs[k] == to {
			occ++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.slot(phi), c.opd(phi.Edges[pi])})
	}
	return e
}

func (c *compiler) term(b *ssa.BasicBlock, ins ssa.Instruction) func(fr *Frame) *Edge {
	switch ins := ins.(type) {
	case *ssa.If:
		return c.ifTerm(b, ins)
	case *ssa.Jump:
		e := c.edge(b, b.Succs[0], 0)
		return func(fr *Frame) *Edge { return e }
	case *ssa.Return:
		switch len(ins.Results) {
		case 0:
			return func(fr *Frame) *Edge { return nil }
		case 1:
			r := c.opd(ins.Results[0])
			return func(fr *Frame) *Edge { fr.result = fr.get(&r); return nil }
		}
		var rs []opd
		for _, r := range ins.Results {
			rs = append(rs, c.opd(r))
		}
		return func(fr *Frame) *Edge {
			t := make(Tuple, len(rs))
			for i := range rs {
				t[i] = fr.get(&rs[i])
			}
			fr.result = t
			return nil
		}
	case *ssa.Panic:
		x := c.opd(ins.X)
		return func(fr *Frame) *Edge {
			v := fr.get(&x)
			if i, ok := v.(Iface); ok && i.T == nil {
				fr.in.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(targetPanic{v: v, trace: fr.in.stack()})
		}
	}
	panic(unsupported("terminator %T", ins))
}

func (c *compiler) instr(ins ssa.Instruction) instr {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		d := c.slot(ins)
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *Frame) {
			p := new(Value)
			*p = zero(t)
			fr.slots[d] = p
		}
	case *ssa.UnOp:
		return c.unop(ins)
	case *ssa.BinOp:
		d := c.slot(ins)
		x, y := c.opd(ins.X), c.opd(ins.Y)
		op := c.binop(ins.Op, ins.X.Type(), ins.Y.Type())
		return func(fr *Frame) {
			fr.slots[d] = op(fr.in, fr.get(&x), fr.get(&y))
		}
	case *ssa.Call:
		d := c.slot(ins)
		call := c.call(&ins.Call)
		return func(fr *Frame) {
			fr.slots[d] = call(fr)
		}
	case *ssa.ChangeInterface:
		d, x := c.slot(ins), c.opd(ins.X)
		return func(fr *Frame) { fr.slots[d] = fr.get(&x) }
	case *ssa.ChangeType:
		d, x := c.slot(ins), c.opd(ins.X)
		return func(fr *Frame) { fr.slots[d] = fr.get(&x) }
	case *ssa.Convert:
		d, x := c.slot(ins), c.opd(ins.X)
		cv := c.conv(ins.X.Type(), ins.Type())
		return func(fr *Frame) { fr.slots[d] = cv(fr.in, fr, fr.get(&x)) }
	case *ssa.MultiConvert:
		d, x := c.slot(ins), c.opd(ins.X)
		cv := c.conv(ins.X.Type(), ins.Type())
		return func(fr *Frame) { fr.slots[d] = cv(fr.in, fr, fr.get(&x)) }
	case *ssa.SliceToArrayPointer:
		d, x := c.slot(ins), c.opd(ins.X)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			s := fr.get(&x).(Slice)
			if len(s) < n {
				fr.in.rtPanic("cannot convert slice to array or pointer to array: length too short")
			}
			if s == nil {
				fr.slots[d] = Ptr(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.slots[d] = p
		}
	case *ssa.MakeInterface:
		d, x := c.slot(ins), c.opd(ins.X)
		t := c.e.canon(ins.X.Type())
		return func(fr *Frame) { fr.slots[d] = Iface{t, fr.get(&x)} }
	case *ssa.Extract:
		d, x := c.slot(ins), c.opd(ins.Tuple)
		i := ins.Index
		return func(fr *Frame) { fr.slots[d] = fr.get(&x).(Tuple)[i] }
	case *ssa.Slice:
		return c.sliceOp(ins)
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Send:
		ch, x := c.opd(ins.Chan), c.opd(ins.X)
		return func(fr *Frame) {
			fr.in.chanSend(fr, fr.get(&ch).(*Chan), copyVal(fr.get(&x)))
		}
	case *ssa.Store:
		a, v := c.opd(ins.Addr), c.opd(ins.Val)
		agg := isAgg(ins.Val.Type())
		return func(fr *Frame) {
			p, ok := fr.get(&a).(Ptr)
			if !ok {
				fr.in.storeSpecial(fr.get(&a), fr.get(&v))
				return
			}
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if fr.in.path != nil && fr.in.path.races != nil {
				fr.in.raceAccess(fr, p, true)
			}
			if agg {
				storeInto(p, fr.get(&v))
			} else {
				*p = fr.get(&v)
			}
		}
	case *ssa.Defer:
		c.f.hasDefer = true
		prep := c.prepCall(&ins.Call)
		pos := ins.Pos()
		if ins.DeferStack != nil {
			ds := c.opd(ins.DeferStack)
			return func(fr *Frame) {
				fv, args := prep(fr)
				tgt := fr.get(&ds).(*Frame)
				tgt.defers = &deferRec{fv, args, tgt.defers, pos}
			}
		}
		return func(fr *Frame) {
			fv, args := prep(fr)
			fr.defers = &deferRec{fv, args, fr.defers, pos}
		}
	case *ssa.Go:
		prep := c.prepCall(&ins.Call)
		return func(fr *Frame) {
			fv, args := prep(fr)
			fr.in.spawn(fr, fv, args)
		}
	case *ssa.MakeChan:
		d, x := c.slot(ins), c.opd(ins.Size)
		return func(fr *Frame) {
			n := int(int64(fr.in.concInt(fr.get(&x), 64)))
			if n < 0 {
				fr.in.rtPanic("makechan: size out of range")
			}
			fr.slots[d] = fr.in.newChan(n)
		}
	case *ssa.MakeClosure:
		d := c.slot(ins)
		fn := c.e.fun(ins.Fn.(*ssa.Function))
		var bs []opd
		for _, b := range ins.Bindings {
			bs = append(bs, c.opd(b))
		}
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.slots[d] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeMap:
		d := c.slot(ins)
		kt := ins.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.slots[d] = newMap(kt) }
	case *ssa.MakeSlice:
		d, l, cp := c.slot(ins), c.opd(ins.Len), c.opd(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return func(fr *Frame) {
			n := int64(fr.in.concInt(fr.get(&l), 64))
			m := int64(fr.in.concInt(fr.get(&cp), 64))
			if n < 0 || n > 1<<40 {
				fr.in.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<40 {
				fr.in.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<22 {
				panic(pathEnd{"bound", fmt.Sprintf("allocation of %d elements", m)})
			}
			s := make(Slice, n, m)
			fillZero(s[:m], et)
			fr.slots[d] = s
		}
	case *ssa.Range:
		d, x := c.slot(ins), c.opd(ins.X)
		rep := c.f.isRepo
		return func(fr *Frame) {
			switch v := fr.get(&x).(type) {
			case *Map:
				it := &MapIter{m: v}
				if v != nil {
					it.ents = append(it.ents, v.ents...)
					it.perm = rep && fr.in.eng.cfg.MapPerm
				}
				fr.slots[d] = it
			case string, *SymStr:
				fr.slots[d] = &StrIter{s: v}
			default:
				panic(unsupported("range over %T", v))
			}
		}
	case *ssa.Next:
		return c.next(ins)
	case *ssa.FieldAddr:
		d, x := c.slot(ins), c.opd(ins.X)
		i := ins.Field
		return func(fr *Frame) {
			fr.slots[d] = fr.in.fieldAddr(fr.get(&x), i)
		}
	case *ssa.Field:
		d, x := c.slot(ins), c.opd(ins.X)
		i := ins.Field
		return func(fr *Frame) { fr.slots[d] = fr.get(&x).(Struct)[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(ins)
	case *ssa.Index:
		d, x, y := c.slot(ins), c.opd(ins.X), c.opd(ins.Index)
		iw, _, _ := intInfo(ins.Index.Type())
		aw, as, _ := intInfo(ins.Type())
		return func(fr *Frame) {
			v := fr.get(&x)
			iv := fr.get(&y)
			switch v := v.(type) {
			case Array:
				fr.in.pendingElemW, fr.in.pendingSigned = aw, as
				fr.slots[d] = fr.in.indexVals([]Value(v), iv, iw)
				fr.in.pendingElemW = 0
			case string:
				if i, ok := iv.(uint64); ok {
					if i >= uint64(len(v)) {
						fr.in.oob(int64(i), len(v))
					}
					fr.slots[d] = uint64(v[i])
					return
				}
				fr.slots[d] = fr.in.indexBytes(strBytes(v), iv, iw)
			case *SymStr:
				fr.slots[d] = fr.in.indexBytes(v.b, iv, iw)
			default:
				panic(unsupported("index of %T", v))
			}
		}
	case *ssa.Lookup:
		d, x, y := c.slot(ins), c.opd(ins.X), c.opd(ins.Index)
		if isString(ins.X.Type()) {
			iw, _, _ := intInfo(ins.Index.Type())
			return func(fr *Frame) {
				fr.slots[d] = fr.in.indexBytes(strBytes(fr.get(&x)), fr.get(&y), iw)
			}
		}
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		ok := ins.CommaOk
		return func(fr *Frame) {
			m := fr.get(&x).(*Map)
			if m != nil && fr.in.path != nil && fr.in.path.races != nil {
				fr.in.raceAccess(fr, m, false)
			}
			e := fr.in.mapFind(m, fr.get(&y))
			var v Value
			if e != nil {
				v = copyVal(e.cell)
			} else {
				v = zero(vt)
			}
			if ok {
				fr.slots[d] = Tuple{v, e != nil}
			} else {
				fr.slots[d] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.opd(ins.Map), c.opd(ins.Key), c.opd(ins.Value)
		return func(fr *Frame) {
			mm := fr.get(&m).(*Map)
			if mm == nil {
				panic(targetPanic{v: Iface{fr.in.eng.errStrT, "assignment to entry in nil map"}, trace: fr.in.stack()})
			}
			if fr.in.path != nil && fr.in.path.races != nil {
				fr.in.raceAccess(fr, mm, true)
			}
			fr.in.mapSet(mm, fr.get(&k), fr.get(&v))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(ins)
	case *ssa.Select:
		return c.selectOp(ins)
	}
	panic(unsupported("instruction %T", ins))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func fillZero(s Slice, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		s[0] = z
		for i := 1; i < len(s); i++ {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func (in *Interp) fieldAddr(v Value, i int) Value {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("field address of %T", v))
	}
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	s, ok := (*p).(Struct)
	if !ok {
		panic(unsupported("field address: cell holds %T", *p))
	}
	return &s[i]
}

func (in *Interp) oob(i int64, n int) {
	in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
}

func (in *Interp) indexVals(vs []Value, iv Value, iw int) Value {
	if i, ok := iv.(uint64); ok {
		if i >= uint64(len(vs)) {
			in.oob(int64(i), len(vs))
		}
		return copyVal(vs[i])
	}
	t := iv.(*Term)
	in.symBounds(t, len(vs))
	return in.iteRead(vs, t)
}

// indexBytes is indexVals for the bytes of a string.
func (in *Interp) indexBytes(vs []Value, iv Value, iw int) Value {
	if _, ok := iv.(uint64); !ok {
		defer func(w int, s bool) { in.pendingElemW, in.pendingSigned = w, s }(in.pendingElemW, in.pendingSigned)
		in.pendingElemW, in.pendingSigned = 8, false
	}
	return in.indexVals(vs, iv, iw)
}

func (in *Interp) symBounds(t *Term, n int) {
	if t.w < 64 && uint64(n) > mask(t.w) {
		return
	}
	ok := in.tc.Cmp(OUlt, t, in.tc.Const(uint64(n), t.w))
	if !in.branch(ok) {
		in.oob(int64(in.tc.Eval(t, in.path.model)), n)
	}
}

func scalar(v Value) bool {
	switch v.(type) {
	case uint64, bool:
		return true
	case *Term:
		return true
	}
	return false
}

// iteRead reads vs[t] (in range) as an ite chain when the elements are scalars.
func (in *Interp) iteRead(vs []Value, t *Term) Value {
	if len(vs) > 0 && len(vs) <= 512 && scalar(vs[0]) {
		w := 0
		isB := false
		for _, v := range vs {
			switch v := v.(type) {
			case *Term:
				w = v.w
				if w == 0 {
					isB = true
				}
			case bool:
				isB = true
			}
		}
		if isB {
			return fromBool(in.iteChain(len(vs), t, func(i int) *Term { return in.toBool(vs[i]) }))
		}
		if w == 0 {
			w = in.pendingElemW
		}
		if w > 0 {
			return fromInt(in.iteChain(len(vs), t, func(i int) *Term { return in.toTerm(vs[i], w) }), in.pendingSigned)
		}
	}
	i := in.concretize(t)
	return copyVal(vs[i])
}

// iteChain is element t of n, with one comparison per run of equal elements.
func (in *Interp) iteChain(n int, t *Term, at func(int) *Term) *Term {
	r := at(n - 1)
	prev := r
	for i := n - 2; i >= 0; i-- {
		v := at(i)
		if v == prev {
			continue
		}
		if uint64(i+1) <= mask(t.w) {
			r = in.tc.Ite(in.tc.Cmp(OUlt, t, in.tc.Const(uint64(i+1), t.w)), v, r)
		} else {
			r = v
		}
		prev = v
	}
	return r
}

func (c *compiler) indexAddr(ins *ssa.IndexAddr) instr {
	d, x, y := c.slot(ins), c.opd(ins.X), c.opd(ins.Index)
	iw, _, _ := intInfo(ins.Index.Type())
	et := ins.Type().Underlying().(*types.Pointer).Elem()
	_, _, isInt := intInfo(et)
	if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		isInt = true
	}
	_ = iw
	onlyLoads := true
	if ins.Referrers() != nil {
		for _, r := range *ins.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				if r.Op != token.MUL {
					onlyLoads = false
				}
			case *ssa.Store:
				if r.Addr != ins {
					onlyLoads = false
				}
			case *ssa.DebugRef:
			default:
				onlyLoads = false
			}
		}
	}
	return func(fr *Frame) {
		var vs []Value
		switch v := fr.get(&x).(type) {
		case Slice:
			vs = v
		case Ptr:
			if v == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a, ok := (*v).(Array)
			if !ok {
				panic(unsupported("IndexAddr: cell holds %T", *v))
			}
			vs = a
		default:
			panic(unsupported("IndexAddr of %T", v))
		}
		iv := fr.get(&y)
		if i, ok := iv.(uint64); ok {
			if i >= uint64(len(vs)) {
				fr.in.oob(int64(i), len(vs))
			}
			fr.slots[d] = &vs[i]
			return
		}
		t := iv.(*Term)
		fr.in.symBounds(t, len(vs))
		if onlyLoads && isInt {
			fr.slots[d] = &SymPtr{vs, t}
			return
		}
		fr.slots[d] = &vs[fr.in.concretize(t)]
	}
}

func (in *Interp) storeSpecial(a Value, v Value) {
	switch p := a.(type) {
	case *SymPtr:
		for i := range p.elems {
			c := in.tc.Eq(p.idx, in.tc.Const(uint64(i), p.idx.w))
			if c.isConst() {
				if c.val != 0 {
					p.elems[i] = v
				}
				continue
			}
			var w int
			if t, ok := v.(*Term); ok {
				w = t.w
			} else if t, ok := p.elems[i].(*Term); ok {
				w = t.w
			}
			if w == 0 {
				// both concrete: width unknown here, split instead
				if in.branch(c) {
					p.elems[i] = v
					return
				}
				continue
			}
			p.elems[i] = fromInt(in.tc.Ite(c, in.toTerm(v, w), in.toTerm(p.elems[i], w)), false)
		}
		return
	}
	panic(unsupported("store through %T", a))
}

func (c *compiler) unop(ins *ssa.UnOp) instr {
	d, x := c.slot(ins), c.opd(ins.X)
	switch ins.Op {
	case token.MUL:
		agg := isAgg(ins.Type())
		ew, es, _ := intInfo(ins.Type())
		return func(fr *Frame) {
			v := fr.get(&x)
			p, ok := v.(Ptr)
			if !ok {
				if sp, ok := v.(*SymPtr); ok {
					fr.in.pendingElemW, fr.in.pendingSigned = ew, es
					fr.slots[d] = fr.in.iteRead(sp.elems, sp.idx)
					fr.in.pendingElemW = 0
					return
				}
				panic(unsupported("load through %T", v))
			}
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if fr.in.path != nil && fr.in.path.races != nil {
				fr.in.raceAccess(fr, p, false)
			}
			if agg {
				fr.slots[d] = copyVal(*p)
			} else {
				fr.slots[d] = *p
			}
		}
	case token.NOT:
		return func(fr *Frame) {
			switch v := fr.get(&x).(type) {
			case bool:
				fr.slots[d] = !v
			case *Term:
				fr.slots[d] = fromBool(fr.in.tc.Not(v))
			}
		}
	case token.SUB:
		w, s, isI := intInfo(ins.Type())
		return func(fr *Frame) {
			switch v := fr.get(&x).(type) {
			case uint64:
				fr.slots[d] = norm(-v, w, s)
			case float64:
				fr.slots[d] = -v
			case complex128:
				fr.slots[d] = -v
			case *Term:
				_ = isI
				fr.slots[d] = fromInt(fr.in.tc.Neg(v), s)
			}
		}
	case token.XOR:
		w, s, _ := intInfo(ins.Type())
		return func(fr *Frame) {
			switch v := fr.get(&x).(type) {
			case uint64:
				fr.slots[d] = norm(^v, w, s)
			case *Term:
				fr.slots[d] = fromInt(fr.in.tc.BNot(v), s)
			}
		}
	case token.ARROW:
		ok := ins.CommaOk
		et := ins.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *Frame) {
			v, good := fr.in.chanRecv(fr, fr.get(&x).(*Chan))
			if !good {
				v = zero(et)
			}
			if ok {
				fr.slots[d] = Tuple{v, good}
			} else {
				fr.slots[d] = v
			}
		}
	}
	panic(unsupported("unop %s", ins.Op))
}

func (c *compiler) binop(op token.Token, xt, yt types.Type) func(in *Interp, x, y Value) Value {
	switch op {
	case token.EQL:
		return func(in *Interp, x, y Value) Value { return in.eqMixed(x, y) }
	case token.NEQ:
		return func(in *Interp, x, y Value) Value {
			switch v := in.eqMixed(x, y).(type) {
			case bool:
				return !v
			case *Term:
				return fromBool(in.tc.Not(v))
			}
			panic("neq")
		}
	}
	if w, s, ok := intInfo(xt); ok {
		if op == token.SHL || op == token.SHR {
			yw, ys, _ := intInfo(yt)
			return shiftOp(op, w, s, yw, ys)
		}
		return intOp(op, w, s)
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return func(in *Interp, x, y Value) Value { return strConcat(x, y) }
		case token.LSS:
			return func(in *Interp, x, y Value) Value { return in.strLess(x, y, false) }
		case token.LEQ:
			return func(in *Interp, x, y Value) Value { return in.strLess(x, y, true) }
		case token.GTR:
			return func(in *Interp, x, y Value) Value { return in.strLess(y, x, false) }
		case token.GEQ:
			return func(in *Interp, x, y Value) Value { return in.strLess(y, x, true) }
		}
	}
	if isFloat(xt) {
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		rd := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		return func(in *Interp, x, y Value) Value {
			a, b := x.(float64), y.(float64)
			switch op {
			case token.ADD:
				return rd(a + b)
			case token.SUB:
				return rd(a - b)
			case token.MUL:
				return rd(a * b)
			case token.QUO:
				return rd(a / b)
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
			panic(unsupported("float op %s", op))
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return func(in *Interp, x, y Value) Value {
				a, b := in.toBool(x), in.toBool(y)
				switch op {
				case token.AND, token.LAND:
					return fromBool(in.tc.And(a, b))
				case token.OR, token.LOR:
					return fromBool(in.tc.Or(a, b))
				}
				panic(unsupported("bool op %s", op))
			}
		}
		if b.Info()&types.IsComplex != 0 {
			return func(in *Interp, x, y Value) Value {
				a, b := x.(complex128), y.(complex128)
				switch op {
				case token.ADD:
					return a + b
				case token.SUB:
					return a - b
				case token.MUL:
					return a * b
				case token.QUO:
					return a / b
				}
				panic(unsupported("complex op %s", op))
			}
		}
	}
	tx, ty := xt, yt
	return func(in *Interp, x, y Value) Value {
		panic(unsupported("binop %s on %s, %s", op, tx, ty))
	}
}

// eqMixed handles comparisons of an interface with nil constants etc.
func (in *Interp) eqMixed(x, y Value) Value {
	return in.equal(x, y)
}

func intOp(op token.Token, w int, s bool) func(in *Interp, x, y Value) Value {
	pick := func(u, sg Op) Op {
		if s {
			return sg
		}
		return u
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		swap := op == token.GTR || op == token.GEQ
		strict := op == token.LSS || op == token.GTR
		var o Op
		if strict {
			o = pick(OUlt, OSlt)
		} else {
			o = pick(OUle, OSle)
		}
		return func(in *Interp, x, y Value) Value {
			if swap {
				x, y = y, x
			}
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				if s {
					if strict {
						return int64(a) < int64(b)
					}
					return int64(a) <= int64(b)
				}
				if strict {
					return a < b
				}
				return a <= b
			}
			return fromBool(in.tc.Cmp(o, in.toTerm(x, w), in.toTerm(y, w)))
		}
	}
	var o Op
	switch op {
	case token.ADD:
		o = OAdd
	case token.SUB:
		o = OSub
	case token.MUL:
		o = OMul
	case token.QUO:
		o = pick(OUDiv, OSDiv)
	case token.REM:
		o = pick(OURem, OSRem)
	case token.AND:
		o = OBAnd
	case token.OR:
		o = OBOr
	case token.XOR:
		o = OBXor
	case token.AND_NOT:
		return func(in *Interp, x, y Value) Value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok1 && ok2 {
				return norm(a&^b, w, s)
			}
			return fromInt(in.tc.Bin(OBAnd, in.toTerm(x, w), in.tc.BNot(in.toTerm(y, w))), s)
		}
	default:
		panic(unsupported("int op %s", op))
	}
	div := op == token.QUO || op == token.REM
	return func(in *Interp, x, y Value) Value {
		a, ok1 := x.(uint64)
		b, ok2 := y.(uint64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return norm(a+b, w, s)
			case token.SUB:
				return norm(a-b, w, s)
			case token.MUL:
				return norm(a*b, w, s)
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.XOR:
				return norm(a^b, w, s)
			}
		}
		if div {
			if ok2 {
				if b == 0 {
					in.rtPanic("integer divide by zero")
				}
			} else if in.branch(in.tc.Eq(in.toTerm(y, w), in.tc.Const(0, w))) {
				in.rtPanic("integer divide by zero")
			}
			if ok1 && ok2 {
				return norm(evalBin(o, w, a&mask(w), b&mask(w)), w, s)
			}
		}
		return fromInt(in.tc.Bin(o, in.toTerm(x, w), in.toTerm(y, w)), s)
	}
}

func shiftOp(op token.Token, w int, s bool, yw int, ys bool) func(in *Interp, x, y Value) Value {
	return func(in *Interp, x, y Value) Value {
		a, ok1 := x.(uint64)
		b, ok2 := y.(uint64)
		if ok2 && ys && int64(b) < 0 {
			in.rtPanic("negative shift amount")
		}
		if ok1 && ok2 {
			if op == token.SHL {
				if b >= 64 {
					return uint64(0)
				}
				return norm(a<<b, w, s)
			}
			if s {
				if b >= 64 {
					b = 63
				}
				return norm(uint64(int64(a)>>b), w, s)
			}
			if b >= 64 {
				return uint64(0)
			}
			return a >> b
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if s {
				o = OAShr
			}
		}
		xt := in.toTerm(x, w)
		if ok2 {
			if b >= uint64(w) {
				if o == OAShr {
					b = uint64(w - 1)
				} else {
					return uint64(0)
				}
			}
			return fromInt(in.tc.Bin(o, xt, in.tc.Const(b, w)), s)
		}
		yt := in.toTerm(y, yw)
		if ys && in.branch(in.tc.Cmp(OSlt, yt, in.tc.Const(0, yw))) {
			in.rtPanic("negative shift amount")
		}
		m := w
		if yw > m {
			m = yw
		}
		var xe *Term
		if s {
			xe = in.tc.Sext(xt, m)
		} else {
			xe = in.tc.Zext(xt, m)
		}
		r := in.tc.Bin(o, xe, in.tc.Zext(yt, m))
		return fromInt(in.tc.Extract(r, w-1, 0), s)
	}
}

func (c *compiler) conv(from, to types.Type) func(in *Interp, fr *Frame, v Value) Value {
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	// unsafe.Pointer
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return func(in *Interp, fr *Frame, v Value) Value {
			if u, ok := v.(uint64); ok {
				if u == 0 {
					return Ptr(nil)
				}
				panic(unsupported("uintptr to unsafe.Pointer"))
			}
			return v
		}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if ti {
			return func(in *Interp, fr *Frame, v Value) Value {
				if p, ok := v.(Ptr); ok && p == nil {
					return uint64(0)
				}
				panic(unsupported("unsafe.Pointer to uintptr"))
			}
		}
		pt, ok := to.Underlying().(*types.Pointer)
		if ok {
			_ = pt
			return func(in *Interp, fr *Frame, v Value) Value { return v }
		}
	}
	if fi && ti {
		return func(in *Interp, fr *Frame, v Value) Value {
			switch v := v.(type) {
			case uint64:
				return norm(v, tw, ts)
			case *Term:
				return fromInt(in.resize(v, fw, fs, tw), ts)
			}
			panic(unsupported("conv of %T", v))
		}
	}
	if fi && tb != nil && tb.Info()&types.IsFloat != 0 {
		f32 := tb.Kind() == types.Float32
		return func(in *Interp, fr *Frame, v Value) Value {
			u := in.concInt(v, fw)
			var f float64
			if fs {
				f = float64(int64(norm(u, fw, true)))
			} else {
				f = float64(u)
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	if fb != nil && fb.Info()&types.IsFloat != 0 {
		if ti {
			return func(in *Interp, fr *Frame, v Value) Value {
				f := v.(float64)
				if ts {
					return norm(uint64(int64(f)), tw, ts)
				}
				if f >= 9223372036854775808.0 {
					return norm(uint64(f), tw, ts)
				}
				return norm(uint64(int64(f)), tw, ts)
			}
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			f32 := tb.Kind() == types.Float32
			return func(in *Interp, fr *Frame, v Value) Value {
				if f32 {
					return float64(float32(v.(float64)))
				}
				return v
			}
		}
	}
	if fb != nil && fb.Info()&types.IsComplex != 0 && tb != nil && tb.Info()&types.IsComplex != 0 {
		return func(in *Interp, fr *Frame, v Value) Value { return v }
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fi {
			return func(in *Interp, fr *Frame, v Value) Value {
				u := in.concInt(v, fw)
				r := int64(norm(u, fw, fs))
				if r < 0 || r > math.MaxInt32 {
					return "\uFFFD"
				}
				return string(rune(r))
			}
		}
		if isByteSlice(from) {
			return func(in *Interp, fr *Frame, v Value) Value {
				s := v.(Slice)
				cp := make([]Value, len(s))
				copy(cp, s)
				return mkStr(cp)
			}
		}
		if isRuneSlice(from) {
			return func(in *Interp, fr *Frame, v Value) Value {
				var rs []rune
				for _, x := range v.(Slice) {
					rs = append(rs, rune(int32(in.concInt(x, 32))))
				}
				return string(rs)
			}
		}
		if isString(from) {
			return func(in *Interp, fr *Frame, v Value) Value { return v }
		}
	}
	if isString(from) {
		if isByteSlice(to) {
			return func(in *Interp, fr *Frame, v Value) Value {
				b := strBytes(v)
				r := make(Slice, len(b))
				copy(r, b)
				return r
			}
		}
		if isRuneSlice(to) {
			return func(in *Interp, fr *Frame, v Value) Value {
				r := Slice{}
				it := &StrIter{s: v}
				for {
					ru, n := in.decodeRune(fr, it)
					if n == 0 {
						break
					}
					r = append(r, ru)
				}
				return r
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return func(in *Interp, fr *Frame, v Value) Value { return v }
	}
	if _, ok := from.Underlying().(*types.Slice); ok {
		if at, ok := to.Underlying().(*types.Array); ok {
			n := int(at.Len())
			return func(in *Interp, fr *Frame, v Value) Value {
				s := v.(Slice)
				if len(s) < n {
					in.rtPanic("cannot convert slice to array: length too short")
				}
				return copyVal(Array(s[:n]))
			}
		}
	}
	_, p1 := from.Underlying().(*types.Pointer)
	_, p2 := to.Underlying().(*types.Pointer)
	if p1 && p2 {
		return func(in *Interp, fr *Frame, v Value) Value { return v }
	}
	return func(in *Interp, fr *Frame, v Value) Value {
		panic(unsupported("conversion %s -> %s", from, to))
	}
}

func (in *Interp) resize(t *Term, fw int, fs bool, tw int) *Term {
	switch {
	case tw == fw:
		return t
	case tw < fw:
		return in.tc.Extract(t, tw-1, 0)
	case fs:
		return in.tc.Sext(t, tw)
	default:
		return in.tc.Zext(t, tw)
	}
}

// decodeRune advances the iterator; n==0 at the end.
func (in *Interp) decodeRune(fr *Frame, it *StrIter) (Value, int) {
	n := strLen(it.s)
	if it.pos >= n {
		return uint64(0), 0
	}
	b := strAt(it.s, it.pos)
	if s, ok := it.s.(string); ok {
		r, sz := decodeRuneString(s[it.pos:])
		it.pos += sz
		return uint64(int64(r)), sz
	}
	var isASCII bool
	if c, ok := b.(uint64); ok {
		isASCII = c < 0x80
	} else {
		isASCII = in.branch(in.tc.Cmp(OUlt, b.(*Term), in.tc.Const(0x80, 8)))
	}
	if isASCII {
		it.pos++
		if t, ok := b.(*Term); ok {
			return fromInt(in.tc.Zext(t, 32), true), 1
		}
		return b, 1
	}
	f := in.eng.funcByName("unicode/utf8", "DecodeRuneInString")
	res := in.callFn(fr, f, []Value{strSlice(it.s, it.pos, n)}, nil).(Tuple)
	sz := int(in.concInt(res[1], 64))
	it.pos += sz
	return res[0], sz
}

func (c *compiler) next(ins *ssa.Next) instr {
	d, x := c.slot(ins), c.opd(ins.Iter)
	if ins.IsString {
		return func(fr *Frame) {
			it := fr.get(&x).(*StrIter)
			pos := it.pos
			r, n := fr.in.decodeRune(fr, it)
			if n == 0 {
				fr.slots[d] = Tuple{false, uint64(0), uint64(0)}
				return
			}
			fr.slots[d] = Tuple{true, uint64(pos), r}
		}
	}
	tt := ins.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	zeroOf := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return func(fr *Frame) {
		it := fr.get(&x).(*MapIter)
		if it.m != nil && fr.in.path != nil && fr.in.path.races != nil {
			fr.in.raceAccess(fr, it.m, false)
		}
		// drop dead entries
		live := it.ents[it.pos:]
		for len(live) > 0 && live[0].dead {
			live = live[1:]
			it.pos++
		}
		if it.pos >= len(it.ents) {
			fr.slots[d] = Tuple{false, zeroOf(kt), zeroOf(vt)}
			return
		}
		if it.perm && fr.in.path != nil {
			n := 0
			for _, e := range it.ents[it.pos:] {
				if !e.dead {
					n++
				}
			}
			if n > 1 {
				k := fr.in.choose(n, "maporder")
				for j := it.pos; j < len(it.ents); j++ {
					if it.ents[j].dead {
						continue
					}
					if k == 0 {
						it.ents[it.pos], it.ents[j] = it.ents[j], it.ents[it.pos]
						break
					}
					k--
				}
			}
		}
		e := it.ents[it.pos]
		it.pos++
		fr.slots[d] = Tuple{true, copyVal(e.key), copyVal(e.cell)}
	}
}

func (c *compiler) sliceOp(ins *ssa.Slice) instr {
	d, x := c.slot(ins), c.opd(ins.X)
	var lo, hi, mx *opd
	mk := func(v ssa.Value) *opd {
		if v == nil {
			return nil
		}
		o := c.opd(v)
		return &o
	}
	lo, hi, mx = mk(ins.Low), mk(ins.High), mk(ins.Max)
	return func(fr *Frame) {
		in := fr.in
		bound := func(o *opd, def int) int {
			if o == nil {
				return def
			}
			v := fr.get(o)
			if u, ok := v.(uint64); ok {
				return int(int64(u))
			}
			t := v.(*Term)
			return int(int64(norm(in.concretize(t), t.w, true)))
		}
		switch v := fr.get(&x).(type) {
		case string, *SymStr:
			n := strLen(v)
			l := bound(lo, 0)
			h := bound(hi, n)
			if h < 0 || h > n {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.slots[d] = strSlice(v, l, h)
		case Slice:
			l := bound(lo, 0)
			h := bound(hi, len(v))
			m := bound(mx, cap(v))
			in.checkSlice(l, h, m, cap(v), mx != nil)
			if v == nil {
				fr.slots[d] = Slice(nil)
				return
			}
			fr.slots[d] = v[l:h:m]
		case Ptr:
			if v == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*v).(Array)
			l := bound(lo, 0)
			h := bound(hi, len(a))
			m := bound(mx, len(a))
			in.checkSlice(l, h, m, len(a), mx != nil)
			fr.slots[d] = Slice(a)[l:h:m]
		default:
			panic(unsupported("slice of %T", v))
		}
	}
}

func (in *Interp) checkSlice(l, h, m, c int, three bool) {
	if m < 0 || m > c {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, c))
	}
	if h < 0 || h > m {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
}

func (c *compiler) typeAssert(ins *ssa.TypeAssert) instr {
	d, x := c.slot(ins), c.opd(ins.X)
	at := c.e.canon(ins.AssertedType)
	_, toIface := at.Underlying().(*types.Interface)
	ok := ins.CommaOk
	return func(fr *Frame) {
		v, isI := fr.get(&x).(Iface)
		if !isI {
			panic(unsupported("type assert on %T", fr.get(&x)))
		}
		good := false
		var r Value
		if v.T != nil {
			if toIface {
				good = fr.in.eng.implements(v.T, at)
				r = v
			} else {
				good = v.T == at
				r = v.V
			}
		}
		if good {
			if ok {
				fr.slots[d] = Tuple{copyVal(r), true}
			} else {
				fr.slots[d] = copyVal(r)
			}
			return
		}
		if ok {
			fr.slots[d] = Tuple{zero(at), false}
			return
		}
		have := "nil"
		if v.T != nil {
			have = types.TypeString(v.T, nil)
		}
		fr.in.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, types.TypeString(at, nil)))
	}
}

// prepCall evaluates callee and arguments (for go and defer).
func (c *compiler) prepCall(call *ssa.CallCommon) func(fr *Frame) (Value, []Value) {
	var args []opd
	for _, a := range call.Args {
		args = append(args, c.opd(a))
	}
	if call.IsInvoke() {
		x := c.opd(call.Value)
		name, pkg := call.Method.Name(), call.Method.Pkg()
		return func(fr *Frame) (Value, []Value) {
			v := fr.get(&x).(Iface)
			if v.T == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := fr.in.eng.method(v.T, pkg, name)
			if f == nil {
				panic(unsupported("no method %s on %s", name, v.T))
			}
			as := make([]Value, 0, len(args)+1)
			as = append(as, v.V)
			for i := range args {
				as = append(as, fr.get(&args[i]))
			}
			return f, as
		}
	}
	var fv opd
	if b, ok := call.Value.(*ssa.Builtin); ok {
		bv := builtinVal{name: b.Name()}
		for _, a := range call.Args {
			bv.args = append(bv.args, a.Type())
		}
		bv.res = call.Signature().Results()
		if s := call.Signature(); s.Results().Len() == 1 {
			bv.res = s.Results().At(0).Type()
		}
		fv = opd{kind: oConst, v: bv}
	} else {
		fv = c.opd(call.Value)
	}
	return func(fr *Frame) (Value, []Value) {
		f := fr.get(&fv)
		as := make([]Value, len(args))
		for i := range args {
			as[i] = fr.get(&args[i])
		}
		return f, as
	}
}

func (c *compiler) call(call *ssa.CallCommon) func(fr *Frame) Value {
	if !call.IsInvoke() {
		if fn, ok := call.Value.(*ssa.Function); ok {
			// package initialisers are run lazily instead
			if fn.Synthetic == "package initializer" {
				return func(fr *Frame) Value { return nil }
			}
			f := c.e.fun(fn)
			var args []opd
			for _, a := range call.Args {
				args = append(args, c.opd(a))
			}
			return func(fr *Frame) Value {
				as := make([]Value, len(args))
				for i := range args {
					as[i] = fr.get(&args[i])
				}
				return fr.in.callFn(fr, f, as, nil)
			}
		}
	}
	prep := c.prepCall(call)
	return func(fr *Frame) Value {
		f, as := prep(fr)
		return fr.in.callValue(fr, f, as)
	}
}

func (c *compiler) selectOp(ins *ssa.Select) instr {
	d := c.slot(ins)
	type st struct {
		send bool
		ch   opd
		val  opd
		et   types.Type
	}
	var sts []st
	for _, s := range ins.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.opd(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.val = c.opd(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := ins.Blocking
	return func(fr *Frame) {
		cases := make([]selCase, len(sts))
		for i := range sts {
			cases[i] = selCase{ch: fr.get(&sts[i].ch).(*Chan), send: sts[i].send}
			if sts[i].send {
				cases[i].val = copyVal(fr.get(&sts[i].val))
			}
		}
		idx, v, ok := fr.in.chanSelect(fr, cases, blocking)
		res := Tuple{uint64(int64(idx)), ok}
		for i := range sts {
			if sts[i].send {
				continue
			}
			if i == idx && ok {
				res = append(res, v)
			} else {
				res = append(res, zero(sts[i].et))
			}
		}
		fr.slots[d] = res
	}
}
