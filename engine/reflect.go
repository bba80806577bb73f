package main

// Package reflect over the interpreter's own values and types: the functions
// below replace the real ones, everything else of the package is refused.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// RType is the payload of a reflect.Type.
type RType struct{ T types.Type }

// RVal is the payload of a reflect.Value (in its first field).
type RVal struct {
	T    types.Type
	v    Value
	addr Ptr // set: the value is addressable, and stored there
	ro   bool
}

func (r *RVal) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

// MapIterState is the payload of a *reflect.MapIter.
type MapIterState struct {
	r    *RVal
	ents []*mapEnt
	pos  int
}

// reflectReal are the functions of package reflect that run as they are.
var reflectReal = map[string]bool{
	"(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true, "(*reflect.ValueError).Error": true, "(reflect.Kind).String": true,
	"reflect.VisibleFields": true, "(*reflect.visibleFieldsWalker).walk": true, "(reflect.ChanDir).String": true, "(reflect.StructField).IsExported": true,
	"(reflect.Method).IsExported": true,
}

func rval(t types.Type, v Value) Value      { return Struct{&RVal{T: t, v: v}, Ptr(nil), uint64(1)} }
func rvalOf(r *RVal) Value                  { return Struct{r, Ptr(nil), uint64(1)} }
func rinvalid() Value                       { return Struct{Ptr(nil), Ptr(nil), uint64(0)} }
func (in *Interp) rtype(t types.Type) Value { return Iface{in.eng.rtypeT, RType{in.eng.canon(t)}} }

func (in *Interp) rarg(v Value) *RVal {
	r, ok := v.(Struct)[0].(*RVal)
	if !ok {
		in.rtPanic("reflect: call on zero Value")
	}
	return r
}

func (in *Interp) typeArg(v Value) types.Type {
	i := v.(Iface)
	if i.T == nil {
		in.rtPanic("reflect: nil type")
	}
	return i.V.(RType).T
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	panic(unsupported("reflect kind of %s", t))
}

func reflectTypeString(t types.Type) string {
	s := types.TypeString(t, shortQual)
	if strings.Contains(s, "interface{}") {
		s = strings.ReplaceAll(s, "interface{}", "interface {}")
	}
	if s == "any" {
		return "interface {}"
	}
	return strings.ReplaceAll(s, "]any", "]interface {}")
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func typePkg(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (e *Engine) exportedMethods(t types.Type) []*types.Selection {
	var r []*types.Selection
	e.mu.Lock()
	ms := e.msets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if token.IsExported(ms.At(i).Obj().Name()) {
			r = append(r, ms.At(i))
		}
	}
	e.mu.Unlock()
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func (in *Interp) fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field %s", name))
}

func (in *Interp) structField(t types.Type, i int) Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i < 0 || i >= st.NumFields() {
		in.rtPanic("reflect: Field index out of bounds")
	}
	f := st.Field(i)
	sft := in.eng.namedType("reflect", "StructField")
	u := sft.Underlying().(*types.Struct)
	r := zero(sft).(Struct)
	r[in.fieldIndex(u, "Name")] = f.Name()
	if !f.Exported() && f.Pkg() != nil {
		r[in.fieldIndex(u, "PkgPath")] = f.Pkg().Path()
	}
	r[in.fieldIndex(u, "Type")] = in.rtype(f.Type())
	r[in.fieldIndex(u, "Tag")] = st.Tag(i)
	r[in.fieldIndex(u, "Index")] = Slice{uint64(i)}
	r[in.fieldIndex(u, "Anonymous")] = f.Anonymous()
	return r
}

func (in *Interp) rfield(r *RVal, i int) *RVal {
	st, ok := r.T.Underlying().(*types.Struct)
	if !ok || i < 0 || i >= st.NumFields() {
		in.rtPanic("reflect: Field index out of range")
	}
	f := &RVal{T: in.eng.canon(st.Field(i).Type()), ro: r.ro || !st.Field(i).Exported()}
	if r.addr != nil {
		f.addr = &(*r.addr).(Struct)[i]
	} else {
		f.v = r.v.(Struct)[i]
	}
	return f
}

func (in *Interp) relem(r *RVal) (*RVal, bool) {
	switch u := r.T.Underlying().(type) {
	case *types.Interface:
		i := r.get().(Iface)
		if i.T == nil {
			return nil, false
		}
		return &RVal{T: i.T, v: i.V, ro: r.ro}, true
	case *types.Pointer:
		p, ok := r.get().(Ptr)
		if !ok {
			panic(unsupported("reflect Elem of %T", r.get()))
		}
		if p == nil {
			return nil, false
		}
		return &RVal{T: in.eng.canon(u.Elem()), addr: p, ro: r.ro}, true
	}
	in.rtPanic("reflect: call of reflect.Value.Elem on " + reflectTypeString(r.T) + " Value")
	return nil, false
}

// assignable gives the value as one of type t.
func (in *Interp) rassign(t types.Type, x *RVal) Value {
	v := copyVal(x.get())
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := x.T.Underlying().(*types.Interface); ok {
			return v
		}
		if !in.eng.implements(x.T, t) {
			in.rtPanic("reflect.Set: value of type " + reflectTypeString(x.T) + " is not assignable to type " + reflectTypeString(t))
		}
		return Iface{in.eng.canon(x.T), v}
	}
	if !types.AssignableTo(x.T, t) {
		in.rtPanic("reflect.Set: value of type " + reflectTypeString(x.T) + " is not assignable to type " + reflectTypeString(t))
	}
	return v
}

func (in *Interp) rset(r *RVal, v Value) {
	if r.addr == nil || r.ro {
		in.rtPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	storeInto(r.addr, v)
}

func (in *Interp) rindex(r *RVal, i int) *RVal {
	switch u := r.T.Underlying().(type) {
	case *types.Slice:
		s := r.get().(Slice)
		if i < 0 || i >= len(s) {
			in.rtPanic("reflect: slice index out of range")
		}
		return &RVal{T: in.eng.canon(u.Elem()), addr: &s[i], ro: r.ro}
	case *types.Array:
		a := r.get().(Array)
		if i < 0 || i >= len(a) {
			in.rtPanic("reflect: array index out of range")
		}
		if r.addr != nil {
			return &RVal{T: in.eng.canon(u.Elem()), addr: &a[i], ro: r.ro}
		}
		return &RVal{T: in.eng.canon(u.Elem()), v: a[i], ro: r.ro}
	case *types.Basic:
		if i < 0 || i >= strLen(r.get()) {
			in.rtPanic("reflect: string index out of range")
		}
		return &RVal{T: in.eng.canon(types.Typ[types.Uint8]), v: strAt(r.get(), i), ro: r.ro}
	}
	in.rtPanic("reflect: call of reflect.Value.Index on " + reflectTypeString(r.T) + " Value")
	return nil
}

func (in *Interp) rlen(r *RVal) int {
	switch v := r.get().(type) {
	case Slice:
		return len(v)
	case Array:
		return len(v)
	case string, *SymStr:
		return strLen(v)
	case *Map:
		if v == nil {
			return 0
		}
		return v.n
	case Ptr:
		if v != nil {
			if a, ok := (*v).(Array); ok {
				return len(a)
			}
		}
	}
	in.rtPanic("reflect: call of reflect.Value.Len on " + reflectTypeString(r.T) + " Value")
	return 0
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case Ptr:
		return v == nil
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case *Closure:
		return v == nil
	case Iface:
		return v.T == nil
	}
	return false
}

func (in *Interp) isZero(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := in.tc.tTrue
		for i, x := range v.(Struct) {
			r = in.tc.And(r, in.toBool(in.isZero(u.Field(i).Type(), x)))
		}
		return fromBool(r)
	case *types.Array:
		r := in.tc.tTrue
		for _, x := range v.(Array) {
			r = in.tc.And(r, in.toBool(in.isZero(u.Elem(), x)))
		}
		return fromBool(r)
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return fromBool(in.tc.Eq(in.toTerm(v, w), in.toTerm(uint64(0), w)))
		}
		if isString(t) {
			return strLen(v) == 0
		}
		return in.equal(v, zero(t))
	}
	return isNilVal(v)
}

func growSlice(s Slice, n int, et types.Type) Slice {
	if len(s)+n <= cap(s) {
		return s
	}
	c := growCap(cap(s), len(s)+n)
	r := make(Slice, len(s), c)
	for i := range s {
		r[i] = copyVal(s[i])
	}
	fillZero(r[len(s):c:c], et)
	return r
}

func (in *Interp) rconv(from, to types.Type, fr *Frame, v Value) Value {
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, ok := from.Underlying().(*types.Interface); ok {
			return v
		}
		return Iface{in.eng.canon(from), copyVal(v)}
	}
	return (&compiler{e: in.eng}).conv(from, to)(in, fr, v)
}

// deepEqual is reflect.DeepEqual as a condition.
func (in *Interp) deepEqual(t types.Type, a, b Value, depth int) *Term {
	if depth > 100 {
		panic(unsupported("reflect.DeepEqual of deep value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.T == nil || y.T == nil || x.T != y.T {
			return in.tc.Bool(x.T == y.T)
		}
		return in.deepEqual(x.T, x.V, y.V, depth+1)
	case *types.Pointer:
		x, _ := a.(Ptr)
		y, _ := b.(Ptr)
		if x == y || x == nil || y == nil {
			return in.tc.Bool(x == y)
		}
		return in.deepEqual(u.Elem(), *x, *y, depth+1)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := in.tc.tTrue
		for i := range x {
			r = in.tc.And(r, in.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := in.tc.tTrue
		for i := range x {
			r = in.tc.And(r, in.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return in.tc.tFalse
		}
		r := in.tc.tTrue
		for i := range x {
			r = in.tc.And(r, in.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return in.tc.tFalse
		}
		if x == nil {
			return in.tc.tTrue
		}
		if x.n != y.n {
			return in.tc.tFalse
		}
		r := in.tc.tTrue
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := in.mapFind(y, e.key)
			if f == nil {
				return in.tc.tFalse
			}
			r = in.tc.And(r, in.deepEqual(u.Elem(), e.cell, f.cell, depth+1))
		}
		return r
	case *types.Signature:
		return in.tc.Bool(isNilVal(a) && isNilVal(b))
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return in.tc.Eq(in.toTerm(a, w), in.toTerm(b, w))
		}
		if isString(t) {
			return in.toBool(in.symStrEq(a, b))
		}
	}
	return in.toBool(in.equal(a, b))
}

func (in *Interp) newCell(v Value) Ptr {
	p := new(Value)
	*p = v
	return p
}

func init() {
	type vfn = func(in *Interp, fr *Frame, r *RVal, a []Value) Value
	// ---- Value ----
	vm := func(names string, f vfn) {
		for _, n := range strings.Fields(names) {
			reg("(reflect.Value)."+n, func(in *Interp, fr *Frame, a []Value) Value { return f(in, fr, in.rarg(a[0]), a[1:]) })
		}
	}
	reg("(reflect.Value).IsValid", func(in *Interp, fr *Frame, a []Value) Value {
		_, ok := a[0].(Struct)[0].(*RVal)
		return ok
	})
	reg("(reflect.Value).Kind", func(in *Interp, fr *Frame, a []Value) Value {
		r, ok := a[0].(Struct)[0].(*RVal)
		if !ok {
			return uint64(0)
		}
		return kindOf(r.T)
	})
	reg("(reflect.Value).String", func(in *Interp, fr *Frame, a []Value) Value {
		r, ok := a[0].(Struct)[0].(*RVal)
		if !ok {
			return "<invalid Value>"
		}
		if isString(r.T) {
			return r.get()
		}
		return "<" + reflectTypeString(r.T) + " Value>"
	})
	vm("Type", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return in.rtype(r.T) })
	vm("Elem", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if e, ok := in.relem(r); ok {
			return rvalOf(e)
		}
		return rinvalid()
	})
	vm("IsNil", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		switch kindOf(r.T) {
		case 18, 19, 20, 21, 22, 23, 26:
			return isNilVal(r.get())
		}
		in.rtPanic("reflect: call of reflect.Value.IsNil on " + reflectTypeString(r.T) + " Value")
		return nil
	})
	vm("Interface", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if r.ro {
			in.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if _, ok := r.T.Underlying().(*types.Interface); ok {
			return r.get()
		}
		return Iface{in.eng.canon(r.T), copyVal(r.get())}
	})
	vm("CanInterface", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return !r.ro })
	vm("CanSet", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return r.addr != nil && !r.ro })
	vm("CanAddr", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return r.addr != nil })
	vm("Addr", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if r.addr == nil {
			in.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return rvalOf(&RVal{T: in.eng.canon(types.NewPointer(r.T)), v: r.addr, ro: r.ro})
	})
	vm("Set", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		in.rset(r, in.rassign(r.T, in.rarg(a[0])))
		return nil
	})
	vm("SetZero", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		in.rset(r, zero(r.T))
		return nil
	})
	vm("IsZero", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return in.isZero(r.T, r.get()) })
	vm("Len", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return uint64(in.rlen(r)) })
	vm("Cap", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if s, ok := r.get().(Slice); ok {
			return uint64(cap(s))
		}
		return uint64(in.rlen(r))
	})
	vm("Index", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return rvalOf(in.rindex(r, intArg(in, a[0]))) })
	vm("Field", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return rvalOf(in.rfield(r, intArg(in, a[0]))) })
	vm("NumField", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		return uint64(r.T.Underlying().(*types.Struct).NumFields())
	})
	byIndex := func(in *Interp, r *RVal, idx Slice) *RVal {
		for k, i := range idx {
			if k > 0 {
				if _, ok := r.T.Underlying().(*types.Pointer); ok {
					e, ok := in.relem(r)
					if !ok {
						in.rtPanic("reflect: indirection through nil pointer to embedded struct")
					}
					r = e
				}
			}
			r = in.rfield(r, intArg(in, i))
		}
		return r
	}
	vm("FieldByIndex", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return rvalOf(byIndex(in, r, a[0].(Slice))) })
	vm("FieldByIndexErr", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		return Tuple{rvalOf(byIndex(in, r, a[0].(Slice))), Iface{}}
	})
	lookupField := func(in *Interp, t types.Type, name string) ([]int, *types.Var) {
		obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
		if f, ok := obj.(*types.Var); ok {
			return idx, f
		}
		return nil, nil
	}
	vm("FieldByName", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		idx, f := lookupField(in, r.T, in.concStr(a[0]))
		if f == nil {
			return rinvalid()
		}
		var s Slice
		for _, i := range idx {
			s = append(s, uint64(i))
		}
		return rvalOf(byIndex(in, r, s))
	})
	vm("NumMethod", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if it, ok := r.T.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(in.eng.exportedMethods(r.T)))
	})
	method := func(in *Interp, r *RVal, name string, sig types.Type) Value {
		recv, t := r.get(), r.T
		if _, ok := t.Underlying().(*types.Interface); ok {
			i := recv.(Iface)
			recv, t = i.V, i.T
		}
		c := &Closure{native: func(in *Interp, fr *Frame, args []Value) Value {
			return in.callMethod(fr, Iface{in.eng.canon(t), recv}, name, args...)
		}}
		return rval(in.eng.canon(sig), c)
	}
	vm("Method", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		ms := in.eng.exportedMethods(r.T)
		i := intArg(in, a[0])
		if i < 0 || i >= len(ms) {
			in.rtPanic("reflect: Method index out of range")
		}
		return method(in, r, ms[i].Obj().Name(), ms[i].Type())
	})
	vm("MethodByName", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		n := in.concStr(a[0])
		for _, m := range in.eng.exportedMethods(r.T) {
			if m.Obj().Name() == n {
				return method(in, r, n, m.Type())
			}
		}
		return rinvalid()
	})
	vm("Call", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		sig := r.T.Underlying().(*types.Signature)
		var args []Value
		in0 := a[0].(Slice)
		np := sig.Params().Len()
		for i, x := range in0 {
			if sig.Variadic() && i >= np-1 {
				break
			}
			if i >= np {
				in.rtPanic("reflect: Call with too many input arguments")
			}
			args = append(args, in.rassign(sig.Params().At(i).Type(), in.rarg(x)))
		}
		if sig.Variadic() {
			et := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
			var s Slice
			for _, x := range in0[min(len(in0), np-1):] {
				s = append(s, in.rassign(et, in.rarg(x)))
			}
			args = append(args, s)
		} else if len(args) < np {
			in.rtPanic("reflect: Call with too few input arguments")
		}
		res := in.callValue(fr, r.get(), args)
		switch n := sig.Results().Len(); n {
		case 0:
			return Slice(nil)
		case 1:
			return Slice{rval(in.eng.canon(sig.Results().At(0).Type()), res)}
		default:
			var out Slice
			for i, x := range res.(Tuple) {
				out = append(out, rval(in.eng.canon(sig.Results().At(i).Type()), x))
			}
			return out
		}
	})
	live := func(m *Map) []*mapEnt {
		if m == nil {
			return nil
		}
		var r []*mapEnt
		for _, e := range m.ents {
			if !e.dead {
				r = append(r, e)
			}
		}
		return r
	}
	vm("MapKeys", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		kt := in.eng.canon(r.T.Underlying().(*types.Map).Key())
		s := Slice{}
		for _, e := range live(r.get().(*Map)) {
			s = append(s, rval(kt, copyVal(e.key)))
		}
		return s
	})
	vm("MapRange", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		return in.newCell(Struct{&MapIterState{r: r, ents: live(r.get().(*Map)), pos: -1}})
	})
	mi := func(v Value) *MapIterState { return (*v.(Ptr)).(Struct)[0].(*MapIterState) }
	reg("(*reflect.MapIter).Next", func(in *Interp, fr *Frame, a []Value) Value {
		it := mi(a[0])
		it.pos++
		for it.pos < len(it.ents) && it.ents[it.pos].dead {
			it.pos++
		}
		return it.pos < len(it.ents)
	})
	reg("(*reflect.MapIter).Key", func(in *Interp, fr *Frame, a []Value) Value {
		it := mi(a[0])
		return rval(in.eng.canon(it.r.T.Underlying().(*types.Map).Key()), copyVal(it.ents[it.pos].key))
	})
	reg("(*reflect.MapIter).Value", func(in *Interp, fr *Frame, a []Value) Value {
		it := mi(a[0])
		return rval(in.eng.canon(it.r.T.Underlying().(*types.Map).Elem()), copyVal(it.ents[it.pos].cell))
	})
	vm("SetIterKey", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		it := mi(a[0])
		in.rset(r, in.rassign(r.T, &RVal{T: in.eng.canon(it.r.T.Underlying().(*types.Map).Key()), v: it.ents[it.pos].key}))
		return nil
	})
	vm("SetIterValue", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		it := mi(a[0])
		in.rset(r, in.rassign(r.T, &RVal{T: in.eng.canon(it.r.T.Underlying().(*types.Map).Elem()), v: it.ents[it.pos].cell}))
		return nil
	})
	vm("MapIndex", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		mt := r.T.Underlying().(*types.Map)
		m := r.get().(*Map)
		if m == nil {
			return rinvalid()
		}
		e := in.mapFind(m, in.rassign(mt.Key(), in.rarg(a[0])))
		if e == nil {
			return rinvalid()
		}
		return rval(in.eng.canon(mt.Elem()), copyVal(e.cell))
	})
	vm("SetMapIndex", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		mt := r.T.Underlying().(*types.Map)
		m := r.get().(*Map)
		k := in.rassign(mt.Key(), in.rarg(a[0]))
		if _, ok := a[1].(Struct)[0].(*RVal); !ok {
			if m != nil {
				in.mapDelete(m, k)
			}
			return nil
		}
		if m == nil {
			in.rtPanic("assignment to entry in nil map")
		}
		in.checkHashable(k)
		in.mapSet(m, k, in.rassign(mt.Elem(), in.rarg(a[1])))
		return nil
	})
	// scalars
	need := func(in *Interp, r *RVal, what string, lo, hi uint64) {
		if k := kindOf(r.T); k < lo || k > hi {
			in.rtPanic("reflect: call of reflect.Value." + what + " on " + reflectTypeString(r.T) + " Value")
		}
	}
	vm("Int", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "Int", 2, 6)
		return in.rconv(r.T, types.Typ[types.Int64], fr, r.get())
	})
	vm("Uint", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "Uint", 7, 12)
		return in.rconv(r.T, types.Typ[types.Uint64], fr, r.get())
	})
	vm("Float", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "Float", 13, 14)
		return r.get()
	})
	vm("Bool", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "Bool", 1, 1)
		return r.get()
	})
	vm("Bytes", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		switch v := r.get().(type) {
		case Slice:
			return v
		case Array:
			return Slice(v)
		}
		in.rtPanic("reflect: call of reflect.Value.Bytes on " + reflectTypeString(r.T) + " Value")
		return nil
	})
	vm("SetInt", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "SetInt", 2, 6)
		in.rset(r, in.rconv(types.Typ[types.Int64], r.T, fr, a[0]))
		return nil
	})
	vm("SetUint", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "SetUint", 7, 12)
		in.rset(r, in.rconv(types.Typ[types.Uint64], r.T, fr, a[0]))
		return nil
	})
	vm("SetFloat", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "SetFloat", 13, 14)
		in.rset(r, in.rconv(types.Typ[types.Float64], r.T, fr, a[0]))
		return nil
	})
	vm("SetBool", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "SetBool", 1, 1)
		in.rset(r, a[0])
		return nil
	})
	vm("SetString", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		need(in, r, "SetString", 24, 24)
		in.rset(r, a[0])
		return nil
	})
	vm("SetBytes", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		in.rset(r, a[0])
		return nil
	})
	fits := func(in *Interp, v Value, w int, signed bool) Value {
		if w >= 64 {
			return false
		}
		if c, ok := v.(uint64); ok {
			return norm(c, w, signed) != c
		}
		t := v.(*Term)
		back := in.resize(in.resize(t, 64, signed, w), w, signed, 64)
		return fromBool(in.tc.Not(in.tc.Eq(t, back)))
	}
	vm("OverflowInt", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		w, _, _ := intInfo(r.T)
		return fits(in, a[0], w, true)
	})
	vm("OverflowUint", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		w, _, _ := intInfo(r.T)
		return fits(in, a[0], w, false)
	})
	vm("OverflowFloat", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if kindOf(r.T) == 14 {
			return false
		}
		f := a[0].(float64)
		if f < 0 {
			f = -f
		}
		return f > 3.40282346638528859811704183484516925440e+38 && f <= 1.79769313486231570814527423731704356798070e+308
	})
	vm("CanInt", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { k := kindOf(r.T); return k >= 2 && k <= 6 })
	vm("CanUint", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { k := kindOf(r.T); return k >= 7 && k <= 12 })
	vm("CanFloat", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { k := kindOf(r.T); return k >= 13 && k <= 14 })
	// slices
	vm("SetLen", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		s, n := r.get().(Slice), intArg(in, a[0])
		if n < 0 || n > cap(s) {
			in.rtPanic("reflect: slice length out of range in SetLen")
		}
		in.rset(r, s[:n])
		return nil
	})
	vm("SetCap", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		s, n := r.get().(Slice), intArg(in, a[0])
		if n < len(s) || n > cap(s) {
			in.rtPanic("reflect: slice capacity out of range in SetCap")
		}
		in.rset(r, s[:len(s):n])
		return nil
	})
	vm("Grow", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		in.rset(r, growSlice(r.get().(Slice), intArg(in, a[0]), r.T.Underlying().(*types.Slice).Elem()))
		return nil
	})
	vm("Slice", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		i, j := intArg(in, a[0]), intArg(in, a[1])
		switch v := r.get().(type) {
		case Slice:
			in.checkSlice(i, j, cap(v), cap(v), false)
			return rval(r.T, v[i:j])
		case Array:
			in.checkSlice(i, j, len(v), len(v), false)
			return rval(in.eng.canon(types.NewSlice(r.T.Underlying().(*types.Array).Elem())), Slice(v)[i:j])
		default:
			return rval(r.T, strSlice(v, i, j))
		}
	})
	vm("Convert", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		t := in.typeArg(a[0])
		return rval(t, in.rconv(r.T, t, fr, copyVal(r.get())))
	})
	vm("CanConvert", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return types.ConvertibleTo(r.T, in.typeArg(a[0])) })
	vm("Pointer UnsafePointer UnsafeAddr", func(in *Interp, fr *Frame, r *RVal, a []Value) Value {
		if c, ok := r.get().(*Closure); ok {
			if c == nil {
				return uint64(0)
			}
			if c.fn != nil {
				return in.eng.funcPC(c.fn)
			}
		}
		panic(unsupported("reflect.Value.Pointer of %s", r.T))
	})
	vm("Comparable", func(in *Interp, fr *Frame, r *RVal, a []Value) Value { return types.Comparable(r.T) })
	reg("(reflect.Value).Equal", func(in *Interp, fr *Frame, a []Value) Value {
		ra, oka := a[0].(Struct)[0].(*RVal)
		rb, okb := a[1].(Struct)[0].(*RVal)
		deref := func(r *RVal, ok bool) (*RVal, bool) {
			if ok {
				if _, isI := r.T.Underlying().(*types.Interface); isI {
					return in.relem(r)
				}
			}
			return r, ok
		}
		ra, oka = deref(ra, oka)
		rb, okb = deref(rb, okb)
		if !oka || !okb {
			return oka == okb
		}
		if in.eng.canon(ra.T) != in.eng.canon(rb.T) {
			return false
		}
		return in.equal(ra.get(), rb.get())
	})

	// ---- constructors ----
	reg("reflect.ValueOf", func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return rinvalid()
		}
		return rval(i.T, i.V)
	})
	reg("reflect.TypeOf internal/reflectlite.TypeOf", func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return Iface{}
		}
		return in.rtype(i.T)
	})
	reg("reflect.New", func(in *Interp, fr *Frame, a []Value) Value {
		t := in.typeArg(a[0])
		return rval(in.eng.canon(types.NewPointer(t)), in.newCell(zero(t)))
	})
	reg("reflect.Zero", func(in *Interp, fr *Frame, a []Value) Value {
		t := in.typeArg(a[0])
		return rval(t, zero(t))
	})
	reg("reflect.Indirect", func(in *Interp, fr *Frame, a []Value) Value {
		r := in.rarg(a[0])
		if _, ok := r.T.Underlying().(*types.Pointer); !ok {
			return a[0]
		}
		if e, ok := in.relem(r); ok {
			return rvalOf(e)
		}
		return rinvalid()
	})
	reg("reflect.MakeSlice", func(in *Interp, fr *Frame, a []Value) Value {
		t := in.typeArg(a[0])
		n, c := intArg(in, a[1]), intArg(in, a[2])
		s := make(Slice, c)
		fillZero(s, t.Underlying().(*types.Slice).Elem())
		return rval(t, s[:n])
	})
	mkMap := func(in *Interp, fr *Frame, a []Value) Value {
		t := in.typeArg(a[0])
		return rval(t, newMap(t.Underlying().(*types.Map).Key()))
	}
	reg("reflect.MakeMap reflect.MakeMapWithSize", mkMap)
	reg("reflect.Append", func(in *Interp, fr *Frame, a []Value) Value {
		r := in.rarg(a[0])
		et := r.T.Underlying().(*types.Slice).Elem()
		s := r.get().(Slice)
		for _, x := range a[1].(Slice) {
			s = growSlice(s, 1, et)
			s = s[:len(s)+1]
			s[len(s)-1] = in.rassign(et, in.rarg(x))
		}
		return rval(r.T, s)
	})
	reg("reflect.AppendSlice", func(in *Interp, fr *Frame, a []Value) Value {
		r, y := in.rarg(a[0]), in.rarg(a[1])
		et := r.T.Underlying().(*types.Slice).Elem()
		s := r.get().(Slice)
		for _, x := range y.get().(Slice) {
			s = growSlice(s, 1, et)
			s = s[:len(s)+1]
			s[len(s)-1] = copyVal(x)
		}
		return rval(r.T, s)
	})
	reg("reflect.Copy", func(in *Interp, fr *Frame, a []Value) Value {
		d, s := in.rarg(a[0]), in.rarg(a[1])
		var src []Value
		switch v := s.get().(type) {
		case Slice:
			src = v
		case Array:
			src = v
		default:
			src = strBytes(v)
		}
		var dst []Value
		switch v := d.get().(type) {
		case Slice:
			dst = v
		case Array:
			dst = v
		}
		n := min(len(src), len(dst))
		for i := 0; i < n; i++ {
			storeInto(&dst[i], src[i])
		}
		return uint64(n)
	})
	reg("reflect.PtrTo reflect.PointerTo", func(in *Interp, fr *Frame, a []Value) Value {
		return in.rtype(types.NewPointer(in.typeArg(a[0])))
	})
	reg("reflect.SliceOf", func(in *Interp, fr *Frame, a []Value) Value { return in.rtype(types.NewSlice(in.typeArg(a[0]))) })
	reg("reflect.MapOf", func(in *Interp, fr *Frame, a []Value) Value {
		return in.rtype(types.NewMap(in.typeArg(a[0]), in.typeArg(a[1])))
	})
	reg("reflect.DeepEqual", func(in *Interp, fr *Frame, a []Value) Value {
		return fromBool(in.deepEqual(types.NewInterfaceType(nil, nil), a[0], a[1], 0))
	})
	reg("reflect.Swapper", func(in *Interp, fr *Frame, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		return &Closure{native: func(in *Interp, fr *Frame, args []Value) Value {
			i, j := intArg(in, args[0]), intArg(in, args[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			return nil
		}}
	})

	// ---- Type ----
	tm := func(names string, f func(in *Interp, fr *Frame, t types.Type, a []Value) Value) {
		for _, n := range strings.Fields(names) {
			reg("(*reflect.rtype)."+n, func(in *Interp, fr *Frame, a []Value) Value { return f(in, fr, a[0].(RType).T, a[1:]) })
		}
	}
	tm("Kind", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return kindOf(t) })
	tm("String", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return reflectTypeString(t) })
	tm("Name", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return typeName(t) })
	tm("PkgPath", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return typePkg(t) })
	tm("Elem", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return in.rtype(u.Elem())
		case *types.Slice:
			return in.rtype(u.Elem())
		case *types.Array:
			return in.rtype(u.Elem())
		case *types.Map:
			return in.rtype(u.Elem())
		case *types.Chan:
			return in.rtype(u.Elem())
		}
		in.rtPanic("reflect: Elem of invalid type " + reflectTypeString(t))
		return nil
	})
	tm("Key", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		u, ok := t.Underlying().(*types.Map)
		if !ok {
			in.rtPanic("reflect: Key of non-map type " + reflectTypeString(t))
		}
		return in.rtype(u.Key())
	})
	tm("Len", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Array).Len())
	})
	tm("NumField", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			in.rtPanic("reflect: NumField of non-struct type " + reflectTypeString(t))
		}
		return uint64(st.NumFields())
	})
	tm("Field", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return in.structField(t, intArg(in, a[0])) })
	tm("FieldByIndex", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		var f Struct
		for k, i := range a[0].(Slice) {
			if k > 0 {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
			}
			f = in.structField(t, intArg(in, i))
			t = t.Underlying().(*types.Struct).Field(intArg(in, i)).Type()
		}
		return f
	})
	tm("FieldByName", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		idx, f := lookupField(in, t, in.concStr(a[0]))
		if f == nil || len(idx) != 1 {
			if f != nil {
				panic(unsupported("reflect FieldByName of promoted field"))
			}
			return Tuple{zero(in.eng.namedType("reflect", "StructField")), false}
		}
		return Tuple{in.structField(t, idx[0]), true}
	})
	tm("NumMethod", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(in.eng.exportedMethods(t)))
	})
	mstruct := func(in *Interp, t types.Type, s *types.Selection, i int) Struct {
		mt := in.eng.namedType("reflect", "Method")
		u := mt.Underlying().(*types.Struct)
		r := zero(mt).(Struct)
		r[in.fieldIndex(u, "Name")] = s.Obj().Name()
		sig := s.Type().(*types.Signature)
		ps := []*types.Var{types.NewVar(token.NoPos, nil, "", t)}
		for k := 0; k < sig.Params().Len(); k++ {
			ps = append(ps, sig.Params().At(k))
		}
		full := in.eng.canon(types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic()))
		r[in.fieldIndex(u, "Type")] = in.rtype(full)
		name := s.Obj().Name()
		r[in.fieldIndex(u, "Func")] = rval(full, &Closure{native: func(in *Interp, fr *Frame, args []Value) Value {
			return in.callMethod(fr, Iface{in.eng.canon(t), args[0]}, name, args[1:]...)
		}})
		r[in.fieldIndex(u, "Index")] = uint64(i)
		return r
	}
	tm("Method", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		ms := in.eng.exportedMethods(t)
		i := intArg(in, a[0])
		if i < 0 || i >= len(ms) {
			in.rtPanic("reflect: Method index out of range")
		}
		return mstruct(in, t, ms[i], i)
	})
	tm("MethodByName", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		n := in.concStr(a[0])
		for i, m := range in.eng.exportedMethods(t) {
			if m.Obj().Name() == n {
				return Tuple{mstruct(in, t, m, i), true}
			}
		}
		return Tuple{zero(in.eng.namedType("reflect", "Method")), false}
	})
	tm("Implements", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		it := in.typeArg(a[0])
		if _, ok := it.Underlying().(*types.Interface); !ok {
			in.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return in.eng.implements(t, it)
	})
	tm("AssignableTo", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		u := in.typeArg(a[0])
		if _, ok := u.Underlying().(*types.Interface); ok {
			return in.eng.implements(t, u)
		}
		return types.AssignableTo(t, u)
	})
	tm("ConvertibleTo", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return types.ConvertibleTo(t, in.typeArg(a[0])) })
	tm("Comparable", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return types.Comparable(t) })
	tm("Bits", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		if w, _, ok := intInfo(t); ok {
			return uint64(w)
		}
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t) * 8)
	})
	tm("Size", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
	})
	sigOf := func(in *Interp, t types.Type) *types.Signature {
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			in.rtPanic("reflect: call on non-func type " + reflectTypeString(t))
		}
		return s
	}
	tm("NumIn", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return uint64(sigOf(in, t).Params().Len()) })
	tm("NumOut", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return uint64(sigOf(in, t).Results().Len()) })
	tm("In", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		return in.rtype(sigOf(in, t).Params().At(intArg(in, a[0])).Type())
	})
	tm("Out", func(in *Interp, fr *Frame, t types.Type, a []Value) Value {
		return in.rtype(sigOf(in, t).Results().At(intArg(in, a[0])).Type())
	})
	tm("IsVariadic", func(in *Interp, fr *Frame, t types.Type, a []Value) Value { return sigOf(in, t).Variadic() })
}

// funcPC is a number that stands for the code address of f: only equality of such numbers means something.
func (e *Engine) funcPC(f *Func) uint64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.pcs == nil {
		e.pcs = map[*Func]uint64{}
	}
	if e.pcs[f] == 0 {
		e.pcs[f] = 0x400000 + 64*uint64(len(e.pcs))
	}
	return e.pcs[f]
}

// typeAssert is reflect.TypeAssert[t].
func (in *Interp) typeAssert(t types.Type, r *RVal) Value {
	i, ok := Iface{}, true
	if r == nil {
		in.rtPanic("reflect: call of reflect.TypeAssert on zero Value")
	}
	if r.ro {
		in.rtPanic("reflect.TypeAssert: cannot return value obtained from unexported field or method")
	}
	if _, isI := r.T.Underlying().(*types.Interface); isI {
		i = r.get().(Iface)
	} else {
		i = Iface{in.eng.canon(r.T), copyVal(r.get())}
	}
	if it, isI := t.Underlying().(*types.Interface); isI {
		ok = i.T != nil && in.eng.implements(i.T, it)
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{i, true}
	}
	if i.T == nil || in.eng.canon(t) != i.T {
		return Tuple{zero(t), false}
	}
	return Tuple{i.V, true}
}

func init() {
	// Zero-copy conversions of strings (which nobody writes to).
	reg("github.com/vmihailenco/tagparser/internal.StringToBytes github.com/vmihailenco/msgpack/v4.stringToBytes", func(in *Interp, fr *Frame, a []Value) Value {
		return Slice(append([]Value{}, strBytes(a[0])...))
	})
	reg("github.com/vmihailenco/tagparser/internal.BytesToString github.com/vmihailenco/msgpack/v4.bytesToString", func(in *Interp, fr *Frame, a []Value) Value {
		return mkStr(append([]Value{}, a[0].(Slice)...))
	})
}
