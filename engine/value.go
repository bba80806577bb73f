package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	uint64 (concrete integer, normalised: sign- or zero-extended to 64 bits)
//	bool, *Term (symbolic integer or bool), float64, complex128
//	string, *SymStr
//	Ptr (= *Value), *SymPtr, Struct, Array, Slice, *Map, Iface, *Closure, *Chan, Tuple
//	*ssa.Builtin, *StrIter, *MapIter, UPtr, *RType etc.
type Value = any

type Ptr = *Value

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type SymStr struct{ b []Value }

// SymPtr is the address of an element of a slice/array at a symbolic index.
type SymPtr struct {
	elems []Value
	idx   *Term
}

type Iface struct {
	T types.Type // canonical; nil for the nil interface
	V Value
}

type Closure struct {
	fn  *Func
	env []Value
	// native, when set, is called instead of fn
	native func(in *Interp, fr *Frame, args []Value) Value
}

// UPtr is an unsafe.Pointer made from something else than a cell pointer.
type UPtr struct{ v Value }

type mapEnt struct {
	key  Value
	cell Value
	dead bool
}

type Map struct {
	ents   []*mapEnt
	idx    map[any]*mapEnt // concrete keys
	nsym   int             // number of entries with symbolic keys
	n      int
	keyT   types.Type
	accObj int
}

func newMap(keyT types.Type) *Map { return &Map{idx: map[any]*mapEnt{}, keyT: keyT} }

type MapIter struct {
	m    *Map
	ents []*mapEnt
	pos  int
	perm bool
}
type StrIter struct {
	s   Value
	pos int
}

func isConcreteBytes(b []Value) bool {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return false
		}
	}
	return true
}

func mkStr(b []Value) Value {
	if isConcreteBytes(b) {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(uint64))
		}
		return string(bs)
	}
	return &SymStr{b}
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(unsupported("strLen of %T", v))
}

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case *SymStr:
		return v.b
	}
	panic(unsupported("strBytes of %T", v))
}

func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *SymStr:
		return v.b[i]
	}
	panic(unsupported("strAt of %T", v))
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi:hi])
	}
	panic(unsupported("strSlice of %T", v))
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

// typeInfo classifies a basic numeric type.
func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func norm(v uint64, w int, signed bool) uint64 {
	if w >= 64 {
		return v
	}
	if signed {
		return uint64(sext(v, w))
	}
	return v & mask(w)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of %s", t))
}

// copyVal copies aggregates (structs and arrays have value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

// storeInto writes v into the cell, in place for aggregates so that interior
// pointers stay valid.
func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (in *Interp) toTerm(v Value, w int) *Term {
	switch v := v.(type) {
	case *Term:
		if v.w != w {
			panic(fmt.Sprintf("term width %d, expected %d: %s", v.w, w, v))
		}
		return v
	case uint64:
		return in.tc.Const(v, w)
	case bool:
		return in.tc.Bool(v)
	}
	panic(unsupported("toTerm of %T", v))
}

func (in *Interp) toBool(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return in.tc.Bool(v)
	}
	panic(unsupported("toBool of %T", v))
}

func fromInt(t *Term, signed bool) Value {
	if t.op == OConst {
		return norm(t.val, t.w, signed)
	}
	return t
}
func fromBool(t *Term) Value {
	if t.op == OConst {
		return t.val != 0
	}
	return t
}

// equal returns a bool or a boolean *Term.
func (in *Interp) equal(a, b Value) Value {
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		y := b.(*Term)
		return fromBool(in.tc.Eq(in.tc.Const(x, y.w), y))
	case *Term:
		return fromBool(in.tc.Eq(x, in.toTerm(b, x.w)))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return fromBool(in.tc.Eq(in.toBool(a), in.toBool(b)))
	case float64:
		return x == b.(float64)
	case complex128:
		return x == b.(complex128)
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return in.symStrEq(a, b)
	case *SymStr:
		return in.symStrEq(a, b)
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return x == y
		}
		return false
	case *Chan:
		return x == b.(*Chan)
	case *Map:
		return x == b.(*Map)
	case *Closure:
		y, _ := b.(*Closure)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		panic(unsupported("comparing functions"))
	case Slice:
		y := b.(Slice)
		return x == nil && y == nil
	case Iface:
		y := b.(Iface)
		if x.T != y.T {
			return false
		}
		if x.T == nil {
			return true
		}
		if !types.Comparable(x.T) {
			in.rtPanic("comparing uncomparable type " + types.TypeString(x.T, nil))
		}
		return in.equal(x.V, y.V)
	case Struct:
		y := b.(Struct)
		r := in.tc.tTrue
		for i := range x {
			e := in.equal(x[i], y[i])
			if eb, ok := e.(bool); ok {
				if !eb {
					return false
				}
				continue
			}
			r = in.tc.And(r, e.(*Term))
		}
		return fromBool(r)
	case Array:
		y := b.(Array)
		r := in.tc.tTrue
		for i := range x {
			e := in.equal(x[i], y[i])
			if eb, ok := e.(bool); ok {
				if !eb {
					return false
				}
				continue
			}
			r = in.tc.And(r, e.(*Term))
		}
		return fromBool(r)
	case RType:
		y, ok := b.(RType)
		return ok && x.T == y.T
	case UPtr:
		y, ok := b.(UPtr)
		return ok && x == y
	}
	panic(unsupported("equal of %T", a))
}

func (in *Interp) symStrEq(a, b Value) Value {
	if strLen(a) != strLen(b) {
		return false
	}
	n := strLen(a)
	r := in.tc.tTrue
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		xc, ok1 := x.(uint64)
		yc, ok2 := y.(uint64)
		if ok1 && ok2 {
			if xc != yc {
				return false
			}
			continue
		}
		r = in.tc.And(r, in.tc.Eq(in.toTerm(x, 8), in.toTerm(y, 8)))
	}
	return fromBool(r)
}

// strLess returns a<b (or a<=b).
func (in *Interp) strLess(a, b Value, orEq bool) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return x <= y
			}
			return x < y
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	var r *Term
	if orEq {
		r = in.tc.Bool(la <= lb)
	} else {
		r = in.tc.Bool(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := in.toTerm(strAt(a, i), 8), in.toTerm(strAt(b, i), 8)
		r = in.tc.Ite(in.tc.Eq(x, y), r, in.tc.Cmp(OUlt, x, y))
	}
	return fromBool(r)
}

// canonKey gives a Go-comparable key for fully concrete values.
func canonKey(v Value) (any, bool) {
	switch v := v.(type) {
	case uint64, bool, string, float64, complex128, Ptr, *Chan, RType, UPtr:
		return v, true
	case Iface:
		if v.T == nil {
			return Iface{}, true
		}
		k, ok := canonKey(v.V)
		if !ok {
			return nil, false
		}
		return Iface{v.T, k}, true
	case Struct:
		return canonAgg("s", v)
	case Array:
		return canonAgg("a", v)
	}
	return nil, false
}

func canonAgg(p string, vs []Value) (any, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, x := range vs {
		k, ok := canonKey(x)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "|%T:%v", k, k)
	}
	return sb.String(), true
}

func (in *Interp) checkHashable(key Value) {
	if i, ok := key.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
		in.rtPanic("hash of unhashable type " + types.TypeString(i.T, nil))
	}
}

func (in *Interp) mapFind(m *Map, key Value) *mapEnt {
	if m == nil {
		return nil
	}
	in.checkHashable(key)
	ck, conc := canonKey(key)
	if conc {
		if e, ok := m.idx[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ok := canonKey(e.key); ok {
				continue
			}
		}
		if in.branchV(in.equal(key, e.key)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, key, val Value) {
	e := in.mapFind(m, key)
	if e == nil {
		e = &mapEnt{key: copyVal(key)}
		m.ents = append(m.ents, e)
		m.n++
		if ck, ok := canonKey(key); ok {
			m.idx[ck] = e
		} else {
			m.nsym++
		}
	}
	e.cell = copyVal(val)
}

func (in *Interp) mapDelete(m *Map, key Value) {
	e := in.mapFind(m, key)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := canonKey(e.key); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	if len(m.ents) > 16 && m.n < len(m.ents)/2 {
		var ne []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}

func (m *Map) clear() {
	for _, e := range m.ents {
		e.dead = true
	}
	m.ents, m.idx, m.n, m.nsym = nil, map[any]*mapEnt{}, 0, 0
}

// engine control-flow panics

type pathEnd struct {
	kind string // "killed", "infeasible", "unsupported", "bound", "violation", "redundant", "done"
	msg  string
}

type unsup struct{ msg string }

func unsupported(f string, a ...any) unsup { return unsup{fmt.Sprintf(f, a...)} }

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v     Value // Iface
	trace string
}

var _ = ssa.NaiveForm
