package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"
)

func decodeRuneString(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func (in *Interp) callBuiltin(fr *Frame, b builtinVal, args []Value) Value {
	switch b.name {
	case "len":
		switch v := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(v))
		case Slice:
			return uint64(len(v))
		case *Map:
			if v == nil {
				return uint64(0)
			}
			if in.path != nil && in.path.races != nil {
				in.raceAccess(fr, v, false)
			}
			return uint64(v.n)
		case Array:
			return uint64(len(v))
		case Ptr:
			return uint64(len((*v).(Array)))
		case *Chan:
			if v == nil {
				return uint64(0)
			}
			in.visible(in.curG(), fpR("len", v))
			return uint64(len(v.buf))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return uint64(cap(v))
		case Array:
			return uint64(len(v))
		case Ptr:
			return uint64(len((*v).(Array)))
		case *Chan:
			if v == nil {
				return uint64(0)
			}
			return uint64(v.cap)
		}
	case "append":
		var add []Value
		switch v := args[1].(type) {
		case Slice:
			add = v
		case string, *SymStr:
			add = strBytes(v)
		}
		s := args[0].(Slice)
		if len(add) == 0 {
			if s == nil && args[1] != nil {
				return s
			}
			return s
		}
		n := len(s) + len(add)
		if n > 1<<22 {
			panic(pathEnd{"bound", "append bound exceeded"})
		}
		if n <= cap(s) {
			r := s[:n]
			for i, x := range add {
				if in.path != nil && in.path.races != nil {
					in.raceAccess(fr, Ptr(&r[len(s)+i]), true)
				}
				storeInto(&r[len(s)+i], copyVal(x))
			}
			return r
		}
		nc := growCap(cap(s), n)
		r := make(Slice, n, nc)
		copy(r, s)
		for i, x := range add {
			r[len(s)+i] = copyVal(x)
		}
		if st, ok := b.args[0].Underlying().(*types.Slice); ok {
			fillZero(r[n:nc], st.Elem())
		}
		// existing elements move: aggregates are re-created
		for i := range s {
			r[i] = copyVal(s[i])
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch v := args[1].(type) {
		case Slice:
			src = v
		case string, *SymStr:
			src = strBytes(v)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if in.path != nil && in.path.races != nil {
				in.raceAccess(fr, Ptr(&d[i]), true)
			}
			storeInto(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			if in.path != nil && in.path.races != nil {
				in.raceAccess(fr, m, true)
			}
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				v.clear()
			}
		case Slice:
			if len(v) > 0 {
				et := b.args[0].Underlying().(*types.Slice).Elem()
				for i := range v {
					storeInto(&v[i], zero(et))
				}
			}
		}
		return nil
	case "close":
		in.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{v: args[0], trace: in.stack()})
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		if fr != nil && fr.caller != nil && !fr.panicking && fr.caller.panicking {
			fr.caller.panicking = false
			if tp, ok := fr.caller.panicV.(targetPanic); ok {
				return tp.v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			r = in.minmax(b, r, x)
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "StringData":
		return UPtr{&strBox{strBytes(args[0])}}
	case "String":
		n := int(in.concInt(args[1], 64))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case UPtr:
			if sb, ok := p.v.(*strBox); ok {
				return mkStr(append([]Value(nil), sb.b[:n]...))
			}
		}
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return Ptr(nil)
		}
		return UPtr{&strBox{[]Value(s[:cap(s)])}}
	case "Slice":
		n := int(in.concInt(args[1], 64))
		if p, ok := args[0].(UPtr); ok {
			if sb, ok := p.v.(*strBox); ok {
				return Slice(sb.b[:n:n])
			}
		}
	}
	panic(unsupported("builtin %s(%T)", b.name, firstOf(args)))
}

type strBox struct{ b []Value }

func firstOf(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

func growCap(old, need int) int {
	d := old + old
	if need > d {
		if need <= 4 {
			return need
		}
		return need
	}
	if old < 256 {
		return d
	}
	c := old
	for c < need {
		c += (c + 3*256) / 4
	}
	return c
}

func (in *Interp) minmax(b builtinVal, x, y Value) Value {
	t := b.args[0]
	isMin := b.name == "min"
	if w, s, ok := intInfo(t); ok {
		a, ok1 := x.(uint64)
		c, ok2 := y.(uint64)
		if ok1 && ok2 {
			less := a < c
			if s {
				less = int64(a) < int64(c)
			}
			if less == isMin {
				return x
			}
			return y
		}
		o := OUlt
		if s {
			o = OSlt
		}
		cnd := in.tc.Cmp(o, in.toTerm(x, w), in.toTerm(y, w))
		if isMin {
			return fromInt(in.tc.Ite(cnd, in.toTerm(x, w), in.toTerm(y, w)), s)
		}
		return fromInt(in.tc.Ite(cnd, in.toTerm(y, w), in.toTerm(x, w)), s)
	}
	if isString(t) {
		l := in.branchV(in.strLess(x, y, false))
		if l == isMin {
			return x
		}
		return y
	}
	if f, ok := x.(float64); ok {
		g := y.(float64)
		if (f < g) == isMin {
			return x
		}
		return y
	}
	panic(unsupported("min/max on %s", t))
}
