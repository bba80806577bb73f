package main

// fmt, implemented natively over interpreter values.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

type fbuf struct{ b []Value }

func (f *fbuf) s(s string) {
	for i := 0; i < len(s); i++ {
		f.b = append(f.b, uint64(s[i]))
	}
}
func (f *fbuf) v(v Value) { f.b = append(f.b, strBytes(v)...) }

type fspec struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasW, hasP                      bool
}

func (in *Interp) sprintf(fr *Frame, format string, args []Value) (Value, []Iface) {
	var out fbuf
	var wrapped []Iface
	argi := 0
	n := len(format)
	for i := 0; i < n; {
		if format[i] != '%' {
			j := i
			for j < n && format[j] != '%' {
				j++
			}
			out.s(format[i:j])
			i = j
			continue
		}
		i++
		var sp fspec
	flags:
		for ; i < n; i++ {
			switch format[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
		}
		if i < n && format[i] == '*' {
			sp.wid = intArg(in, args[argi].(Iface).V)
			sp.hasW = true
			argi++
			i++
		}
		for i < n && format[i] >= '0' && format[i] <= '9' {
			sp.wid = sp.wid*10 + int(format[i]-'0')
			sp.hasW = true
			i++
		}
		if i < n && format[i] == '.' {
			i++
			sp.hasP = true
			for i < n && format[i] >= '0' && format[i] <= '9' {
				sp.prec = sp.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i < n && format[i] == '[' {
			panic(unsupported("fmt explicit argument index"))
		}
		if i >= n {
			out.s("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out.s("%")
			continue
		}
		if argi >= len(args) {
			out.s("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[argi].(Iface)
		argi++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		var one fbuf
		in.fmtArg(fr, &one, a, verb, sp, 0)
		if sp.hasW && len(one.b) < sp.wid {
			pad := sp.wid - len(one.b)
			if sp.minus {
				for k := 0; k < pad; k++ {
					one.s(" ")
				}
			} else {
				c := uint64(' ')
				if sp.zero && verb != 's' && verb != 'v' && verb != 'q' {
					c = '0'
				} else if sp.zero {
					c = '0'
				}
				nb := make([]Value, 0, sp.wid)
				rest := one.b
				if c == '0' && len(rest) > 0 {
					if x, ok := rest[0].(uint64); ok && (x == '-' || x == '+') {
						nb = append(nb, x)
						rest = rest[1:]
					}
				}
				for k := 0; k < pad; k++ {
					nb = append(nb, c)
				}
				one.b = append(nb, rest...)
			}
		}
		out.b = append(out.b, one.b...)
	}
	if argi < len(args) {
		out.s("%!(EXTRA ")
		for k, a := range args[argi:] {
			if k > 0 {
				out.s(", ")
			}
			if t := a.(Iface).T; t != nil {
				out.s(types.TypeString(t, shortQual) + "=")
			}
			in.fmtArg(fr, &out, a.(Iface), 'v', fspec{}, 0)
		}
		out.s(")")
	}
	return mkStr(out.b), wrapped
}

func shortQual(p *types.Package) string { return p.Name() }

func (in *Interp) fmtArg(fr *Frame, out *fbuf, a Iface, verb byte, sp fspec, depth int) {
	if a.T == nil {
		switch verb {
		case 'v', 'T':
			out.s("<nil>")
		default:
			out.s("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		out.s(types.TypeString(a.T, shortQual))
		return
	}
	if verb == 'p' {
		out.s("0xc000000000")
		return
	}
	if !sp.sharp && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		isNilPtr := false
		if p, ok := a.V.(Ptr); ok && p == nil {
			isNilPtr = true
		}
		for _, m := range []string{"Error", "String"} {
			if in.isStringMethod(a, m) {
				if isNilPtr {
					out.s("<nil>")
					return
				}
				s := in.callMethod(fr, a, m)
				in.fmtStr(out, s, verb, sp)
				return
			}
		}
	}
	in.fmtVal(fr, out, a.T, a.V, verb, sp, depth)
}

func (in *Interp) isStringMethod(a Iface, name string) bool {
	in.eng.mu.Lock()
	defer in.eng.mu.Unlock()
	sel := in.eng.msets.MethodSet(a.T).Lookup(nil, name)
	if sel == nil {
		return false
	}
	sg, ok := sel.Type().(*types.Signature)
	return ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type())
}

func (in *Interp) fmtStr(out *fbuf, s Value, verb byte, sp fspec) {
	if sp.hasP && strLen(s) > sp.prec && (verb == 's' || verb == 'v' || verb == 'q') {
		s = strSlice(s, 0, sp.prec)
	}
	switch verb {
	case 'q':
		if c, ok := s.(string); ok {
			out.s(strconv.Quote(c))
			return
		}
		out.v(in.callFn(nil, in.eng.funcByName("strconv", "Quote"), []Value{s}, nil))
	case 'x', 'X':
		const lo, up = "0123456789abcdef", "0123456789ABCDEF"
		dg := lo
		if verb == 'X' {
			dg = up
		}
		for _, b := range strBytes(s) {
			t, ok := b.(*Term)
			if !ok {
				c := b.(uint64)
				out.b = append(out.b, uint64(dg[c>>4]), uint64(dg[c&15]))
				continue
			}
			tab := strBytes(dg)
			in.pendingElemW = 8
			h := in.iteRead(tab, in.tc.Extract(t, 7, 4))
			l := in.iteRead(tab, in.tc.Extract(t, 3, 0))
			in.pendingElemW = 0
			out.b = append(out.b, h, l)
		}
	default:
		out.v(s)
	}
}

func (in *Interp) fmtInt(fr *Frame, out *fbuf, v Value, w int, signed bool, verb byte, sp fspec) {
	base := 10
	switch verb {
	case 'b':
		base = 2
	case 'o':
		base = 8
	case 'x', 'X':
		base = 16
	case 'c':
		out.s(string(rune(in.concInt(v, w))))
		return
	case 'q':
		out.s(strconv.QuoteRune(rune(in.concInt(v, w))))
		return
	case 'U':
		out.s(fmt.Sprintf("%U", in.concInt(v, w)))
		return
	case 'd', 'v':
	default:
		out.s("%!" + string(verb) + "(int)")
		return
	}
	if u, ok := v.(uint64); ok {
		var s string
		if signed {
			s = strconv.FormatInt(int64(u), base)
			if sp.plus && int64(u) >= 0 {
				s = "+" + s
			}
		} else {
			s = strconv.FormatUint(u, base)
		}
		if verb == 'X' {
			s = strings.ToUpper(s)
		}
		if sp.hasP {
			neg := strings.HasPrefix(s, "-")
			d := strings.TrimPrefix(s, "-")
			for len(d) < sp.prec {
				d = "0" + d
			}
			s = d
			if neg {
				s = "-" + d
			}
		}
		if sp.sharp && base == 16 {
			s = "0x" + s
		}
		out.s(s)
		return
	}
	t := v.(*Term)
	var r Value
	if signed {
		r = in.callFn(fr, in.eng.funcByName("strconv", "FormatInt"), []Value{in.tc.Sext(t, 64), uint64(base)}, nil)
	} else {
		r = in.callFn(fr, in.eng.funcByName("strconv", "FormatUint"), []Value{in.tc.Zext(t, 64), uint64(base)}, nil)
	}
	out.v(r)
}

func (in *Interp) fmtVal(fr *Frame, out *fbuf, t types.Type, v Value, verb byte, sp fspec, depth int) {
	if depth > 6 {
		out.s("...")
		return
	}
	if sp.sharp && verb == 'v' {
		in.fmtGo(fr, out, t, v, depth)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if in.branchV(v) {
				out.s("true")
			} else {
				out.s("false")
			}
		case u.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			in.fmtInt(fr, out, v, w, s, verb, sp)
		case u.Info()&types.IsString != 0:
			if verb == 'd' {
				out.s("%!d(string=")
				out.v(v)
				out.s(")")
				return
			}
			in.fmtStr(out, v, verb, sp)
		case u.Info()&types.IsFloat != 0:
			f := "%"
			if sp.hasP {
				f += "." + strconv.Itoa(sp.prec)
			}
			out.s(fmt.Sprintf(f+string(verb), v.(float64)))
		default:
			out.s(fmt.Sprint(v))
		}
	case *types.Slice, *types.Array:
		var elems []Value
		var et types.Type
		switch x := v.(type) {
		case Slice:
			elems = x
		case Array:
			elems = x
		}
		switch tt := u.(type) {
		case *types.Slice:
			et = tt.Elem()
		case *types.Array:
			et = tt.Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			in.fmtStr(out, mkStr(append([]Value(nil), elems...)), verb, sp)
			return
		}
		out.s("[")
		for i, e := range elems {
			if i > 0 {
				out.s(" ")
			}
			in.fmtElem(fr, out, et, e, verb, sp, depth+1)
		}
		out.s("]")
	case *types.Struct:
		st := v.(Struct)
		out.s("{")
		for i := range st {
			if i > 0 {
				out.s(" ")
			}
			if sp.plus {
				out.s(u.Field(i).Name() + ":")
			}
			in.fmtElem(fr, out, u.Field(i).Type(), st[i], verb, sp, depth+1)
		}
		out.s("}")
	case *types.Pointer:
		p, _ := v.(Ptr)
		if p == nil {
			out.s("<nil>")
			return
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				out.s("&")
				in.fmtVal(fr, out, u.Elem(), *p, verb, sp, depth+1)
				return
			}
		}
		out.s("0xc000000000")
	case *types.Map:
		m := v.(*Map)
		out.s("map[")
		if m != nil {
			first := true
			for _, e := range m.ents {
				if e.dead {
					continue
				}
				if !first {
					out.s(" ")
				}
				first = false
				in.fmtElem(fr, out, u.Key(), e.key, verb, sp, depth+1)
				out.s(":")
				in.fmtElem(fr, out, u.Elem(), e.cell, verb, sp, depth+1)
			}
		}
		out.s("]")
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			out.s("<nil>")
			return
		}
		in.fmtArg(fr, out, i, verb, sp, depth)
	default:
		out.s("0xc000000000")
	}
}

func (in *Interp) fmtElem(fr *Frame, out *fbuf, t types.Type, v Value, verb byte, sp fspec, depth int) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		in.fmtVal(fr, out, t, v, verb, sp, depth)
		return
	}
	sp2 := sp
	sp2.hasW = false
	in.fmtArg(fr, out, Iface{in.eng.canon(t), v}, verb, sp2, depth)
}

func (in *Interp) fmtGo(fr *Frame, out *fbuf, t types.Type, v Value, depth int) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			in.fmtStr(out, v, 'q', fspec{})
		default:
			in.fmtVal(fr, out, t, v, 'v', fspec{}, depth)
		}
	case *types.Struct:
		st := v.(Struct)
		out.s(types.TypeString(t, shortQual) + "{")
		for i := range st {
			if i > 0 {
				out.s(", ")
			}
			out.s(u.Field(i).Name() + ":")
			in.fmtGo(fr, out, u.Field(i).Type(), st[i], depth+1)
		}
		out.s("}")
	case *types.Pointer:
		p, _ := v.(Ptr)
		if p == nil {
			out.s("(" + types.TypeString(t, shortQual) + ")(nil)")
			return
		}
		out.s("&")
		in.fmtGo(fr, out, u.Elem(), *p, depth+1)
	case *types.Slice:
		out.s(types.TypeString(t, shortQual) + "{")
		for i, e := range v.(Slice) {
			if i > 0 {
				out.s(", ")
			}
			in.fmtGo(fr, out, u.Elem(), e, depth+1)
		}
		out.s("}")
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			out.s("interface {}(nil)")
			return
		}
		in.fmtGo(fr, out, i.T, i.V, depth+1)
	default:
		in.fmtVal(fr, out, t, v, 'v', fspec{}, depth)
	}
}

func (in *Interp) sprint(fr *Frame, args []Value, ln bool) Value {
	var out fbuf
	prevStr := true
	for i, x := range args {
		a := x.(Iface)
		isS := a.T != nil && isString(a.T)
		if i > 0 && (ln || (!isS && !prevStr)) {
			out.s(" ")
		}
		prevStr = isS
		in.fmtArg(fr, &out, a, 'v', fspec{}, 0)
	}
	if ln {
		out.s("\n")
	}
	return mkStr(out.b)
}

func init() {
	reg("fmt.Sprintf", func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := in.sprintf(fr, in.concStr(a[0]), a[1].(Slice))
		return s
	})
	reg("fmt.Sprint", func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(fr, a[0].(Slice), false) })
	reg("fmt.Sprintln", func(in *Interp, fr *Frame, a []Value) Value { return in.sprint(fr, a[0].(Slice), true) })
	reg("fmt.Appendf", func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := in.sprintf(fr, in.concStr(a[1]), a[2].(Slice))
		return append(a[0].(Slice)[:len(a[0].(Slice)):len(a[0].(Slice))], strBytes(s)...)
	})
	wr := func(in *Interp, fr *Frame, w Value, s Value) Value {
		b := strBytes(s)
		return in.callMethod(fr, w.(Iface), "Write", Slice(append([]Value(nil), b...)))
	}
	reg("fmt.Fprintf", func(in *Interp, fr *Frame, a []Value) Value {
		s, _ := in.sprintf(fr, in.concStr(a[1]), a[2].(Slice))
		return wr(in, fr, a[0], s)
	})
	reg("fmt.Fprint", func(in *Interp, fr *Frame, a []Value) Value {
		return wr(in, fr, a[0], in.sprint(fr, a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(in *Interp, fr *Frame, a []Value) Value {
		return wr(in, fr, a[0], in.sprint(fr, a[1].(Slice), true))
	})
	reg("fmt.Errorf", func(in *Interp, fr *Frame, a []Value) Value {
		s, w := in.sprintf(fr, in.concStr(a[0]), a[1].(Slice))
		var ws []Iface
		for _, x := range w {
			if x.T != nil {
				ws = append(ws, x)
			}
		}
		switch len(ws) {
		case 0:
			if len(w) > 0 {
				break
			}
			return in.mkErr(fr, s)
		case 1:
			p := new(Value)
			*p = Struct{s, ws[0]}
			return Iface{in.eng.canon(types.NewPointer(in.eng.namedType("fmt", "wrapError"))), p}
		default:
			p := new(Value)
			var l Slice
			for _, x := range ws {
				l = append(l, x)
			}
			*p = Struct{s, l}
			return Iface{in.eng.canon(types.NewPointer(in.eng.namedType("fmt", "wrapErrors"))), p}
		}
		return in.mkErr(fr, s)
	})
	reg("fmt.Sscanf", func(in *Interp, fr *Frame, a []Value) Value {
		// supported: literal text, %d into *intN/*uintN, %s into *string, on inputs that need no width
		return in.sscanf(fr, a[0], in.concStr(a[1]), a[2].(Slice))
	})
}

func isSpaceB(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (in *Interp) sscanf(fr *Frame, s Value, format string, args []Value) Value {
	b := strBytes(s)
	pos := 0
	n := 0
	fail := func(msg string) Value { return Tuple{uint64(n), in.mkErr(fr, msg)} }
	is := func(i int, f func(t *Term) *Term, g func(c byte) bool) bool {
		if c, ok := b[i].(uint64); ok {
			return g(byte(c))
		}
		return in.branch(f(b[i].(*Term)))
	}
	tc := in.tc
	spaceAt := func(i int) bool {
		return is(i, func(t *Term) *Term {
			return tc.Or(tc.Or(tc.Eq(t, tc.Const(' ', 8)), tc.Eq(t, tc.Const('\t', 8))), tc.Or(tc.Eq(t, tc.Const('\n', 8)), tc.Eq(t, tc.Const('\r', 8))))
		}, isSpaceB)
	}
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			if isSpaceB(c) {
				if pos < len(b) && spaceAt(pos) {
					for pos < len(b) && spaceAt(pos) {
						pos++
					}
				} else if pos < len(b) {
					return fail("expected space in input to match format")
				}
				continue
			}
			if pos >= len(b) {
				return fail("unexpected EOF")
			}
			if !is(pos, func(t *Term) *Term { return tc.Eq(t, tc.Const(uint64(c), 8)) }, func(x byte) bool { return x == c }) {
				return fail("input does not match format")
			}
			pos++
			continue
		}
		i++
		verb := format[i]
		if n >= len(args) {
			return fail("too few operands for format '%" + string(verb) + "'")
		}
		a := args[n].(Iface)
		pt, ok := a.T.Underlying().(*types.Pointer)
		if !ok {
			return fail("type not a pointer: " + a.T.String())
		}
		for pos < len(b) && spaceAt(pos) {
			pos++
		}
		if pos >= len(b) {
			return fail("unexpected EOF")
		}
		switch verb {
		case 'd', 'v':
			if isString(pt.Elem()) {
				goto str
			}
			w, signed, isI := intInfo(pt.Elem())
			if !isI {
				panic(unsupported("Sscanf into %s", a.T))
			}
			start := pos
			if is(pos, func(t *Term) *Term { return tc.Or(tc.Eq(t, tc.Const('-', 8)), tc.Eq(t, tc.Const('+', 8))) }, func(x byte) bool { return x == '-' || x == '+' }) {
				if !signed {
					return fail("expected integer")
				}
				pos++
			}
			ds := pos
			for pos < len(b) && is(pos, func(t *Term) *Term {
				return tc.And(tc.Cmp(OUle, tc.Const('0', 8), t), tc.Cmp(OUle, t, tc.Const('9', 8)))
			}, func(x byte) bool { return x >= '0' && x <= '9' }) {
				pos++
			}
			if pos == ds {
				return fail("expected integer")
			}
			tok := mkStr(append([]Value(nil), b[start:pos]...))
			var res Tuple
			if signed {
				res = in.callFn(fr, in.eng.funcByName("strconv", "ParseInt"), []Value{tok, uint64(10), uint64(w)}, nil).(Tuple)
			} else {
				res = in.callFn(fr, in.eng.funcByName("strconv", "ParseUint"), []Value{tok, uint64(10), uint64(w)}, nil).(Tuple)
			}
			if res[1].(Iface).T != nil {
				return Tuple{uint64(n), res[1]}
			}
			v := res[0]
			if t, ok := v.(*Term); ok {
				v = fromInt(tc.Extract(t, w-1, 0), signed)
			}
			*(a.V.(Ptr)) = v
			n++
			continue
		case 's':
			goto str
		default:
			panic(unsupported("Sscanf verb %c", verb))
		}
	str:
		{
			st := pos
			for pos < len(b) && !spaceAt(pos) {
				pos++
			}
			*(a.V.(Ptr)) = mkStr(append([]Value(nil), b[st:pos]...))
			n++
		}
	}
	if n < len(args) {
		return fail("too many operands")
	}
	return Tuple{uint64(n), Iface{}}
}
