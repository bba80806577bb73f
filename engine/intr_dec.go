package main

// Decimal rendering and parsing of symbolic integers. A symbolic number is
// rendered by forking on its digit count and naming its digits by fresh
// variables tied to it by sum(d_i * 10^i) = v, which avoids division; parsing
// exactly such a digit string gives the number back.

import "math"

type decTok struct {
	v      *Term // 64 bits
	digits []Value
}

var pow10 = func() (r [20]uint64) {
	p := uint64(1)
	for i := range r {
		r[i] = p
		p *= 10
	}
	return
}()

type decState struct {
	byV map[*Term]*decTok
	byD map[*Term]*decTok // by first digit
	// defs are the constraints that define digits by their number; toks are all rendered numbers in order.
	defs map[*Term]bool
	toks []*decTok
}

func (in *Interp) decs() *decState {
	p := in.path
	if s, ok := p.side["dec"].(*decState); ok {
		return s
	}
	s := &decState{byV: map[*Term]*decTok{}, byD: map[*Term]*decTok{}, defs: map[*Term]bool{}}
	p.side["dec"] = s
	return s
}

// decimal renders an unsigned 64-bit term.
func (in *Interp) decimal(v *Term) []Value {
	tc := in.tc
	st := in.decs()
	if d := st.byV[v]; d != nil {
		return d.digits
	}
	n := 20
	for k := 1; k < 20; k++ {
		if in.branch(tc.Cmp(OUlt, v, tc.Const(pow10[k], 64))) {
			n = k
			break
		}
	}
	p := in.path
	val := tc.Eval(v, p.model)
	tok := &decTok{v: v}
	{
		def := func(t *Term) {
			st.defs[t] = true
			in.addPC(t)
		}
		st.toks = append(st.toks, tok)
		sum := tc.Const(0, 64)
		m := cloneModel(p.model)
		for i := 0; i < n; i++ {
			d := in.freshVar("~digit", 8)
			m[d.name] = '0' + val/pow10[n-1-i]%10
			lo := uint64('0')
			if i == 0 && n > 1 {
				lo = '1'
			}
			def(tc.Not(tc.Cmp(OUlt, d, tc.Const(lo, 8))))
			def(tc.Not(tc.Cmp(OUlt, tc.Const('9', 8), d)))
			sum = tc.Add(tc.Bin(OMul, sum, tc.Const(10, 64)), tc.Zext(tc.Bin(OSub, d, tc.Const('0', 8)), 64))
			tok.digits = append(tok.digits, d)
		}
		in.setModel(m)
		def(tc.Eq(v, sum))
	}
	st.byV[v] = tok
	if t, ok := tok.digits[0].(*Term); ok {
		st.byD[t] = tok
	}
	return tok.digits
}

// decimalSigned renders a signed 64-bit term.
func (in *Interp) decimalSigned(v *Term) []Value {
	tc := in.tc
	if in.branch(tc.Cmp(OSlt, v, tc.Const(0, 64))) {
		return append([]Value{uint64('-')}, in.decimal(tc.Neg(v))...)
	}
	return in.decimal(v)
}

// solveNoDigits decides a query without the definitions of rendered digits: every number has its digits, so
// when no other constraint is about them the answer is that of the whole query. ok is false if that did not work.
func (in *Interp) solveNoDigits(conj []*Term, t *Term, vars []*Term) (res Result, m Model, ok bool) {
	p := in.path
	st, has := p.side["dec"].(*decState)
	if !has || len(st.toks) == 0 {
		return
	}
	var less []*Term
	for _, c := range conj {
		if !st.defs[c] {
			less = append(less, c)
		}
	}
	if len(less) == len(conj) {
		return
	}
	res, m = in.sol.solve(less, t, vars)
	if res != Sat {
		return res, nil, res == Unsat
	}
	full := cloneModel(p.model)
	for k, v := range m {
		full[k] = v
	}
	inVars := map[*Term]bool{}
	for _, v := range vars {
		inVars[v] = true
	}
	for _, tok := range st.toks {
		in.tc.newEval()
		val := in.tc.Eval(tok.v, full)
		n := len(tok.digits)
		for i, d := range tok.digits {
			if dt, isT := d.(*Term); isT && inVars[dt] {
				full[dt.name] = '0' + val/pow10[n-1-i]%10
				m[dt.name] = full[dt.name]
			}
		}
	}
	in.tc.newEval()
	defer in.tc.newEval()
	for _, c := range conj {
		if in.tc.Eval(c, full) != 1 {
			return Unknown, nil, false
		}
	}
	if in.tc.Eval(t, full) != 1 {
		return Unknown, nil, false
	}
	return Sat, m, true
}

// undecimal recognizes a rendered number.
func (in *Interp) undecimal(s Value) (*Term, bool) {
	x, ok := s.(*SymStr)
	if !ok || in.path == nil || len(x.b) == 0 {
		return nil, false
	}
	t, ok := x.b[0].(*Term)
	if !ok {
		return nil, false
	}
	tok := in.decs().byD[t]
	if tok == nil || len(tok.digits) != len(x.b) {
		return nil, false
	}
	for i := range x.b {
		if x.b[i] != tok.digits[i] {
			return nil, false
		}
	}
	return tok.v, true
}

func init() {
	render := func(name string, signed bool) {
		reg("strconv."+name, func(in *Interp, fr *Frame, a []Value) Value {
			t, ok := a[0].(*Term)
			base := uint64(10)
			if len(a) > 1 {
				base = in.concInt(a[1], 64)
			}
			if !ok || base != 10 {
				return in.callBody(fr, "strconv", name, a)
			}
			if signed {
				return mkStr(in.decimalSigned(t))
			}
			return mkStr(in.decimal(t))
		})
	}
	render("FormatUint", false)
	render("FormatInt", true)
	render("Itoa", true)
	appendF := func(name string, signed bool) {
		reg("strconv."+name, func(in *Interp, fr *Frame, a []Value) Value {
			t, ok := a[1].(*Term)
			if !ok || in.concInt(a[2], 64) != 10 {
				return in.callBody(fr, "strconv", name, a)
			}
			var d []Value
			if signed {
				d = in.decimalSigned(t)
			} else {
				d = in.decimal(t)
			}
			return Slice(append(append([]Value(nil), a[0].(Slice)...), d...))
		})
	}
	appendF("AppendUint", false)
	appendF("AppendInt", true)
	// parse reads back a rendered number.
	parse := func(name string, signed bool) {
		reg("strconv."+name, func(in *Interp, fr *Frame, a []Value) Value {
			body := func() Value { return in.callBody(fr, "strconv", name, a) }
			bits := uint64(64)
			if len(a) > 1 {
				b := in.concInt(a[1], 64)
				if b != 10 && b != 0 {
					return body()
				}
				if bits = in.concInt(a[2], 64); bits == 0 {
					bits = 64
				}
			}
			if bits > 64 {
				return body()
			}
			t, ok := in.undecimal(a[0])
			neg := false
			if !ok && signed {
				if x, isS := a[0].(*SymStr); isS && len(x.b) > 1 && x.b[0] == Value(uint64('-')) {
					t, ok = in.undecimal(&SymStr{x.b[1:]})
					neg = true
				}
			}
			if !ok {
				return body()
			}
			max := uint64(math.MaxUint64) >> (64 - bits)
			if signed {
				max >>= 1
			}
			if neg {
				max++
			}
			if max == math.MaxUint64 || !in.branch(in.tc.Cmp(OUlt, in.tc.Const(max, 64), t)) {
				if neg {
					t = in.tc.Neg(t)
				}
				return Tuple{Value(t), Iface{}}
			}
			// out of range: what the function says of another number that is, with this one's text
			rep := "99999999999999999999999"
			if neg {
				rep = "-" + rep
			}
			res := in.callBody(fr, "strconv", name, append([]Value{rep}, a[1:]...)).(Tuple)
			if e, isI := res[1].(Iface); isI {
				if p, isP := e.V.(Ptr); isP {
					if st, isS := (*p).(Struct); isS && len(st) == 3 {
						st[1] = a[0]
						return res
					}
				}
			}
			return body()
		})
	}
	parse("ParseUint", false)
	parse("ParseInt", true)
	parse("Atoi", true)
}
