package main

// Hash-consed bit-vector / boolean terms with light simplification.

import (
	"fmt"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	ONeg
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OConcat
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem",
	"bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvneg", "bvnot", "bvult", "bvule", "bvslt", "bvsle", "extract", "zext", "sext", "concat"}

// Term: w==0 means Bool.
type Term struct {
	op      Op
	w       int
	a, b, c *Term
	val     uint64
	name    string
	id      int
	ev      uint64 // evaluation memo
	evVer   int
	smtVer  int   // path version in which it was emitted
	sup     *Term // the single variable it depends on, nil, or multiVar
	tt      *bits256
	vs      []*Term
}

type termKey struct {
	op      Op
	w       int
	a, b, c int
	val     uint64
	name    string
}

// TermCtx is private to a worker.
type TermCtx struct {
	tab    map[termKey]*Term
	n      int
	gen    int
	ver    int
	tTrue  *Term
	tFalse *Term
}

func newTermCtx() *TermCtx {
	tc := &TermCtx{}
	tc.reset()
	return tc
}

func (tc *TermCtx) reset() {
	tc.tab = map[termKey]*Term{}
	tc.gen++
	tc.tTrue = tc.raw(OConst, 0, nil, nil, nil, 1, "")
	tc.tFalse = tc.raw(OConst, 0, nil, nil, nil, 0, "")
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (tc *TermCtx) raw(op Op, w int, a, b, c *Term, val uint64, name string) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	tc.n++
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: tc.n}
	t.sup = supOf(a, b, c)
	tc.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (tc *TermCtx) Const(v uint64, w int) *Term {
	return tc.raw(OConst, w, nil, nil, nil, v&mask(w), "")
}
func (tc *TermCtx) Bool(b bool) *Term {
	if b {
		return tc.tTrue
	}
	return tc.tFalse
}
func (tc *TermCtx) Var(name string, w int) *Term { return tc.raw(OVar, w, nil, nil, nil, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }

func (tc *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tc.Bool(a.val == 0)
	case ONot:
		return a.a
	}
	return tc.raw(ONot, 0, a, nil, nil, 0, "")
}
func (tc *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.raw(OAnd, 0, a, b, nil, 0, "")
}
func (tc *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.raw(OOr, 0, a, b, nil, 0, "")
}

func (tc *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return tc.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val != 0 {
				return a
			}
			return tc.Not(a)
		}
		switch a.op {
		case OZext:
			if b.val&^mask(a.a.w) != 0 {
				return tc.tFalse
			}
			return tc.Eq(a.a, tc.Const(b.val, a.a.w))
		case OSext:
			low := b.val & mask(a.a.w)
			if uint64(sext(low, a.a.w))&mask(a.w) != b.val {
				return tc.tFalse
			}
			return tc.Eq(a.a, tc.Const(low, a.a.w))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return tc.Ite(a.a, tc.Eq(a.b, b), tc.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return tc.Eq(a.a, tc.Const(b.val-a.b.val, a.w))
			}
		case OBXor:
			if a.b.isConst() {
				return tc.Eq(a.a, tc.Const(b.val^a.b.val, a.w))
			}
		case OConcat:
			lw := a.b.w
			return tc.And(tc.Eq(a.a, tc.Const(b.val>>uint(lw), a.a.w)), tc.Eq(a.b, tc.Const(b.val, lw)))
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tc.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.isConst() && b.b.isConst() {
			return tc.Eq(a.a, tc.Add(b.a, tc.Const(b.b.val-a.b.val, a.w)))
		}
		if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
			return tc.And(tc.Eq(a.a, b.a), tc.Eq(a.b, b.b))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tc.raw(OEq, 0, a, b, nil, 0, "")
}

func (tc *TermCtx) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return c
			}
			return tc.Not(c)
		}
		if a.isConst() {
			if a.val != 0 {
				return tc.Or(c, b)
			}
			return tc.And(tc.Not(c), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return tc.Or(tc.Not(c), a)
			}
			return tc.And(c, a)
		}
	}
	if c.op == ONot {
		return tc.Ite(c.a, b, a)
	}
	return tc.raw(OIte, a.w, c, a, b, 0, "")
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

func evalBin(op Op, w int, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(sx>>y) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation.
func (tc *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tc.Const(evalBin(op, w, a.val, b.val), w)
	}
	if commut(op) && a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		k := b.val
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
			if k == 0 {
				return a
			}
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
			if k&(k-1) == 0 {
				s := uint64(0)
				for k>>s != 1 {
					s++
				}
				return tc.Bin(OShl, a, tc.Const(s, w))
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
		case OUDiv, OSDiv:
			if k == 1 {
				return a
			}
		}
		if op == OSub {
			return tc.Bin(OAdd, a, tc.Const(-k, w))
		}
		if op == OAdd && a.op == OAdd && a.b.isConst() {
			return tc.Bin(OAdd, a.a, tc.Const(a.b.val+k, w))
		}
		if op == OBXor && a.op == OBXor && a.b.isConst() {
			return tc.Bin(OBXor, a.a, tc.Const(a.b.val^k, w))
		}
		if (op == OShl || op == OLShr) && k >= uint64(w) {
			return tc.Const(0, w)
		}
		if op == OLShr && a.op == OZext {
			if k >= uint64(a.a.w) {
				return tc.Const(0, w)
			}
			return tc.Zext(tc.Extract(a.a, a.a.w-1, int(k)), w)
		}
		if op == OLShr && a.op == OConcat {
			return tc.Zext(tc.Extract(a, w-1, int(k)), w)
		}
		if op == OBAnd && k == 0xff && w > 8 {
			return tc.Zext(tc.Extract(a, 7, 0), w)
		}
		// push arithmetic with constants through ite of constants
		if a.op == OIte && a.b.isConst() && a.c.isConst() {
			return tc.Ite(a.a, tc.Bin(op, a.b, b), tc.Bin(op, a.c, b))
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return tc.Const(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OBXor {
		if a.op == OBXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OBXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
	}
	// byte assembly: (or (shl (zext x) k) (zext y)) -> zext(concat x y) when fields are disjoint & adjacent
	if op == OBOr || op == OAdd {
		if t := tc.asmBytes(a, b, w); t != nil {
			return t
		}
	}
	if commut(op) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tc.raw(op, w, a, b, nil, 0, "")
}

// field view: term == zext(core) << sh
func (tc *TermCtx) field(t *Term) (core *Term, sh int, ok bool) {
	if t.op == OShl && t.b.isConst() && t.a.op == OZext {
		core, sh = t.a.a, int(t.b.val)
		if core.w+sh <= t.w {
			return core, sh, true
		}
		return nil, 0, false
	}
	if t.op == OZext {
		return t.a, 0, true
	}
	if t.op == OShl && t.b.isConst() && t.a.w == t.w {
		sh = int(t.b.val)
		return tc.Extract(t.a, t.w-1-sh, 0), sh, true
	}
	if t.op == OConcat && t.b.isConst() && t.b.val == 0 {
		return t.a, t.b.w, true
	}
	if t.op == OZext || t.op == OConcat {
		return t, 0, true
	}
	return nil, 0, false
}

func (tc *TermCtx) asmBytes(a, b *Term, w int) *Term {
	ca, sa, ok := tc.field(a)
	if !ok {
		return nil
	}
	cb, sb, ok := tc.field(b)
	if !ok {
		return nil
	}
	if sa < sb {
		ca, cb, sa, sb = cb, ca, sb, sa
	}
	if sa != sb+cb.w {
		return nil
	}
	c := tc.Concat(ca, cb)
	if sb == 0 {
		return tc.Zext(c, w)
	}
	return tc.Bin(OShl, tc.Zext(c, w), tc.Const(uint64(sb), w))
}

func (tc *TermCtx) Add(a, b *Term) *Term { return tc.Bin(OAdd, a, b) }

func (tc *TermCtx) Neg(a *Term) *Term {
	if a.isConst() {
		return tc.Const(-a.val, a.w)
	}
	return tc.raw(ONeg, a.w, a, nil, nil, 0, "")
}
func (tc *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return tc.Const(^a.val, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return tc.raw(OBNot, a.w, a, nil, nil, 0, "")
}

// Cmp builds ult/ule/slt/sle.
func (tc *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width mismatch %d %d", a.w, b.w))
	}
	w := a.w
	if a == b {
		return tc.Bool(op == OUle || op == OSle)
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(evalCmp(op, w, a.val, b.val))
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w && a.a.w < w {
		o := op
		if o == OSlt {
			o = OUlt
		} else if o == OSle {
			o = OUle
		}
		return tc.Cmp(o, a.a, b.a)
	}
	if a.op == OZext && b.isConst() && a.a.w < w {
		iw := a.a.w
		if op == OSlt || op == OSle {
			if sext(b.val, w) < 0 {
				return tc.tFalse
			}
		}
		if b.val > mask(iw) {
			return tc.tTrue
		}
		o := OUlt
		if op == OUle || op == OSle {
			o = OUle
		}
		return tc.Cmp(o, a.a, tc.Const(b.val, iw))
	}
	if b.op == OZext && a.isConst() && b.a.w < w {
		iw := b.a.w
		if op == OSlt || op == OSle {
			if sext(a.val, w) < 0 {
				return tc.tTrue
			}
		}
		if a.val > mask(iw) {
			return tc.tFalse
		}
		o := OUlt
		if op == OUle || op == OSle {
			o = OUle
		}
		return tc.Cmp(o, tc.Const(a.val, iw), b.a)
	}
	switch op {
	case OUlt:
		if b.isConst() && b.val == 0 {
			return tc.tFalse
		}
		if b.isConst() && b.val == 1 {
			return tc.Eq(a, tc.Const(0, w))
		}
		if a.isConst() && a.val == mask(w) {
			return tc.tFalse
		}
		if a.isConst() && a.val == 0 {
			return tc.Not(tc.Eq(b, a))
		}
	case OUle:
		if a.isConst() && a.val == 0 {
			return tc.tTrue
		}
		if b.isConst() && b.val == mask(w) {
			return tc.tTrue
		}
		if b.isConst() && b.val == 0 {
			return tc.Eq(a, b)
		}
		// a <= b  ==  !(b < a)
		return tc.Not(tc.Cmp(OUlt, b, a))
	case OSle:
		return tc.Not(tc.Cmp(OSlt, b, a))
	}
	if a.op == OIte && b.isConst() && a.b.isConst() && a.c.isConst() {
		return tc.Ite(a.a, tc.Cmp(op, a.b, b), tc.Cmp(op, a.c, b))
	}
	return tc.raw(op, 0, a, b, nil, 0, "")
}

func evalCmp(op Op, w int, x, y uint64) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

func (tc *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return tc.Const(a.val>>uint(lo), w)
	case OZext:
		if lo >= a.a.w {
			return tc.Const(0, w)
		}
		if hi < a.a.w {
			return tc.Extract(a.a, hi, lo)
		}
		return tc.Zext(tc.Extract(a.a, a.a.w-1, lo), w)
	case OSext:
		if hi < a.a.w {
			return tc.Extract(a.a, hi, lo)
		}
	case OExtract:
		l0 := int(a.val & 0xff)
		return tc.Extract(a.a, hi+l0, lo+l0)
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return tc.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return tc.Extract(a.a, hi-lw, lo-lw)
		}
		return tc.Concat(tc.Extract(a.a, hi-lw, 0), tc.Extract(a.b, lw-1, lo))
	case OLShr:
		if a.b.isConst() {
			k := int(a.b.val)
			if hi+k < a.w {
				return tc.Extract(a.a, hi+k, lo+k)
			}
		}
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return tc.Ite(a.a, tc.Extract(a.b, hi, lo), tc.Extract(a.c, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		return tc.Bin(a.op, tc.Extract(a.a, hi, lo), tc.Extract(a.b, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tc.Bin(a.op, tc.Extract(a.a, hi, 0), tc.Extract(a.b, hi, 0))
		}
	}
	return tc.raw(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}
func (tc *TermCtx) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(a.val, w)
	}
	if a.op == OZext {
		return tc.Zext(a.a, w)
	}
	return tc.raw(OZext, w, a, nil, nil, 0, "")
}
func (tc *TermCtx) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(uint64(sext(a.val, a.w)), w)
	}
	if a.op == OZext {
		return tc.Zext(a.a, w)
	}
	return tc.raw(OSext, w, a, nil, nil, 0, "")
}
func (tc *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return tc.Const(a.val<<uint(b.w)|b.val, w)
	}
	if a.isConst() && a.val == 0 {
		return tc.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && int(a.val&0xff) == int(b.val>>8)+1 {
		return tc.Extract(a.a, int(a.val>>8), int(b.val&0xff))
	}
	return tc.raw(OConcat, w, a, b, nil, 0, "")
}

// Model: variable name -> value.
type Model map[string]uint64

func (tc *TermCtx) newEval() { tc.ver++ }

// Eval under model m; memo valid until newEval.
func (tc *TermCtx) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return m[t.name] & maskB(t.w)
	}
	if t.evVer == tc.ver {
		return t.ev
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - tc.Eval(t.a, m)
	case OAnd:
		r = tc.Eval(t.a, m) & tc.Eval(t.b, m)
	case OOr:
		r = tc.Eval(t.a, m) | tc.Eval(t.b, m)
	case OEq:
		r = b2u(tc.Eval(t.a, m) == tc.Eval(t.b, m))
	case OIte:
		if tc.Eval(t.a, m) != 0 {
			r = tc.Eval(t.b, m)
		} else {
			r = tc.Eval(t.c, m)
		}
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(t.op, t.a.w, tc.Eval(t.a, m), tc.Eval(t.b, m)))
	case ONeg:
		r = -tc.Eval(t.a, m) & mask(t.w)
	case OBNot:
		r = ^tc.Eval(t.a, m) & mask(t.w)
	case OExtract:
		r = (tc.Eval(t.a, m) >> (t.val & 0xff)) & mask(t.w)
	case OZext:
		r = tc.Eval(t.a, m)
	case OSext:
		r = uint64(sext(tc.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OConcat:
		r = (tc.Eval(t.a, m)<<uint(t.b.w) | tc.Eval(t.b, m)) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, tc.Eval(t.a, m), tc.Eval(t.b, m))
	}
	t.ev, t.evVer = r, tc.ver
	return r
}

func maskB(w int) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// String renders the term in full (debugging / evidence samples).
func (t *Term) String() string {
	var rec func(t *Term, d int) string
	rec = func(t *Term, d int) string {
		if t.op == OConst || t.op == OVar {
			return t.ref()
		}
		if d > 6 {
			return "…"
		}
		var xs []string
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				xs = append(xs, rec(x, d+1))
			}
		}
		n := opNames[t.op]
		if t.op == OExtract {
			n = fmt.Sprintf("(_ extract %d %d)", t.val>>8, t.val&0xff)
		}
		return "(" + n + " " + strings.Join(xs, " ") + ")"
	}
	return rec(t, 0)
}
