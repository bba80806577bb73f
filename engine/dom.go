package main

// Byte domains: conditions over a single variable of at most 8 bits are
// decided by their truth table against the values the path still allows. The
// allowed set over-approximates (conditions over several variables are not
// reflected), so it is used to conclude only that a side is impossible, or,
// for a variable that occurs in no condition with another variable, to pick a
// value for the other side without a solver call.

type bits256 [4]uint64

func (b *bits256) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b *bits256) get(i int) bool { return b[i>>6]>>(uint(i)&63)&1 != 0 }
func (b *bits256) and(c *bits256) (r bits256) {
	for i := range b {
		r[i] = b[i] & c[i]
	}
	return
}
func (b *bits256) andNot(c *bits256) (r bits256) {
	for i := range b {
		r[i] = b[i] &^ c[i]
	}
	return
}
func (b *bits256) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b *bits256) first() int {
	for i := 0; i < 256; i++ {
		if b.get(i) {
			return i
		}
	}
	return -1
}

var multiVar = &Term{name: "many"}

func supOf(ts ...*Term) *Term {
	var r *Term
	for _, t := range ts {
		if t == nil {
			continue
		}
		s := t.sup
		if t.op == OVar {
			s = t
		}
		if s == nil || s == r {
			continue
		}
		if r != nil || s == multiVar {
			return multiVar
		}
		r = s
	}
	return r
}

func small(v *Term) bool { return v != nil && v != multiVar && v.w <= 8 }

func domSize(v *Term) int {
	if v.w == 0 {
		return 2
	}
	return 1 << uint(v.w)
}

// table is the truth table of a boolean term over its single variable.
func (tc *TermCtx) table(t *Term) *bits256 {
	if t.tt != nil {
		return t.tt
	}
	n := domSize(t.sup)
	memo := map[*Term][]uint64{}
	v := tc.vec(t, n, memo)
	r := &bits256{}
	for i := 0; i < n; i++ {
		if v[i] != 0 {
			r.set(i)
		}
	}
	t.tt = r
	return r
}

func (tc *TermCtx) vec(t *Term, n int, memo map[*Term][]uint64) []uint64 {
	if v := memo[t]; v != nil {
		return v
	}
	r := make([]uint64, n)
	switch {
	case t.op == OConst:
		for i := range r {
			r[i] = t.val
		}
	case t.op == OVar:
		for i := range r {
			r[i] = uint64(i)
		}
	default:
		var a, b, c []uint64
		if t.a != nil {
			a = tc.vec(t.a, n, memo)
		}
		if t.b != nil {
			b = tc.vec(t.b, n, memo)
		}
		if t.c != nil {
			c = tc.vec(t.c, n, memo)
		}
		for i := range r {
			var x, y, z uint64
			if a != nil {
				x = a[i]
			}
			if b != nil {
				y = b[i]
			}
			if c != nil {
				z = c[i]
			}
			r[i] = evalOp(t, x, y, z)
		}
	}
	memo[t] = r
	return r
}

func evalOp(t *Term, x, y, z uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		return 1 - x
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2u(x == y)
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OUlt, OUle, OSlt, OSle:
		return b2u(evalCmp(t.op, t.a.w, x, y))
	case ONeg:
		return -x & mask(t.w)
	case OBNot:
		return ^x & mask(t.w)
	case OExtract:
		return (x >> (t.val & 0xff)) & mask(t.w)
	case OZext:
		return x
	case OSext:
		return uint64(sext(x, t.a.w)) & mask(t.w)
	case OConcat:
		return (x<<uint(t.b.w) | y) & mask(t.w)
	}
	return evalBin(t.op, t.w, x, y)
}

type ival struct{ lo, hi uint64 }

type doms struct {
	iv    map[*Term]ival
	odd   map[*Term]bool // wide variables with conditions that are no interval
	set   map[*Term]*bits256
	multi map[*Term]bool
	seen  map[*Term]bool
}

func newDoms() *doms {
	return &doms{map[*Term]ival{}, map[*Term]bool{}, map[*Term]*bits256{}, map[*Term]bool{}, map[*Term]bool{}}
}

func (d *doms) of(v *Term) *bits256 {
	if s := d.set[v]; s != nil {
		return s
	}
	s := &bits256{}
	for i := 0; i < domSize(v); i++ {
		s.set(i)
	}
	d.set[v] = s
	return s
}

func (d *doms) markVars(t *Term) {
	if t == nil || t.op == OConst || d.seen[t] {
		return
	}
	if t.op == OVar {
		d.multi[t] = true
		return
	}
	d.seen[t] = true
	d.markVars(t.a)
	d.markVars(t.b)
	d.markVars(t.c)
}

// learn adds a conjunct of the path condition.
func (d *doms) learn(tc *TermCtx, t *Term) {
	s := t.sup
	if t.op == OVar {
		s = t
	}
	if small(s) {
		if t.op == OVar {
			r := bits256{}
			r.set(1)
			d.set[s] = &r
			return
		}
		r := d.of(s).and(tc.table(t))
		d.set[s] = &r
		return
	}
	if s == multiVar {
		d.markVars(t)
		return
	}
	// intervals of wide variables
	if v, r, ok := rangeOf(t); ok {
		c := d.interval(v)
		if r.lo > c.lo {
			c.lo = r.lo
		}
		if r.hi < c.hi {
			c.hi = r.hi
		}
		d.iv[v] = c
	} else if s != nil {
		d.odd[s] = true
	}
}

func (d *doms) interval(v *Term) ival {
	if c, ok := d.iv[v]; ok {
		return c
	}
	return ival{0, mask(v.w)}
}

// rangeOf recognizes v < c, c < v, v = c and the negations of the first two.
func rangeOf(t *Term) (*Term, ival, bool) {
	neg := false
	if t.op == ONot {
		neg = true
		t = t.a
	}
	switch t.op {
	case OUlt:
		switch {
		case t.a.op == OVar && t.b.isConst():
			if neg {
				return t.a, ival{t.b.val, mask(t.a.w)}, true
			}
			if t.b.val > 0 {
				return t.a, ival{0, t.b.val - 1}, true
			}
		case t.b.op == OVar && t.a.isConst():
			if neg {
				return t.b, ival{0, t.a.val}, true
			}
			if t.a.val < mask(t.b.w) {
				return t.b, ival{t.a.val + 1, mask(t.b.w)}, true
			}
		}
	case OEq:
		if !neg && t.a.op == OVar && t.b.isConst() && t.a.w > 0 {
			return t.a, ival{t.b.val, t.b.val}, true
		}
		if !neg && t.b.op == OVar && t.a.isConst() && t.b.w > 0 {
			return t.b, ival{t.a.val, t.a.val}, true
		}
	}
	return nil, ival{}, false
}

func (d *doms) decideWide(tc *TermCtx, t *Term) (val, ok bool) {
	v, r, isR := rangeOf(t)
	if isR {
		c := d.interval(v)
		if c.lo >= r.lo && c.hi <= r.hi {
			return true, true
		}
		if c.hi < r.lo || c.lo > r.hi {
			return false, true
		}
		return false, false
	}
	if t.op == ONot {
		if v, r, isR := rangeOf(t.a); isR {
			c := d.interval(v)
			if c.lo >= r.lo && c.hi <= r.hi {
				return false, true
			}
			if c.hi < r.lo || c.lo > r.hi {
				return true, true
			}
		}
	}
	return false, false
}

// pickWide is pick for wide variables.
func (d *doms) pickWide(tc *TermCtx, t *Term) (*Term, uint64, bool) {
	v, r, ok := rangeOf(t)
	if !ok || d.multi[v] || d.odd[v] {
		return nil, 0, false
	}
	c := d.interval(v)
	if r.lo > c.lo {
		c.lo = r.lo
	}
	if r.hi < c.hi {
		c.hi = r.hi
	}
	if c.lo > c.hi {
		return nil, 0, false
	}
	return v, c.lo, true
}

// decide tells whether the path condition implies t or not t.
func (d *doms) decide(tc *TermCtx, t *Term) (val, ok bool) {
	if t.op == OVar || t.sup == nil || t.sup == multiVar {
		return false, false
	}
	if !small(t.sup) {
		return d.decideWide(tc, t)
	}
	s := d.of(t.sup)
	tt := tc.table(t)
	if r := s.andNot(tt); r.empty() {
		return true, true
	}
	if r := s.and(tt); r.empty() {
		return false, true
	}
	return false, false
}

// pick gives a value of t's variable that makes t true, when that is possible
// independently of every other variable.
func (d *doms) pick(tc *TermCtx, t *Term) (v *Term, val uint64, ok bool) {
	if t.op == OVar || t.sup == nil || t.sup == multiVar {
		return nil, 0, false
	}
	if !small(t.sup) {
		return d.pickWide(tc, t)
	}
	if d.multi[t.sup] {
		return nil, 0, false
	}
	r := d.of(t.sup).and(tc.table(t))
	i := r.first()
	if i < 0 {
		return nil, 0, false
	}
	return t.sup, uint64(i), true
}
