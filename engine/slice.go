package main

import (
	"encoding/binary"
	"sort"
)

// Slicing: the path condition is kept in groups of conjuncts that share
// variables. A query involves only the groups of its own variables; the
// values of all other variables stay as they are in the current model. Answers
// are cached per group of conjuncts, across paths.

type slicer struct {
	parent map[*Term]*Term
	conj   map[*Term][]*Term
	vars   map[*Term][]*Term
}

func newSlicer() *slicer {
	return &slicer{map[*Term]*Term{}, map[*Term][]*Term{}, map[*Term][]*Term{}}
}

func (s *slicer) find(v *Term) *Term {
	p, ok := s.parent[v]
	if !ok {
		s.parent[v] = v
		s.vars[v] = []*Term{v}
		return v
	}
	if p == v {
		return v
	}
	r := s.find(p)
	s.parent[v] = r
	return r
}

func (s *slicer) union(a, b *Term) *Term {
	a, b = s.find(a), s.find(b)
	if a == b {
		return a
	}
	if len(s.conj[a])+len(s.vars[a]) < len(s.conj[b])+len(s.vars[b]) {
		a, b = b, a
	}
	s.parent[b] = a
	s.conj[a] = append(s.conj[a], s.conj[b]...)
	s.vars[a] = append(s.vars[a], s.vars[b]...)
	delete(s.conj, b)
	delete(s.vars, b)
	return a
}

func (s *slicer) add(t *Term) {
	vs := t.varsOf()
	if len(vs) == 0 {
		return
	}
	r := s.find(vs[0])
	for _, v := range vs[1:] {
		r = s.union(r, v)
	}
	s.conj[r] = append(s.conj[r], t)
}

// varsOf lists the variables of a term.
func (t *Term) varsOf() []*Term {
	if t.op == OVar {
		return []*Term{t}
	}
	if t.sup == nil {
		return nil
	}
	if t.sup != multiVar {
		return []*Term{t.sup}
	}
	if t.vs != nil {
		return t.vs
	}
	seen := map[*Term]bool{}
	var r []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			r = append(r, t)
			return
		}
		if t.sup != nil && t.sup != multiVar {
			rec(t.sup)
			return
		}
		if t.vs != nil {
			for _, v := range t.vs {
				rec(v)
			}
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
	}
	rec(t)
	t.vs = r
	return r
}

type cached struct {
	res Result
	m   Model
}

// query decides the path condition together with t; the model it returns
// satisfies both.
func (in *Interp) query(t *Term) (Result, Model) {
	p := in.path
	roots := map[*Term]bool{}
	var conj, vars []*Term
	for _, v := range t.varsOf() {
		r := p.slice.find(v)
		if !roots[r] {
			roots[r] = true
			conj = append(conj, p.slice.conj[r]...)
			vars = append(vars, p.slice.vars[r]...)
		}
	}
	sort.Slice(conj, func(i, j int) bool { return conj[i].id < conj[j].id })
	key := make([]byte, 0, 4*len(conj)+4)
	key = binary.LittleEndian.AppendUint32(key, uint32(t.id))
	for _, c := range conj {
		key = binary.LittleEndian.AppendUint32(key, uint32(c.id))
	}
	if in.qcacheGen != in.tc.gen || in.qcache == nil || len(in.qcache) > 200000 {
		in.qcache, in.qcacheGen = map[string]cached{}, in.tc.gen
	}
	c, ok := in.qcache[string(key)]
	if ok {
		in.cacheN++
	} else {
		var done bool
		if c.res, c.m, done = in.solveNoDigits(conj, t, vars); !done {
			c.res, c.m = in.sol.solve(conj, t, vars)
		}
		if c.res != Unknown {
			in.qcache[string(key)] = c
		}
	}
	if c.res != Sat {
		return c.res, nil
	}
	m := cloneModel(p.model)
	for k, v := range c.m {
		m[k] = v
	}
	return Sat, m
}
