package main

// Happens-before data race detection (vector clocks) over the cells and maps
// that functions of the repository read and write. A race is reported when two
// accesses by different goroutines, at least one of them a write, are not
// ordered by the synchronisation that happened on this path, whatever their
// order in time was. Where the order given here differs from Go's, it orders
// more, never less.

import (
	"fmt"
	"go/token"
)

type vclock []int

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

type clockKey struct {
	obj  any
	kind string
}

type accessAt struct {
	fn  *Func
	pos token.Pos
}

type shadow struct {
	wG, wC int // last write; wC is 0 if there was none
	wAt    accessAt
	reads  []shadowRead
}

type shadowRead struct {
	g, c int
	at   accessAt
}

type raceState struct {
	clocks map[clockKey]*vclock
	cells  map[any]*shadow
}

func newRaceState() *raceState {
	return &raceState{map[clockKey]*vclock{}, map[any]*shadow{}}
}

func (g *G) clock() *vclock {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return &g.vc
}

// snap is what g knows now; what it does later is after that.
func (g *G) snap() vclock {
	c := append(vclock(nil), *g.clock()...)
	g.vc[g.id]++
	return c
}

func (in *Interp) racing() *raceState {
	if in.path == nil || in.path.sched == nil || in.path.sched.cur == nil {
		return nil
	}
	return in.path.races
}

// acq orders what comes after what was released to the object.
func (in *Interp) acq(obj any, kind string) {
	if r := in.racing(); r != nil {
		if c := r.clocks[clockKey{obj, kind}]; c != nil {
			in.path.sched.cur.clock().join(*c)
		}
	}
}

func (in *Interp) rel(obj any, kind string) {
	if r := in.racing(); r != nil {
		k := clockKey{obj, kind}
		c := r.clocks[k]
		if c == nil {
			c = new(vclock)
			r.clocks[k] = c
		}
		c.join(in.path.sched.cur.snap())
	}
}

func (in *Interp) acqRel(obj any) {
	in.acq(obj, "")
	in.rel(obj, "")
}

// handOver orders a before what b does next.
func (in *Interp) handOver(a, b *G) {
	if in.racing() != nil && a != b {
		b.clock().join(a.snap())
	}
}

func (in *Interp) snapCur() vclock {
	if in.racing() == nil {
		return nil
	}
	return in.path.sched.cur.snap()
}

func (in *Interp) joinCur(c vclock) {
	if c != nil && in.racing() != nil {
		in.path.sched.cur.clock().join(c)
	}
}

func (in *Interp) raceAccess(fr *Frame, obj any, write bool) {
	if !fr.fn.isRepo || in.initDep > 0 || len(in.path.sched.gs) < 2 {
		return
	}
	if p, ok := obj.(Ptr); ok {
		switch v := (*p).(type) {
		case Struct:
			for i := range v {
				in.raceAccess(fr, &v[i], write)
			}
			return
		case Array:
			for i := range v {
				in.raceAccess(fr, &v[i], write)
			}
			return
		}
	}
	r := in.path.races
	g := in.path.sched.cur
	vc := *g.clock()
	s := r.cells[obj]
	if s == nil {
		s = &shadow{}
		r.cells[obj] = s
	}
	at := accessAt{fr.fn, fr.position()}
	if s.wC > 0 && s.wG != g.id && s.wC > vc.at(s.wG) {
		in.reportRace(fr, write, true, s.wAt, s.wG)
	}
	if !write {
		for i := range s.reads {
			if s.reads[i].g == g.id {
				s.reads[i].c, s.reads[i].at = vc.at(g.id), at
				return
			}
		}
		s.reads = append(s.reads, shadowRead{g.id, vc.at(g.id), at})
		return
	}
	for _, x := range s.reads {
		if x.g != g.id && x.c > vc.at(x.g) {
			in.reportRace(fr, true, false, x.at, x.g)
		}
	}
	s.wG, s.wC, s.wAt, s.reads = g.id, vc.at(g.id), at, s.reads[:0]
}

func (in *Interp) reportRace(fr *Frame, write, otherWrite bool, other accessAt, og int) {
	what := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	pos := in.eng.fset.Position(other.pos)
	in.violate("race", fmt.Sprintf("data race: %s in %s and unsynchronised %s by goroutine %d in %s (line %d)", what(write), fr.fn.name, what(otherWrite), og, other.fn.name, pos.Line))
}
