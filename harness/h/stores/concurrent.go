package stores

import (
	"context"
	"errors"

	"github.com/inklabs/rangedb"

	"verif/h/kit"
	"verif/sym"
)

func (s *Sys) query(ctx context.Context, q int) rangedb.RecordIterator {
	switch q {
	case 0:
		return s.store.Events(ctx, 0)
	case 1:
		return s.store.EventsByAggregateTypes(ctx, 0, "A", "B")
	}
	return s.store.EventsByStream(ctx, 0, "s")
}

func cloneRef(r kit.Ref) kit.Ref {
	r.Recs = append([]rangedb.Record(nil), r.Recs...)
	return r
}

// cop is a concurrent operation with its observed outcome.
type cop struct {
	kind int
	name string
	typ  string
	exp  uint64
	q    int
	n    int
	b    []*rangedb.EventRecord

	got  uint64
	err  error
	recs []*rangedb.Record
	from int // completed operations when it started
	done int // order of completion, from 1
}

func (s *Sys) newOp(kinds int) *cop {
	o := &cop{kind: sym.Choose("kind", kinds)}
	o.name = []string{"s", "t"}[sym.Choose("stream", 2)]
	o.typ = map[string]string{"s": "A", "t": "B"}[o.name]
	switch o.kind {
	case 0, 1:
		o.n = 2
		if o.kind == 1 {
			o.n = 1
			o.exp = sym.U64("expected")
		}
		o.b = batch(o.typ, "1", o.n)
	case 2:
		o.exp = sym.U64("expected")
	case 3:
		o.q = sym.Choose("query", 2+sym.Param("streamquery", 0))
	}
	return o
}

func (s *Sys) perform(o *cop) {
	ctx := context.Background()
	switch o.kind {
	case 0:
		o.got, o.err = s.store.Save(ctx, o.name, o.b...)
	case 1:
		o.got, o.err = s.store.OptimisticSave(ctx, o.exp, o.name, o.b...)
	case 2:
		o.err = s.store.OptimisticDeleteStream(ctx, o.exp, o.name)
	case 3:
		o.recs, o.err = kit.Drain(s.query(ctx, o.q))
	case 4:
		o.got, o.err = s.store.TotalEventsInStream(ctx, o.name)
	}
}

// legal performs o on the reference model and compares the outcome.
func (o *cop) legal(r *kit.Ref) bool {
	cnt := r.Count(o.name)
	switch o.kind {
	case 0:
		r.Append(o.name, o.b)
		return sym.And(o.err == nil, o.got == cnt+2)
	case 1:
		if o.err == nil {
			r.Append(o.name, o.b)
			return sym.And(o.exp == cnt, o.got == cnt+1)
		}
		e, ok := isUnexpected(o.err)
		return ok && sym.And(o.exp != cnt, sym.And(e.ActualSequenceNumber == cnt, e.Expected == o.exp))
	case 2:
		if o.err == nil {
			r.Delete(o.name)
			return sym.And(cnt > 0, o.exp == cnt)
		}
		if cnt == 0 {
			return errors.Is(o.err, rangedb.ErrStreamNotFound)
		}
		e, ok := isUnexpected(o.err)
		return ok && sym.And(o.exp != cnt, sym.And(e.ActualSequenceNumber == cnt, e.Expected == o.exp))
	case 3:
		want := r.Select(func(x *rangedb.Record) bool { return o.q < 2 || x.StreamName == "s" })
		if o.q == 2 && len(want) == 0 {
			return errors.Is(o.err, rangedb.ErrStreamNotFound) && len(o.recs) == 0
		}
		return sym.And(o.err == nil, kit.SameList(o.recs, want))
	}
	return sym.And(o.err == nil, o.got == cnt)
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// Linearizable: concurrent operations have the outcome of some sequential order
// that respects the order of operations that do not overlap; subscribers see the
// records in order.
func Linearizable() {
	s := newSys()
	if sym.Param("sink", 0) == 1 {
		s.subscribe()
	}
	if sym.Param("events", 1) > 0 {
		s.mustSaveL("fixture", streamDef{"s", "A", "1"})
	}
	threads := sym.Param("threads", 2)
	var ops []*cop
	for i := 0; i < threads; i++ {
		o := s.newOp(sym.Param("kinds", 4))
		if i > 0 {
			sym.Assume(ops[i-1].kind <= o.kind) // the order of the threads is arbitrary
		}
		ops = append(ops, o)
	}
	done := make(chan bool, threads)
	var mu kit.Mutex
	completed := 0
	sym.SetSched("cfg")
	for _, o := range ops {
		o := o
		go func() {
			mu.Lock()
			o.from = completed
			mu.Unlock()
			s.perform(o)
			mu.Lock()
			completed++
			o.done = completed
			mu.Unlock()
			done <- true
		}()
	}
	for range ops {
		<-done
	}
	sym.Quiesce()
	sym.SetSched("det")
	final, err := kit.Drain(s.store.Events(context.Background(), 0))
	sym.Assert(err == nil, "linearizable", "reading at the end fails: "+sym.Err(err))
	ok := false
	for _, p := range permutations(threads) {
		legalOrder := true
		for i := range p {
			for j := i + 1; j < len(p); j++ {
				// p[j] ended before p[i] began: the order would contradict real time
				if ops[p[j]].done <= ops[p[i]].from {
					legalOrder = false
				}
			}
		}
		if !legalOrder {
			continue
		}
		ref := cloneRef(s.ref)
		good := true
		for _, i := range p {
			good = sym.And(good, ops[i].legal(&ref))
		}
		good = sym.And(good, kit.SameList(final, ref.Select(func(*rangedb.Record) bool { return true })))
		ok = sym.Or(ok, good)
	}
	sym.Assert(ok, "linearizable", "the outcome of concurrent operations is not that of any sequential order")
	if sym.Param("sink", 0) == 1 {
		got := s.sink.Get()
		var want []uint64
		for i := range got {
			want = append(want, got[i].GlobalSequenceNumber)
			sym.Assert(i == 0 || want[i] == want[i-1]+1, "linearizable", "a subscriber gets records out of order or not exactly once")
		}
		last := s.ref.Last
		for _, o := range ops {
			if o.kind < 2 && o.err == nil {
				last += uint64(o.n)
			}
		}
		sym.Assert(uint64(len(got)) == last, "linearizable", "a subscriber misses records")
	}
	sym.Reach("end")
}

// SlowReader: writing while one's own read is open neither blocks nor changes the read.
func SlowReader() {
	s := newSys()
	k := 2
	for i := 0; i < k; i++ {
		s.mustSaveL("fixture", streamDef{"s", []string{"A", "B"}[i], "1"})
	}
	before := cloneRef(s.ref)
	ctx, cancel := context.WithCancel(context.Background())
	q := sym.Choose("query", 3)
	w := sym.Choose("write", 3)
	at := sym.Choose("at", k+1)
	other := sym.Choose("other", 2) == 1
	sym.SetSched("cfg")
	it := s.query(ctx, q)
	done := make(chan bool, 1)
	write := func() {
		var err error
		switch w {
		case 0:
			_, err = s.store.Save(context.Background(), "s", batch("A", "1", 1)...)
		case 1:
			err = s.store.OptimisticDeleteStream(context.Background(), 2, "s")
		case 2:
			_, err = s.store.TotalEventsInStream(context.Background(), "s")
		}
		sym.Assert(err == nil, "slow-reader", "a write while a read is open fails: "+sym.Err(err))
		done <- true
	}
	got := 0
	for i := 0; ; i++ {
		if i == at {
			if other {
				go write()
			} else {
				write()
			}
		}
		if !it.Next() {
			break
		}
		sym.Assert(got < len(before.Recs) && kit.Same(it.Record(), &before.Recs[got]), "slow-reader", "a read changes while it is consumed")
		got++
	}
	if at > got {
		sym.Fail("slow-reader", "a read gives less than there was when it began")
	}
	<-done
	sym.Assert(it.Err() == nil && got == k, "slow-reader", "a read fails or is cut off by a concurrent write: "+sym.Err(it.Err()))
	sym.Reach("end")
	cancel()
	sym.SetSched("det")
	s.reopen()
}
