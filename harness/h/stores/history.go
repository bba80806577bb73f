package stores

import (
	"context"
	"errors"

	"github.com/inklabs/rangedb"

	"verif/h/kit"
	"verif/sym"
)

// Numbering: any sequence of saves, failing saves, deletes and reopenings
// numbers events 1, 2, 3, ... per store and per stream.
func Numbering() {
	s := newSys()
	steps := sym.Param("steps", 3)
	ctx := context.Background()
	ops := 4
	if s.backend == 1 {
		ops = 5
	}
	for i := 0; i < steps; i++ {
		op := sym.Choose("op", ops)
		switch op {
		case 0, 1:
			d := s.anyStream()
			n := op + 1
			b := batch(d.typ, d.id, n)
			got, err := s.store.Save(ctx, d.name, b...)
			sym.Assert(err == nil, "numbering", "a valid Save fails: "+sym.Err(err))
			s.ref.Append(d.name, b)
			sym.Assert(got == s.ref.Count(d.name), "numbering", "Save does not return the last stream sequence number")
		case 2: // a batch that fails at its second event
			d := s.anyStream()
			b := batch(d.typ, d.id, 2)
			calls := 0
			s.codec.Fail = func(op string) bool { calls++; return op == "ser" && calls == 2 }
			s.spoil(b, 2)
			_, err := s.store.Save(ctx, d.name, b...)
			s.codec.Fail = nil
			sym.Assert(err != nil, "numbering", "Save reports success although an event could not be serialized")
		case 3:
			name := s.anyName()
			exp := sym.U64("expected")
			cnt := s.ref.Count(name)
			err := s.store.OptimisticDeleteStream(ctx, exp, name)
			if err == nil {
				sym.Assert(sym.And(cnt > 0, exp == cnt), "numbering", "an invalid delete succeeds")
				s.ref.Delete(name)
			} else {
				sym.Assert(sym.Or(cnt == 0, exp != cnt), "numbering", "a valid delete fails: "+sym.Err(err))
			}
		case 4:
			s.reopen()
		}
	}
	d := s.anyStream()
	b := batch(d.typ, d.id, 1)
	got, err := s.store.Save(ctx, d.name, b...)
	sym.Assert(err == nil, "numbering", "final Save fails: "+sym.Err(err))
	s.ref.Append(d.name, b)
	sym.Assert(got == s.ref.Count(d.name), "numbering", "final Save does not return the last stream sequence number")
	s.check("numbering", "at the end")
	s.checkUnique()
	sym.Reach("end")
}

// spoil makes event k of a batch impossible to serialize for backends that do not take the serializer of the harness.
func (s *Sys) spoil(b []*rangedb.EventRecord, k int) {
	if s.backend == 2 && k > 0 {
		b[k-1].Metadata = make(chan int)
	}
}

// checkUnique: records carry distinct event IDs, a timestamp, and the numbers are strictly increasing.
func (s *Sys) checkUnique() {
	got, _ := kit.Drain(s.store.Events(context.Background(), 0))
	ids := map[string]bool{}
	for i, r := range got {
		sym.Assert(r.EventID != "" && !ids[r.EventID], "numbering", "event IDs are not unique")
		ids[r.EventID] = true
		sym.Assert(s.clock.Gave(r.InsertTimestamp), "numbering", "a timestamp is not a time of the clock")
		if i > 0 {
			sym.Assert(r.GlobalSequenceNumber > got[i-1].GlobalSequenceNumber, "numbering", "global sequence numbers do not increase")
		}
	}
}

// Optimistic: OptimisticSave succeeds exactly when the expected number is the
// number of events in the stream.
func Optimistic() {
	s := newSys()
	ctx := context.Background()
	s.fixture(sym.Param("events", 3))
	if sym.Choose("delete", 2) == 1 {
		n := s.anyName()
		_ = s.store.OptimisticDeleteStream(ctx, s.ref.Count(n), n)
		s.ref.Delete(n)
	}
	rounds := sym.Param("rounds", 2)
	for i := 0; i < rounds; i++ {
		d := s.anyStream()
		n := 1 + sym.Choose("n", sym.Param("batch", 2))
		b := batch(d.typ, d.id, n)
		exp := sym.U64("expected")
		cnt := s.ref.Count(d.name)
		got, err := s.store.OptimisticSave(ctx, exp, d.name, b...)
		if err == nil {
			sym.Assert(exp == cnt, "optimistic", "OptimisticSave succeeds although the expected number is not the current one")
			s.ref.Append(d.name, b)
			sym.Assert(got == cnt+uint64(n), "optimistic", "OptimisticSave does not return the last stream sequence number")
			sym.Reach("accepted")
		} else {
			sym.Assert(exp != cnt, "optimistic", "OptimisticSave fails although the expected number is the current one: "+sym.Err(err))
			e, ok := isUnexpected(err)
			sym.Assert(ok, "optimistic", "a wrong expected number is not reported as UnexpectedSequenceNumber")
			sym.Assert(e.Expected == exp, "optimistic", "UnexpectedSequenceNumber.Expected is not the number passed")
			sym.Assert(e.ActualSequenceNumber == cnt, "optimistic", "UnexpectedSequenceNumber.ActualSequenceNumber is not the current number")
			sym.Reach("refused")
		}
	}
	s.check("optimistic", "after optimistic saves")
}

// cancelAt is a context that is cancelled from its n-th check on (n = 0: never).
type cancelAt struct {
	context.Context
	n     int
	calls int
}

var closedChan = func() chan struct{} { c := make(chan struct{}); close(c); return c }()

func (c *cancelAt) Done() <-chan struct{} {
	c.calls++
	if c.n > 0 && c.calls >= c.n {
		return closedChan
	}
	return c.Context.Done()
}

func (c *cancelAt) Err() error {
	if c.n > 0 && c.calls >= c.n {
		return context.Canceled
	}
	return nil
}

// Atomic: a batch is stored and announced completely, or not at all.
func Atomic() {
	s := newSys()
	s.subscribe()
	ctx := context.Background()
	s.fixture(sym.Param("events", 2))
	var seen []uint64
	for _, r := range s.ref.Recs {
		seen = append(seen, r.GlobalSequenceNumber)
	}
	d := s.anyStream()
	n := sym.Choose("n", sym.Param("batch", 2)+1)
	cause := sym.Choose("cause", 5)
	if cause == 2 && s.backend == 2 {
		return // see Cancel of the package pg
	}
	var c context.Context = ctx
	var b []*rangedb.EventRecord
	valid := n > 0
	cancelled := false
	switch cause {
	case 0: // arbitrary types and IDs
		for i := 0; i < n; i++ {
			t, id := fresh("type", sym.Choose("tlen", 2), &s.types), text("id", sym.Choose("ilen", 2))
			b = append(b, ev(t, id, value()))
			if i > 0 {
				p := b[i-1].Event
				valid = sym.And(valid, sym.And(sym.StrEq(p.AggregateType(), t), sym.StrEq(p.AggregateID(), id)))
			}
		}
	case 1: // serializer failure at event k
		b = batch(d.typ, d.id, n)
		k := sym.Choose("k", n+1)
		calls := 0
		s.codec.Fail = func(op string) bool {
			if op != "ser" {
				return false
			}
			calls++
			return calls == k
		}
		s.spoil(b, k)
		valid = sym.And(valid, k == 0)
	case 2: // cancelled at check k
		b = batch(d.typ, d.id, n)
		cancelled = true
		c = &cancelAt{Context: ctx, n: sym.Choose("k", n+2)}
	case 3: // optimistic with an arbitrary expectation
		b = batch(d.typ, d.id, n)
		valid = n > 0
	case 4: // a failing delete first
		b = batch(d.typ, d.id, n)
		err := s.store.OptimisticDeleteStream(ctx, 77, d.name)
		sym.Assert(err != nil, "atomic", "a delete with a wrong expected number reports success")
	}
	var got uint64
	var err error
	cnt := s.ref.Count(d.name)
	if cause == 3 {
		exp := sym.U64("expected")
		got, err = s.store.OptimisticSave(c, exp, d.name, b...)
		valid = sym.And(valid, exp == cnt)
	} else {
		got, err = s.store.Save(c, d.name, b...)
	}
	s.codec.Fail = nil
	if err == nil {
		sym.Assert(valid, "atomic", "an invalid batch is accepted")
		s.ref.Append(d.name, b)
		sym.Assert(got == cnt+uint64(n), "atomic", "Save does not return the last stream sequence number")
		for _, r := range s.ref.Recs[len(s.ref.Recs)-n:] {
			seen = append(seen, r.GlobalSequenceNumber)
		}
		sym.Reach("stored")
	} else {
		if !cancelled {
			sym.Assert(!valid, "atomic", "a valid batch is refused: "+sym.Err(err))
		} else {
			sym.Assert(n == 0 || errors.Is(err, context.Canceled), "atomic", "cancellation is not reported as such: "+sym.Err(err))
		}
		sym.Reach("refused")
	}
	s.check("atomic", "after the batch")
	s.checkNotified("atomic", "after the batch", seen)
	// the store keeps working
	s.mustSaveL("atomic", s.anyStream())
	seen = append(seen, s.ref.Last)
	s.check("atomic", "after a later save")
	s.checkNotified("atomic", "after a later save", seen)
}

func (s *Sys) mustSaveL(label string, d streamDef) {
	b := batch(d.typ, d.id, 1)
	got, err := s.store.Save(context.Background(), d.name, b...)
	s.ref.Append(d.name, b)
	sym.Assert(err == nil, label, "a later valid Save fails: "+sym.Err(err))
	sym.Assert(got == s.ref.Count(d.name), label, "a later Save returns a wrong number")
}

// content stores up to n events in arbitrary streams, and perhaps deletes one stream.
func (s *Sys) content(n int) {
	s.fixture(n)
	if sym.Choose("delete", 2) == 1 {
		name := s.anyName()
		if c := s.ref.Count(name); c > 0 {
			err := s.store.OptimisticDeleteStream(context.Background(), c, name)
			sym.Assert(err == nil, "fixture", "a valid delete fails: "+sym.Err(err))
			s.ref.Delete(name)
		}
	}
}

// Reads: every read returns exactly the matching events in order.
func Reads() {
	s := newSys()
	ctx := context.Background()
	s.content(sym.Param("events", 3))
	start := anyStart()
	var it rangedb.RecordIterator
	var want []*rangedb.Record
	q := sym.Choose("query", 2+sym.Param("types", 2)+1)
	switch q {
	case 0:
		it = s.store.Events(ctx, start)
		want = s.ref.Select(func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= start })
	case 1:
		name := s.anyName()
		it = s.store.EventsByStream(ctx, start, name)
		want = s.ref.Select(func(r *rangedb.Record) bool { return r.StreamName == name && r.StreamSequenceNumber >= start })
		got, err := kit.Drain(it)
		if s.ref.Count(name) == 0 {
			sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound), "reads", "reading an absent stream does not report that")
		} else {
			sym.Assert(err == nil, "reads", "reading a stream fails: "+sym.Err(err))
		}
		sym.Assert(kit.SameList(got, want), "reads", "EventsByStream: got "+kit.Desc(got)+" want "+kit.Desc(want))
		sym.Reach("stream")
		return
	default:
		var types []string
		for i := 0; i < q-2; i++ {
			types = append(types, fresh("type", 1, &s.types))
		}
		it = s.store.EventsByAggregateTypes(ctx, start, types...)
		want = s.ref.Select(func(r *rangedb.Record) bool {
			if r.GlobalSequenceNumber < start {
				return false
			}
			for _, t := range types {
				if t == r.AggregateType {
					return true
				}
			}
			return false
		})
	}
	got, err := kit.Drain(it)
	sym.Assert(err == nil, "reads", "reading fails: "+sym.Err(err))
	sym.Assert(kit.SameList(got, want), "reads", "got "+kit.Desc(got)+" want "+kit.Desc(want))
	sym.Reach("end")
}

// Delete: OptimisticDeleteStream removes exactly that stream, or nothing.
func Delete() {
	s := newSys()
	ctx := context.Background()
	s.fixture(sym.Param("events", 3))
	rounds := sym.Param("rounds", 2)
	for i := 0; i < rounds; i++ {
		name := s.anyName()
		exp := sym.U64("expected")
		cnt := s.ref.Count(name)
		err := s.store.OptimisticDeleteStream(ctx, exp, name)
		switch {
		case err == nil:
			sym.Assert(cnt > 0, "delete", "deleting an absent stream succeeds")
			sym.Assert(exp == cnt, "delete", "delete succeeds although the expected number is not the current one")
			s.ref.Delete(name)
			sym.Reach("deleted")
		case cnt == 0:
			sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound), "delete", "deleting an absent stream reports another error: "+sym.Err(err))
		default:
			sym.Assert(exp != cnt, "delete", "delete fails although the expected number is the current one: "+sym.Err(err))
			e, ok := isUnexpected(err)
			sym.Assert(ok, "delete", "a wrong expected number is not reported as UnexpectedSequenceNumber")
			sym.Assert(sym.And(e.Expected == exp, e.ActualSequenceNumber == cnt), "delete", "UnexpectedSequenceNumber carries wrong numbers")
			sym.Reach("refused")
		}
		s.check("delete", "after a delete")
		if sym.Choose("save", 2) == 1 {
			s.mustSaveL("delete", s.anyStream())
			s.check("delete", "after a save following a delete")
		}
	}
}

// LongHistory: numbers, reads, optimistic saves and deletions do not depend
// on how many bytes a sequence number needs.
func LongHistory() {
	s := newSys()
	ctx := context.Background()
	n := sym.Param("events", 258)
	defs := []streamDef{{"long", "A", "1"}, {"other", "B", "2"}}
	s.names, s.types = []string{"long", "other"}, []string{"A", "B"}
	save := func(d streamDef, k int) {
		var b []*rangedb.EventRecord
		for i := 0; i < k; i++ {
			b = append(b, ev(d.typ, d.id, uint64(len(s.ref.Recs)+i)))
		}
		got, err := s.store.Save(ctx, d.name, b...)
		s.ref.Append(d.name, b)
		sym.Assert(err == nil, "save-ok", "a valid Save fails: "+sym.Err(err))
		sym.Assert(got == s.ref.Count(d.name), "save-result", "Save does not return the stream sequence number of the last event")
	}
	save(defs[1], 1)
	for len(s.ref.Recs) < n-1 { // in batches, as only the numbers count
		k := 16
		if r := n - 1 - len(s.ref.Recs); r < k {
			k = r
		}
		save(defs[0], k)
	}
	save(defs[1], 1)
	s.reopen()
	start := anyStart()
	sym.Assume(sym.Or(start < 2, start > uint64(n-5)))
	from := func(f func(*rangedb.Record) bool) []*rangedb.Record { return s.ref.Select(f) }
	query := sym.Param("only", -1)
	if query < 0 {
		query = sym.Choose("query", 6)
	}
	switch query {
	case 0:
		got, err := kit.Drain(s.store.Events(ctx, start))
		sym.Assert(err == nil && kit.SameList(got, from(func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= start })), "reads", "Events of a long history: got "+kit.Desc(got))
	case 1:
		got, err := kit.Drain(s.store.EventsByAggregateTypes(ctx, start, "A", "B"))
		sym.Assert(err == nil && kit.SameList(got, from(func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= start })), "reads", "EventsByAggregateTypes of a long history: got "+kit.Desc(got))
	case 2:
		got, err := kit.Drain(s.store.EventsByAggregateTypes(ctx, start, "B"))
		sym.Assert(err == nil && kit.SameList(got, from(func(r *rangedb.Record) bool {
			return r.AggregateType == "B" && r.GlobalSequenceNumber >= start
		})), "reads", "EventsByAggregateTypes of a long history: got "+kit.Desc(got))
	case 3:
		got, err := kit.Drain(s.store.EventsByStream(ctx, start, "long"))
		sym.Assert(err == nil && kit.SameList(got, from(func(r *rangedb.Record) bool {
			return r.StreamName == "long" && r.StreamSequenceNumber >= start
		})), "reads", "EventsByStream of a long history: got "+kit.Desc(got))
	case 4:
		expected, count := sym.U64("expected"), s.ref.Count("long")
		b := batch("A", "1", 1)
		got, err := s.store.OptimisticSave(ctx, expected, "long", b...)
		if expected == count {
			sym.Assert(err == nil && got == count+1, "optimistic", "an optimistic save to a long stream fails: "+sym.Err(err))
			s.ref.Append("long", b)
		} else {
			e, ok := isUnexpected(err)
			sym.Assert(ok && e.Expected == expected && e.ActualSequenceNumber == count, "optimistic", "an optimistic save with another number: "+sym.Err(err))
		}
		s.check("reads", "after an optimistic save")
	case 5:
		expected, count := sym.U64("expected"), s.ref.Count("long")
		err := s.store.OptimisticDeleteStream(ctx, expected, "long")
		if expected == count {
			sym.Assert(err == nil, "delete", "deleting a long stream fails: "+sym.Err(err))
			s.ref.Delete("long")
		} else {
			e, ok := isUnexpected(err)
			sym.Assert(ok && e.Expected == expected && e.ActualSequenceNumber == count, "delete", "deleting with another number: "+sym.Err(err))
		}
		save(defs[1], 1)
		s.check("reads", "after a deletion")
	}
	sym.Reach("end")
}
