// Package stores has the harnesses of the in-memory and the LevelDB store.
package stores

import (
	"context"
	"errors"
	"fmt"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/leveldbstore"

	"verif/h/kit"
	"verif/sym"
)

// Sys is a store under test together with its reference model.
type Sys struct {
	backend int // 0 in memory, 1 LevelDB
	store   rangedb.Store
	stop    func() error
	codec   *kit.Codec
	clock   *kit.Clock
	uuid    *kit.UUID
	path    string
	ref     kit.Ref
	sink    *kit.Sink
	names   []string // stream names that occurred
	types   []string // aggregate types that occurred
}

// Other opens a further backend (number 2), whose events travel as JSON.
var Other func(*kit.Clock, *kit.UUID) (rangedb.Store, func() error)

// OtherLast is the last global sequence number that the further backend gave: a failed save may leave a gap.
var OtherLast func() uint64

// gapsAfter allows for the gap that a failed save leaves.
func (s *Sys) gapsAfter(err error) {
	if Other != nil && err != nil {
		s.ref.Last = OtherLast()
	}
}

var values uint64

// value is the content of an event.
func value() uint64 {
	if Other == nil {
		return sym.U64("v")
	}
	values++
	return values
}

// text is an arbitrary string; other backends store text only.
func text(label string, n int) string {
	x := sym.Str(label, n)
	if Other != nil {
		for i := 0; i < n; i++ {
			sym.Assume(sym.And(x[i] > 0, x[i] < 128))
		}
	}
	return x
}

// anyStart is an arbitrary number to read from; for other backends, one that a 32-bit column can be compared with.
func anyStart() uint64 {
	x := sym.U64("start")
	if Other != nil {
		sym.Assume(x < 1<<31)
	}
	return x
}

// fresh returns an arbitrary string of length n. Equal strings are
// represented by the same value, so that later comparisons are decided.
func fresh(label string, n int, known *[]string) string {
	x := text(label, n)
	for _, k := range *known {
		if x == k {
			return k
		}
	}
	*known = append(*known, x)
	return x
}

// anyStream is a save target: an arbitrary stream name and aggregate type, and a fixed ID.
func (s *Sys) anyStream() streamDef {
	d := streamDef{s.anyName(), "A", "1"}
	if sym.Param("symtypes", 0) == 1 {
		d.typ = fresh("type", 1, &s.types)
	} else if len(s.types) == 0 {
		s.types = append(s.types, d.typ)
	}
	return d
}

// anyName is an arbitrary stream name.
func (s *Sys) anyName() string { return fresh("stream", sym.Param("namelen", 1), &s.names) }

func newSys() *Sys {
	resetDB()
	s := &Sys{backend: sym.Param("backend", 0), codec: &kit.Codec{}, clock: &kit.Clock{}, uuid: &kit.UUID{}, path: dbPath()}
	s.open()
	return s
}

func (s *Sys) open() {
	if s.backend == 0 {
		s.store = inmemorystore.New(inmemorystore.WithClock(s.clock), inmemorystore.WithSerializer(s.codec), inmemorystore.WithUUIDGenerator(s.uuid))
		s.stop = func() error { return nil }
		return
	}
	if s.backend == 2 {
		s.store, s.stop = Other(s.clock, s.uuid)
		s.store.Bind(&kit.Ev{ET: "E0"}, &kit.Ev{ET: "E1"})
		return
	}
	st, err := leveldbstore.New(s.path, leveldbstore.WithClock(s.clock), leveldbstore.WithSerializer(s.codec), leveldbstore.WithUUIDGenerator(s.uuid))
	if err != nil {
		sym.Fail("open", "store does not open: "+sym.Err(err))
	}
	s.store = st
	s.stop = st.Stop
}

// reopen stops and opens a LevelDB store.
func (s *Sys) reopen() {
	if s.backend == 0 {
		return
	}
	if err := s.stop(); err != nil {
		sym.Fail("stop", "Stop failed: "+sym.Err(err))
	}
	s.open()
}

func (s *Sys) subscribe() {
	s.sink = &kit.Sink{}
	if err := s.store.AllEventsSubscription(context.Background(), 50, s.sink).Start(); err != nil {
		sym.Fail("subscribe", sym.Err(err))
	}
}

func ev(typ, id string, v uint64) *rangedb.EventRecord {
	if Other != nil {
		e := &rangedb.EventRecord{Event: &kit.Ev{Type: typ, ID: id, ET: []string{"E0", "E1"}[v%2], V: v}}
		if v%3 > 0 {
			e.Metadata = v + 1
		}
		return e
	}
	return &rangedb.EventRecord{Event: &kit.Ev{Type: typ, ID: id, ET: "E" + typ, V: v}, Metadata: v + 1}
}

// batch makes n events for a stream "T!I".
func batch(typ, id string, n int) []*rangedb.EventRecord {
	var r []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		r = append(r, ev(typ, id, value()))
	}
	return r
}

type streamDef struct{ name, typ, id string }

// fixture appends up to max events to arbitrary streams.
func (s *Sys) fixture(max int) {
	k := sym.Choose("fixture", max+1)
	for i := 0; i < k; i++ {
		s.mustSave(s.anyStream(), 1)
	}
}

func (s *Sys) mustSave(d streamDef, n int) {
	b := batch(d.typ, d.id, n)
	got, err := s.store.Save(context.Background(), d.name, b...)
	s.ref.Append(d.name, b)
	sym.Assert(err == nil, "save-ok", "a valid Save fails: "+sym.Err(err))
	sym.Assert(got == s.ref.Count(d.name), "save-result", "Save does not return the stream sequence number of the last event")
}

// check compares everything readable with the reference model.
func (s *Sys) check(label, when string) {
	ctx := context.Background()
	got, err := kit.Drain(s.store.Events(ctx, 0))
	want := s.ref.Select(func(*rangedb.Record) bool { return true })
	sym.Assert(err == nil, label, "Events fails "+when+": "+sym.Err(err))
	sym.Assert(kit.SameList(got, want), label, "Events "+when+": got "+kit.Desc(got)+" want "+kit.Desc(want))
	for _, n := range s.names {
		s.checkStream(label, when, n)
	}
	for _, t := range s.types {
		got, err := kit.Drain(s.store.EventsByAggregateTypes(ctx, 0, t))
		want := s.ref.Select(func(r *rangedb.Record) bool { return r.AggregateType == t })
		sym.Assert(err == nil, label, "EventsByAggregateTypes fails "+when+": "+sym.Err(err))
		sym.Assert(kit.SameList(got, want), label, "EventsByAggregateTypes "+when+": got "+kit.Desc(got)+" want "+kit.Desc(want))
	}
}

func (s *Sys) checkStream(label, when, stream string) {
	ctx := context.Background()
	got, err := kit.Drain(s.store.EventsByStream(ctx, 0, stream))
	want := s.ref.Select(func(r *rangedb.Record) bool { return r.StreamName == stream })
	if len(want) == 0 {
		sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound), label, "EventsByStream of an absent stream does not report that "+when+": "+sym.Err(err))
	} else {
		sym.Assert(err == nil, label, "EventsByStream fails "+when+": "+sym.Err(err))
	}
	sym.Assert(kit.SameList(got, want), label, "EventsByStream "+when+": got "+kit.Desc(got)+" want "+kit.Desc(want))
	n, err := s.store.TotalEventsInStream(ctx, stream)
	sym.Assert(err == nil, label, "TotalEventsInStream fails "+when)
	sym.Assert(n == uint64(len(want)), label, "TotalEventsInStream is wrong "+when)
}

// checkNotified compares what the live subscriber got with want (global sequence numbers in order).
func (s *Sys) checkNotified(label, when string, want []uint64) {
	sym.Quiesce()
	got := s.sink.Get()
	sym.Assert(len(got) == len(want), label, fmt.Sprintf("subscriber got %d records, want %d %s", len(got), len(want), when))
	for i := range got {
		sym.Assert(got[i].GlobalSequenceNumber == want[i], label, "subscriber got another record than committed "+when)
	}
}

func isUnexpected(err error) (*rangedberror.UnexpectedSequenceNumber, bool) {
	e, ok := err.(*rangedberror.UnexpectedSequenceNumber)
	return e, ok
}
