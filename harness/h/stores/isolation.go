package stores

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/inklabs/rangedb"

	"verif/h/kit"
	"verif/sym"
)

// Isolation: names that extend or resemble each other are still different names.
func Isolation() {
	s := newSys()
	ctx := context.Background()
	max := sym.Param("max", 4)
	what := sym.Choose("what", 2)
	prefix := strings.Repeat("n", sym.Param("prefix", 0))
	short := prefix + sym.Str("name", 1)
	long := prefix + sym.Str("name", sym.Choose("len", max)+1)
	sym.Assume(!sym.StrEq(short, long))
	defs := []streamDef{{short, "A", "1"}, {long, "B", "2"}}
	s.names = []string{short, long}
	s.types = []string{"A", "B"}
	if what == 1 {
		defs = []streamDef{{"p", short, "1"}, {"q", long, "2"}}
		s.names = []string{"p", "q"}
		s.types = []string{short, long}
	}
	k := sym.Choose("events", sym.Param("events", 2)) + 1
	for i := 0; i < k; i++ {
		s.mustSaveL("isolation", defs[sym.Choose("which", 2)])
	}
	s.check("isolation", "after saves")
	d := sym.Choose("delete", 2)
	cnt := s.ref.Count(defs[d].name)
	err := s.store.OptimisticDeleteStream(ctx, cnt, defs[d].name)
	if cnt > 0 {
		sym.Assert(err == nil, "isolation", "a valid delete fails: "+sym.Err(err))
		s.ref.Delete(defs[d].name)
		sym.Reach("deleted")
	} else {
		sym.Assert(err != nil, "isolation", "deleting an absent stream succeeds")
	}
	s.check("isolation", "after a delete")
	s.mustSaveL("isolation", defs[1-d])
	s.check("isolation", "after a later save")
	sym.Reach("end")
}

// Cancelled: an operation that starts with a cancelled context reports that and has no effect.
func Cancelled() {
	s := newSys()
	s.subscribe()
	s.fixture(sym.Param("events", 2))
	var seen []uint64
	for _, r := range s.ref.Recs {
		seen = append(seen, r.GlobalSequenceNumber)
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	d := s.anyStream()
	op := sym.Choose("op", 4)
	switch op {
	case 0:
		_, err := s.store.Save(ctx, d.name, batch(d.typ, d.id, 1+sym.Choose("n", 2))...)
		sym.Assert(errors.Is(err, context.Canceled), "cancelled", "Save with a cancelled context: "+sym.Err(err))
	case 1:
		_, err := s.store.OptimisticSave(ctx, s.ref.Count(d.name), d.name, batch(d.typ, d.id, 1+sym.Choose("n", 2))...)
		sym.Assert(errors.Is(err, context.Canceled), "cancelled", "OptimisticSave with a cancelled context: "+sym.Err(err))
	case 2:
		err := s.store.OptimisticDeleteStream(ctx, s.ref.Count(d.name), d.name)
		sym.Assert(errors.Is(err, context.Canceled), "cancelled", "OptimisticDeleteStream with a cancelled context: "+sym.Err(err))
	case 3:
		_, err := s.store.TotalEventsInStream(ctx, d.name)
		sym.Assert(errors.Is(err, context.Canceled), "cancelled", "TotalEventsInStream with a cancelled context: "+sym.Err(err))
	}
	s.check("cancelled", "after a cancelled operation")
	s.checkNotified("cancelled", "after a cancelled operation", seen)
	s.mustSaveL("cancelled", s.anyStream())
	s.check("cancelled", "after a later save")
	sym.Reach("end")
}

// CancelDuring: an operation of which the context is cancelled at any moment that it can notice succeeds, or reports
// that and has no effect.
func CancelDuring() {
	s := newSys()
	s.subscribe()
	d := streamDef{"s", "A", "1"}
	k := sym.Choose("events", sym.Param("events", 3)) + 1
	for i := 0; i < k; i++ {
		s.mustSave(d, 1)
	}
	if sym.Choose("other", 2) == 1 {
		s.mustSave(streamDef{"t", "A", "2"}, 1)
	}
	var seen []uint64
	for _, r := range s.ref.Recs {
		seen = append(seen, r.GlobalSequenceNumber)
	}
	ctx := kit.Late(sym.Choose("looks", sym.Param("looks", 5)))
	defer ctx.Cancel()
	var err error
	op := sym.Choose("op", 4)
	b := batch(d.typ, d.id, 1+sym.Choose("n", 2))
	switch op {
	case 0:
		_, err = s.store.Save(ctx, d.name, b...)
	case 1:
		_, err = s.store.OptimisticSave(ctx, s.ref.Count(d.name), d.name, b...)
	case 2:
		err = s.store.OptimisticDeleteStream(ctx, s.ref.Count(d.name), d.name)
	case 3:
		var n uint64
		n, err = s.store.TotalEventsInStream(ctx, d.name)
		sym.Assert(err != nil || n == s.ref.Count(d.name), "cancel-total", "TotalEventsInStream with a context that is cancelled gives another number")
	}
	s.gapsAfter(err)
	if err != nil {
		sym.Assert(s.backend == 2 || errors.Is(err, context.Canceled), "cancel-during", "an operation that is cancelled reports "+sym.Err(err))
		sym.Reach("cancelled")
	} else {
		if op == 2 {
			s.ref.Delete(d.name)
		} else if op < 2 {
			s.ref.Append(d.name, b)
			for _, r := range s.ref.Recs[len(s.ref.Recs)-len(b):] {
				seen = append(seen, r.GlobalSequenceNumber)
			}
		}
		sym.Reach("done")
	}
	s.check("cancel-during", "after an operation that was cancelled meanwhile")
	s.checkNotified("cancel-during", "after an operation that was cancelled meanwhile", seen)
	s.mustSaveL("cancel-during", d)
	s.check("cancel-during", "after a later save")
	sym.Reach("end")
}

// CancelRead: a read that is cancelled while it is consumed ends; it gives a
// prefix of the result, and looks complete only if it is.
func CancelRead() {
	s := newSys()
	k := sym.Param("events", 2)
	for i := 0; i < k; i++ {
		s.mustSaveL("fixture", streamDef{"s", []string{"A", "B"}[i%2], "1"})
	}
	ctx, cancel := context.WithCancel(context.Background())
	base := sym.Blocked()
	q := sym.Choose("query", 4)
	after := sym.Choose("after", k+3)
	abandon := sym.Choose("abandon", 2) == 1
	if q == 3 {
		s.cancelMissing(ctx, cancel, base, after-k > 1, abandon)
		return
	}
	sym.SetSched("cfg")
	if after == k+1 {
		go cancel()
	} else if after == k+2 {
		cancel()
	}
	it := s.query(ctx, q)
	want := s.ref.Recs
	got := 0
	if after == 0 && abandon { // nothing is asked for at all
		cancel()
	}
	for !(after == 0 && abandon) && it.Next() {
		sym.Assert(got < len(want) && kit.Same(it.Record(), &want[got]), "cancel-read", "a cancelled read gives other records")
		got++
		if got == after {
			cancel()
			if abandon {
				break
			}
		}
	}
	if !(abandon && got == after) {
		err := it.Err()
		sym.Assert(err == nil || errors.Is(err, context.Canceled), "cancel-read", "a cancelled read reports another error: "+sym.Err(err))
		sym.Assert(err != nil || got == len(want), "cancel-read", "a truncated read looks complete")
		if err != nil {
			sym.Reach("cancelled")
		} else {
			sym.Reach("complete")
		}
	}
	s.afterCancel(cancel, base)
}

// cancelMissing reads a stream that does not exist, and cancels.
func (s *Sys) cancelMissing(ctx context.Context, cancel func(), base int, early, abandon bool) {
	sym.SetSched("cfg")
	if early {
		cancel()
	} else {
		go cancel()
	}
	it := s.store.EventsByStream(ctx, 0, "nosuch")
	if !abandon {
		sym.Assert(!it.Next(), "cancel-read", "a stream that does not exist has a record")
		sym.Assert(errors.Is(it.Err(), rangedb.ErrStreamNotFound) || errors.Is(it.Err(), context.Canceled), "cancel-read", "reading a stream that does not exist reports "+sym.Err(it.Err()))
	}
	s.afterCancel(cancel, base)
}

// afterCancel: nothing stays behind a cancelled read.
func (s *Sys) afterCancel(cancel func(), base int) {
	cancel()
	sym.Quiesce()
	time.Sleep(3 * time.Second) // the reader may try for a second to pass on the cancellation
	sym.Quiesce()
	sym.Assert(sym.Blocked() <= base, "cancel-read", "goroutines of a cancelled read stay blocked: "+sym.BlockedDesc())
	sym.SetSched("det")
	// the store works, and a LevelDB store can be stopped
	s.mustSaveL("cancel-read", streamDef{"s", "A", "1"})
	s.reopen()
	s.check("cancel-read", "after a cancelled read")
}
