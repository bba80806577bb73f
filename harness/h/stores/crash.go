//go:build !realdb

package stores

import (
	"context"
	"errors"
	"fmt"

	"github.com/syndtr/goleveldb/leveldb"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/leveldbstore"

	"verif/h/kit"
	"verif/sym"
)

// crashed runs f and tells whether the process ended in it.
func crashed(f func()) (c bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(leveldb.CrashError); !ok {
				panic(r)
			}
			c = true
		}
	}()
	f()
	return false
}

// matches tells whether the store holds exactly the reference content.
func (s *Sys) matches(ref *kit.Ref) bool {
	got, err := kit.Drain(s.store.Events(context.Background(), 0))
	if err != nil {
		return false
	}
	return kit.SameList(got, ref.Select(func(*rangedb.Record) bool { return true }))
}

// Crash: whatever point the process dies at, the reopened store holds every
// acknowledged operation, and the interrupted one completely or not at all.
func Crash() {
	s := newSys()
	ctx := context.Background()
	s.fixture(sym.Param("events", 1))
	rounds := sym.Param("rounds", 2)
	at := sym.Choose("crash", sym.Param("points", 8))
	n := 0
	leveldb.Crash = func(string) bool {
		n++
		return n == at+1
	}
	before := cloneRef(s.ref)
	after := cloneRef(s.ref)
	died := false
	for i := 0; i < rounds && !died; i++ {
		before = cloneRef(s.ref)
		after = cloneRef(s.ref)
		died = crashed(func() {
			if sym.Choose("op", 2) == 0 {
				d := s.anyStream()
				b := batch(d.typ, d.id, 1+sym.Choose("n", sym.Param("batch", 2)))
				after.Append(d.name, b)
				got, err := s.store.Save(ctx, d.name, b...)
				sym.Assert(err == nil, "crash", "a valid Save fails: "+sym.Err(err))
				s.ref = cloneRef(after)
				sym.Assert(got == s.ref.Count(d.name), "crash", "Save does not return the last stream sequence number")
			} else {
				name := s.anyName()
				cnt := s.ref.Count(name)
				if cnt == 0 {
					return
				}
				after.Delete(name)
				err := s.store.OptimisticDeleteStream(ctx, cnt, name)
				sym.Assert(err == nil, "crash", "a valid delete fails: "+sym.Err(err))
				s.ref = cloneRef(after)
			}
		})
	}
	if died {
		sym.Reach("crash")
	} else {
		// the power goes after the last acknowledged operation
		before = cloneRef(s.ref)
		after = cloneRef(s.ref)
		sym.Reach("end")
	}
	leveldb.PowerLoss(s.path, func(n int) int { return sym.Choose("kept", n) })
	s.open()
	switch {
	case s.matches(&after):
		s.ref = after
		sym.Reach("after")
	case s.matches(&before):
		s.ref = before
		sym.Reach("before")
	default:
		sym.Fail("crash", "after a crash the store holds neither the state before nor after the interrupted operation")
	}
	s.check("crash", "after a crash")
	s.mustSaveL("crash", s.anyStream())
	s.check("crash", "after a save after a crash")
}

// LargeCrash: the same for one operation on many events.
func LargeCrash() {
	s := newSys()
	ctx := context.Background()
	n := sym.Param("batch", 130)
	d := streamDef{"s", "A", "1"}
	s.names, s.types = []string{"s", "t"}, []string{"A", "B"}
	s.mustSave(streamDef{"t", "B", "2"}, 1)
	op := sym.Choose("op", 2)
	b := known("A", "1", n)
	if op == 1 {
		_, err := s.store.Save(ctx, d.name, b...)
		sym.Assert(err == nil, "crash", "a valid Save fails: "+sym.Err(err))
		s.ref.Append(d.name, b)
	}
	at := sym.Choose("crash", sym.Param("points", 12))
	k := 0
	leveldb.Crash = func(string) bool {
		k++
		return k == at+1
	}
	before, after := cloneRef(s.ref), cloneRef(s.ref)
	died := crashed(func() {
		var err error
		if op == 0 {
			after.Append(d.name, b)
			_, err = s.store.Save(ctx, d.name, b...)
		} else {
			after.Delete(d.name)
			err = s.store.OptimisticDeleteStream(ctx, uint64(n), d.name)
		}
		sym.Assert(err == nil, "crash", "a valid operation fails: "+sym.Err(err))
	})
	if !died {
		before = cloneRef(after)
		sym.Reach("end")
	} else {
		sym.Reach("crash")
	}
	leveldb.PowerLoss(s.path, func(n int) int { return sym.Choose("kept", n) })
	s.open()
	if s.matches(&after) {
		s.ref = after
	} else if s.matches(&before) {
		s.ref = before
	} else {
		sym.Fail("crash", "after a crash the store holds neither the state before nor after the interrupted operation on many events")
	}
	s.check("crash", "after a crash")
	s.mustSaveL("crash", d)
	s.check("crash", "after a save after a crash")
}

var errIO = errors.New("input/output error")

// OtherFault makes operations of the further backend fail.
var OtherFault func(func(op string) error)

func setFault(f func(op string) error) {
	if Other != nil {
		OtherFault(f)
		return
	}
	leveldb.Fault = f
}

// Faults: an I/O error is reported, and leaves nothing half done.
func Faults() {
	s := newSys()
	ctx := context.Background()
	s.subscribe()
	k := sym.Param("events", 2)
	for i := 0; i < k; i++ {
		s.mustSave(s.anyStream(), 1)
	}
	var seen []uint64
	for _, r := range s.ref.Recs {
		seen = append(seen, r.GlobalSequenceNumber)
	}
	at := sym.Choose("fault", sym.Param("points", 14))
	n := 0
	hit := ""
	setFault(func(op string) error {
		n++
		if n == at+1 {
			hit = op
			return errIO
		}
		return nil
	})
	op := sym.Choose("op", 6)
	switch op {
	case 0:
		d := s.anyStream()
		b := batch(d.typ, d.id, 1+sym.Choose("n", 2))
		_, err := s.store.Save(ctx, d.name, b...)
		setFault(nil)
		s.gapsAfter(err)
		sym.Assert((err != nil) == (hit != ""), "fault", fmt.Sprintf("Save with an I/O error in %q reports: %s", hit, sym.Err(err)))
		if err == nil {
			s.ref.Append(d.name, b)
			for _, r := range s.ref.Recs[len(s.ref.Recs)-len(b):] {
				seen = append(seen, r.GlobalSequenceNumber)
			}
		}
	case 1:
		name := s.anyName()
		exp := s.ref.Count(name)
		sym.Assume(exp > 0)
		err := s.store.OptimisticDeleteStream(ctx, exp, name)
		setFault(nil)
		sym.Assert((err != nil) == (hit != ""), "fault", fmt.Sprintf("OptimisticDeleteStream with an I/O error in %q reports: %s", hit, sym.Err(err)))
		if err == nil {
			s.ref.Delete(name)
		}
	case 2:
		name := s.anyName()
		got, err := s.store.TotalEventsInStream(ctx, name)
		setFault(nil)
		sym.Assert((err != nil) == (hit != ""), "fault", fmt.Sprintf("TotalEventsInStream with an I/O error in %q reports: %s", hit, sym.Err(err)))
		sym.Assert(err != nil || got == s.ref.Count(name), "fault", "TotalEventsInStream is wrong")
	default:
		start := uint64(sym.Choose("start", k+1))
		var it rangedb.RecordIterator
		var want []*rangedb.Record
		absent := false
		switch op {
		case 3:
			it = s.store.Events(ctx, start)
			want = s.ref.Select(func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= start })
		case 4:
			name := s.anyName()
			absent = s.ref.Count(name) == 0
			it = s.store.EventsByStream(ctx, start, name)
			want = s.ref.Select(func(r *rangedb.Record) bool { return r.StreamName == name && r.StreamSequenceNumber >= start })
		case 5:
			it = s.store.EventsByAggregateTypes(ctx, start, "A", "B")
			want = s.ref.Select(func(r *rangedb.Record) bool { return r.GlobalSequenceNumber >= start })
		}
		got, err := kit.Drain(it)
		setFault(nil)
		switch {
		case hit != "":
			sym.Assert(err != nil, "fault", fmt.Sprintf("a read hit by an I/O error in %q looks complete (%d of %d records)", hit, len(got), len(want)))
			sym.Assert(absent || !errors.Is(err, rangedb.ErrStreamNotFound), "fault", "an I/O error is reported as an absent stream")
			sym.Assert(len(got) <= len(want) && kit.SameList(got, want[:len(got)]), "fault", "a read hit by an I/O error gives other records")
			sym.Reach("read-fault")
		case absent:
			sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound), "fault", "reading an absent stream does not report that")
		default:
			sym.Assert(err == nil && kit.SameList(got, want), "fault", "a read without I/O error is wrong")
		}
	}
	if hit != "" {
		sym.Reach("fault")
	} else {
		sym.Reach("clean")
	}
	s.check("fault", "after an I/O error")
	s.checkNotified("fault", "after an I/O error", seen)
	s.mustSaveL("fault", s.anyStream())
	s.check("fault", "after a save after an I/O error")
	sym.Quiesce()
	sym.Assert(leveldb.OpenIterators == 0, "fault", "a LevelDB iterator is not released")
	s.reopen()
	s.check("fault", "after reopening")
}

// Locked: a store whose database cannot be opened reports that.
func Locked() {
	resetDB()
	leveldb.Fault = func(op string) error { return errIO }
	_, err := leveldbstore.New(dbPath())
	sym.Assert(err != nil, "open", "opening a broken database succeeds")
	leveldb.Fault = nil
	st, err := leveldbstore.New(dbPath())
	sym.Assert(err == nil, "open", "opening fails: "+sym.Err(err))
	_, err = leveldbstore.New(dbPath())
	sym.Assert(err != nil, "open", "a database is opened twice")
	sym.Assert(st.Stop() == nil, "open", "Stop fails")
	_, err = leveldbstore.New(dbPath())
	sym.Assert(err == nil, "open", "a stopped database does not open: "+sym.Err(err))
	sym.Reach("end")
}
