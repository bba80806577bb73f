package stores

import (
	"context"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/leveldbstore"

	"verif/h/kit"
	"verif/mcrypto"
	"verif/sym"
)

// OtherDefault opens a further backend without options.
var OtherDefault func() rangedb.Store

// Defaults: a store made without options works too, and gives each event an
// ID of its own, whatever the random bytes are that differ.
func Defaults() {
	resetDB()
	var s rangedb.Store
	if OtherDefault != nil {
		s = OtherDefault()
	} else if sym.Param("backend", 0) == 1 {
		l, err := leveldbstore.New(dbPath())
		if err != nil {
			sym.Fail("open", "store does not open: "+sym.Err(err))
		}
		s = l
	} else {
		s = inmemorystore.New()
	}
	s.Bind(&kit.Plain{})
	n := sym.Param("events", 2)
	var drawn [][]byte
	mcrypto.Source = func(b []byte) {
		if len(b) == 16 {
			for i := range b {
				b[i] = sym.Byte("random")
			}
			// The random bits of an ID differ from those of the earlier ones.
			for _, d := range drawn {
				same := sym.And(b[6]&0x0f == d[6]&0x0f, b[8]&0x3f == d[8]&0x3f)
				for i := range b {
					if i != 6 && i != 8 {
						same = sym.And(same, b[i] == d[i])
					}
				}
				sym.Assume(!same)
			}
			drawn = append(drawn, append([]byte(nil), b...))
			return
		}
		for i := range b {
			b[i] = sym.Byte("random")
		}
	}
	batch := sym.Choose("batch", 2) == 1
	var events []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		events = append(events, &rangedb.EventRecord{Event: &kit.Plain{V: uint64(i)}})
	}
	if batch {
		last, err := s.Save(context.Background(), "s", events...)
		sym.Assert(err == nil, "save", "a valid Save fails: "+sym.Err(err))
		sym.Assert(last == uint64(n), "save", "Save gives a wrong stream sequence number")
	} else {
		for i, e := range events {
			last, err := s.Save(context.Background(), "s", e)
			sym.Assert(err == nil, "save", "a valid Save fails: "+sym.Err(err))
			sym.Assert(last == uint64(i+1), "save", "Save gives a wrong stream sequence number")
		}
	}
	var ids []string
	it := s.Events(context.Background(), 0)
	for it.Next() {
		r := it.Record()
		sym.Assert(r.EventID != "", "event-id", "a stored event has no ID")
		for _, id := range ids {
			sym.Assert(r.EventID != id, "event-id", "two stored events have the same ID though their random bytes differ")
		}
		ids = append(ids, r.EventID)
		sym.Assert(r.StreamName == "s" && r.AggregateType == "p" && r.AggregateID == "1" && r.EventType == "Plain", "read", "a stored event is read back changed")
		v, ok := r.Data.(*kit.Plain)
		sym.Assert(ok && v.V == uint64(len(ids)-1), "read", "the data of a stored event is read back changed")
	}
	sym.Assert(it.Err() == nil, "read", "reading fails: "+sym.Err(it.Err()))
	sym.Assert(len(ids) == n, "read", "an acknowledged event is not read back")
	sym.Reach("defaults")
}

