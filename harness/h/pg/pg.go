// Package pg has the harnesses of the PostgreSQL store. The store is linked
// with a model of the driver and the server (models/pq); database/sql is the
// real one.
package pg

import (
	"context"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"github.com/lib/pq"

	"verif/h/kit"
	"verif/h/stores"
	"verif/h/subs"
	"verif/sym"
)

type store interface {
	rangedb.Store
	InitDB() error
	CloseDB() error
}

// open opens a store on the server.
func open(c *kit.Clock, u *kit.UUID) store {
	options := []postgresstore.Option{postgresstore.WithClock(c), postgresstore.WithUUIDGenerator(u)}
	if sym.Param("notify", 0) == 1 {
		options = append(options, postgresstore.WithPgNotify())
	}
	s, err := postgresstore.New(&postgresstore.Config{Host: "h", Port: 1, User: "u", Password: "p", DBName: "d"}, options...)
	if err != nil {
		sym.Fail("open", "store does not open: "+sym.Err(err))
	}
	if err := s.InitDB(); err != nil {
		sym.Fail("open", "InitDB fails: "+sym.Err(err))
	}
	return s
}

func use() {
	pq.Reset()
	stores.Other = func(c *kit.Clock, u *kit.UUID) (rangedb.Store, func() error) {
		s := open(c, u)
		return s, s.CloseDB
	}
	subs.Other = func(c *kit.Clock, u *kit.UUID) rangedb.Store { return open(c, u) }
	stores.OtherDefault = func() rangedb.Store {
		s, err := postgresstore.New(&postgresstore.Config{Host: "h", Port: 1, User: "u", Password: "p", DBName: "d"})
		if err != nil {
			sym.Fail("open", "store does not open: "+sym.Err(err))
		}
		if err := s.InitDB(); err != nil {
			sym.Fail("open", "InitDB fails: "+sym.Err(err))
		}
		return s
	}
	stores.OtherLast = func() uint64 { return pq.Last("record") }
	stores.OtherFault = func(f func(op string) error) { pq.Fault = f }
}

// idle: the end of an operation leaves no transaction open.
func idle() {
	sym.Quiesce()
	sym.Assert(pq.OpenTransactions() == 0, "idle", "an operation leaves its transaction open: the connection is lost")
}

// Numbering is stores.Numbering.
func Numbering() { use(); stores.Numbering(); idle() }

// Defaults is stores.Defaults.
func Defaults() { use(); stores.Defaults(); idle() }

// Optimistic is stores.Optimistic.
func Optimistic() { use(); stores.Optimistic(); idle() }

// Atomic is stores.Atomic.
func Atomic() { use(); stores.Atomic(); idle() }

// Reads is stores.Reads.
func Reads() { use(); stores.Reads(); idle() }

// Delete is stores.Delete.
func Delete() { use(); stores.Delete(); idle() }

// LongHistory is stores.LongHistory.
func LongHistory() { use(); stores.LongHistory(); idle() }

// CancelRead is stores.CancelRead.
func CancelRead() { use(); stores.CancelRead(); idle() }

// Cancelled is stores.Cancelled.
func Cancelled() { use(); stores.Cancelled(); idle() }

// Faults is stores.Faults.
func Faults() { use(); stores.Faults(); idle() }

// Linearizable is stores.Linearizable.
func Linearizable() { use(); stores.Linearizable(); idle() }

// CatchUp is subs.CatchUp.
func CatchUp() { use(); subs.CatchUp(); idle() }

// Live is subs.Live.
func Live() { use(); subs.Live(); idle() }

// CancelDuring is stores.CancelDuring.
func CancelDuring() { use(); stores.CancelDuring(); idle() }

func save(s store, typ string, v uint64) {
	e := &rangedb.EventRecord{Event: &kit.Ev{Type: typ, ID: "1", ET: "E" + typ, V: v}, Metadata: v}
	_, err := s.Save(context.Background(), typ+"!1", e)
	sym.Assert(err == nil, "save", "a valid Save fails: "+sym.Err(err))
}

// Listen: subscribers of every process get what any process saves, also when
// the connection that brings the notifications is lost for a while and when
// somebody else notifies.
func Listen() {
	use()
	a := open(&kit.Clock{}, &kit.UUID{})
	b := a
	if sym.Param("notify", 0) == 1 && sym.Choose("second", 2) == 1 {
		b = open(&kit.Clock{}, &kit.UUID{})
	}
	for _, s := range []store{a, b} {
		s.Bind(&kit.Ev{ET: "EA"}, &kit.Ev{ET: "EB"})
	}
	types := []string{"A", "B"}
	v := uint64(0)
	saves := func(label string, max int) {
		for i := sym.Choose(label, max+1); i > 0; i-- {
			v++
			save([]store{a, b}[i%2], types[v%2], v)
		}
	}
	saves("before", 2)
	sink := &kit.Sink{}
	var only string
	var subscription rangedb.RecordSubscription
	if sym.Choose("all", 2) == 1 {
		subscription = b.AllEventsSubscription(context.Background(), 10, sink)
	} else {
		only = "A"
		subscription = b.AggregateTypesSubscription(context.Background(), 10, sink, only)
	}
	from := uint64(0)
	if sym.Choose("history", 2) == 1 {
		sym.Assert(subscription.StartFrom(0) == nil, "listen", "StartFrom fails")
	} else {
		from = v
		sym.Quiesce()
		sym.Assert(subscription.Start() == nil, "listen", "Start fails")
	}
	sym.SetSched("cfg")
	saves("first", 1)
	switch sym.Choose("what", 3) {
	case 0:
		pq.Disconnect()
		saves("lost", 2)
		pq.Reconnect()
	case 1:
		pq.Notify("records", "not for us")
	}
	saves("after", 1)
	sym.Quiesce()
	all, err := kit.Drain(a.Events(context.Background(), from+1))
	sym.Assert(err == nil, "listen", "Events fails: "+sym.Err(err))
	var want []*rangedb.Record
	for _, r := range all {
		if only == "" || r.AggregateType == only {
			want = append(want, r)
		}
	}
	got := sink.Get()
	sym.Assert(kit.SameList(got, want), "listen", "delivered "+kit.Desc(got)+" want "+kit.Desc(want))
	sym.Reach("end")
	idle()
}
