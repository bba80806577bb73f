// Package subs has the harnesses of subscriptions and of the broadcaster.
package subs

import (
	"context"
	"errors"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/pkg/recordsubscriber"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/syndtr/goleveldb/leveldb"

	"github.com/inklabs/rangedb/provider/leveldbstore"

	"verif/h/kit"
	"verif/sym"
)

// Other makes a further kind of store.
var Other func(*kit.Clock, *kit.UUID) rangedb.Store

var values uint64

func value() uint64 {
	if Other == nil {
		return sym.U64("v")
	}
	values++
	return values
}

func newStore() rangedb.Store {
	codec, clock, uuid := &kit.Codec{}, &kit.Clock{}, &kit.UUID{}
	if Other != nil {
		s := Other(clock, uuid)
		s.Bind(&kit.Ev{ET: "EA"}, &kit.Ev{ET: "EB"}, &kit.Ev{ET: "EC"})
		return s
	}
	if sym.Param("backend", 0) == 1 {
		leveldb.Reset()
		st, err := leveldbstore.New("/model/db", leveldbstore.WithClock(clock), leveldbstore.WithSerializer(codec), leveldbstore.WithUUIDGenerator(uuid))
		if err != nil {
			sym.Fail("open", sym.Err(err))
		}
		return st
	}
	return inmemorystore.New(inmemorystore.WithClock(clock), inmemorystore.WithSerializer(codec), inmemorystore.WithUUIDGenerator(uuid))
}

var types = []string{"A", "B", "C"}

func save(s rangedb.Store, t int, n int) {
	var b []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		b = append(b, &rangedb.EventRecord{Event: &kit.Ev{Type: types[t], ID: "1", ET: "E" + types[t], V: value()}, Metadata: uint64(7)})
	}
	if _, err := s.Save(context.Background(), types[t]+"!1", b...); err != nil {
		sym.Fail("save", "a valid Save fails: "+sym.Err(err))
	}
}

func wanted(s rangedb.Store, from uint64, sub []string) []*rangedb.Record {
	all, err := kit.Drain(s.Events(context.Background(), 0))
	if err != nil {
		sym.Fail("read", sym.Err(err))
	}
	var r []*rangedb.Record
	for _, x := range all {
		ok := sub == nil
		for _, t := range sub {
			ok = ok || t == x.AggregateType
		}
		if ok && x.GlobalSequenceNumber >= from {
			r = append(r, x)
		}
	}
	return r
}

// CatchUp: a subscription started at a number delivers every matching record
// from there on once and in order, however saves interleave with the start.
func CatchUp() {
	s := newStore()
	var from uint64
	if n := sym.Param("long", 0); n > 0 {
		from = uint64(sym.Choose("from", 2) * (n - 1))
		for i := 0; i < n; i += 10 {
			save(s, i/10%2, 10)
		}
	} else {
		from = sym.U64("from")
		if Other != nil {
			sym.Assume(from < 1<<31)
		}
		k := sym.Choose("before", sym.Param("before", 2)+1)
		for i := 0; i < k; i++ {
			save(s, i%2, 1)
		}
	}
	m := sym.Param("during", 2)
	var sub []string
	sink := &kit.Sink{}
	ctx, cancel := context.WithCancel(context.Background())
	var subscription rangedb.RecordSubscription
	buffer := sym.Param("buffer", 2)
	switch sym.Choose("types", 3) {
	case 0:
		subscription = s.AllEventsSubscription(ctx, buffer, sink)
	case 1:
		sub = []string{"A"}
		subscription = s.AggregateTypesSubscription(ctx, buffer, sink, sub...)
	case 2:
		sub = []string{"A", "B"}
		subscription = s.AggregateTypesSubscription(ctx, buffer, sink, sub...)
	}
	sym.SetSched("cfg")
	go func() {
		save(s, 0, 1)
		if m > 1 {
			save(s, 1, m-1)
		}
	}()
	err := subscription.StartFrom(from)
	sym.Assert(err == nil, "catch-up", "StartFrom fails: "+sym.Err(err))
	sym.Quiesce()
	want := wanted(s, from, sub)
	got := sink.Get()
	sym.Assert(kit.SameList(got, want), "catch-up", "delivered "+kit.Desc(got)+" want "+kit.Desc(want))
	// live now
	sym.SetSched("det")
	save(s, 0, 1)
	save(s, 2, 1)
	sym.Quiesce()
	want = wanted(s, from, sub)
	got = sink.Get()
	sym.Assert(kit.SameList(got, want), "catch-up", "live: delivered "+kit.Desc(got)+" want "+kit.Desc(want))
	// stopped
	if sym.Choose("stop", 2) == 0 {
		subscription.Stop()
	} else {
		cancel()
	}
	sym.Quiesce()
	select {
	case <-doneOf(subscription):
	default:
		sym.Fail("catch-up", "a stopped subscription is not done")
	}
	n := len(sink.Get())
	save(s, 0, 1)
	sym.Quiesce()
	sym.Assert(len(sink.Get()) == n, "catch-up", "a stopped subscription delivers")
	cancel()
	sym.Reach("end")
}

func doneOf(s rangedb.RecordSubscription) <-chan struct{} {
	return s.(interface{ Done() <-chan struct{} }).Done()
}

// Live: Start delivers exactly the records committed after it returned, or overlapping its call.
func Live() {
	s := newStore()
	save(s, 0, 1)
	sink := &kit.Sink{}
	var sub []string
	var subscription rangedb.RecordSubscription
	if sym.Choose("types", 2) == 0 {
		subscription = s.AllEventsSubscription(context.Background(), 2, sink)
	} else {
		sub = []string{"A", "B"}
		subscription = s.AggregateTypesSubscription(context.Background(), 2, sink, sub...)
	}
	sym.Quiesce()
	sym.SetSched("cfg")
	err := subscription.Start()
	sym.Assert(err == nil, "live", "Start fails: "+sym.Err(err))
	done := make(chan bool)
	go func() { save(s, 1, 2); done <- true }()
	save(s, 0, 1)
	<-done
	sym.Quiesce()
	want := wanted(s, 2, sub)
	got := sink.Get()
	sym.Assert(kit.SameList(got, want), "live", "delivered "+kit.Desc(got)+" want "+kit.Desc(want))
	subscription.Stop()
	sym.Quiesce()
	select {
	case <-doneOf(subscription):
	default:
		sym.Fail("live", "a stopped subscription is not done")
	}
	sym.Assert(subscription.Start() != nil, "live", "a stopped subscription starts again")
	sym.Reach("end")
}

var errRead = errors.New("read failed")
var errConsume = errors.New("consume failed")

// Failing: errors of the history read and of the consumer end the subscription visibly.
func Failing() {
	b := broadcast.New(4, time.Second)
	k := sym.Choose("records", 3)
	failRead := sym.Choose("failread", 3)       // never, first, second read
	failConsume := sym.Choose("failconsume", 5) // never, or the n-th record
	var got []uint64
	reads := 0
	calls := 0
	late := failRead > 0 && sym.Choose("late", 2) == 1
	failed := false
	next := uint64(k) + 1
	sr := recordsubscriber.New(recordsubscriber.Config{
		BufferSize:  2,
		Ctx:         context.Background(),
		Subscribe:   func(x broadcast.RecordSubscriber) { b.SubscribeAllEvents(x) },
		Unsubscribe: func(x broadcast.RecordSubscriber) { b.UnsubscribeAllEvents(x) },
		GetRecords: func(n uint64) rangedb.RecordIterator {
			reads++
			ch := make(chan rangedb.ResultRecord, 8)
			for g := uint64(1); g < next; g++ {
				if g >= n {
					ch <- rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: g}}
				}
			}
			if reads == failRead && late {
				ch <- rangedb.ResultRecord{Record: &rangedb.Record{GlobalSequenceNumber: next, Data: &kit.Ev{}}}
			} else if reads == failRead {
				ch <- rangedb.ResultRecord{Err: errRead}
			}
			close(ch)
			if reads == 1 {
				next++ // a record committed between the two reads
			}
			if reads == failRead && late { // as an encrypted store fails to decrypt
				return kit.Undecryptable(rangedb.NewRecordIterator(ch), 0, errRead)
			}
			return rangedb.NewRecordIterator(ch)
		},
		ConsumeRecord: func(r *rangedb.Record) error {
			sym.Assert(!failed, "failing", "a record is delivered after the consumer failed")
			calls++
			if calls == failConsume {
				failed = true
				return errConsume
			}
			got = append(got, r.GlobalSequenceNumber)
			return nil
		},
	})
	sym.SetSched("cfg")
	err := sr.StartFrom(1)
	inStart := failConsume > 0 && failConsume <= k+1 && !(failRead == 1 && failConsume > k)
	switch {
	case inStart:
		sym.Assert(errors.Is(err, errConsume), "failing", "StartFrom does not report the consumer's error: "+sym.Err(err))
		sym.Reach("consume")
	case failRead > 0:
		sym.Assert(errors.Is(err, errRead), "failing", "StartFrom does not report a failed read of the history: "+sym.Err(err))
		sym.Reach("read")
	default:
		sym.Assert(err == nil, "failing", "StartFrom fails: "+sym.Err(err))
	}
	// live records
	for i := 0; i < 2; i++ {
		b.Accept(&rangedb.Record{GlobalSequenceNumber: next})
		next++
	}
	sym.Quiesce()
	for i, g := range got {
		sym.Assert(g == uint64(i)+1, "failing", "records are missing, repeated or out of order")
	}
	if err != nil {
		sym.Assert(len(got) <= k+1, "failing", "a subscription that did not start delivers")
	} else if failConsume > 0 && failConsume <= k+3 {
		sym.Assert(failed, "failing", "a live record is not delivered")
		select {
		case <-sr.Done():
		default:
			sym.Fail("failing", "a subscription whose consumer failed is not done")
		}
		sym.Reach("live-consume")
	} else {
		sym.Assert(len(got) == k+3, "failing", "records are missing")
		closer := sym.Choose("close", 2)
		if closer == 0 {
			sr.Stop()
		} else {
			b.Close()
		}
		sym.Quiesce()
		select {
		case <-sr.Done():
		default:
			sym.Fail("failing", "a stopped subscription is not done: "+sym.BlockedDesc())
		}
		sym.Reach("end")
	}
}
