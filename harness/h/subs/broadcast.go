package subs

import (
	"context"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/pkg/recordsubscriber"

	"verif/h/kit"
	"verif/sym"
)

// spy is a subscriber that the broadcaster sees.
type spy struct {
	ch      chan *rangedb.Record
	stopped int
	types   []string // nil: all
	got     []*rangedb.Record
}

func (s *spy) Receiver() broadcast.SendRecordChan { return s.ch }
func (s *spy) Stop()                              { s.stopped++ }

func (s *spy) wants(r *rangedb.Record) bool {
	if s.types == nil {
		return true
	}
	for _, t := range s.types {
		if t == r.AggregateType {
			return true
		}
	}
	return false
}

func newSpy(i int) *spy {
	s := &spy{ch: make(chan *rangedb.Record, sym.Choose("cap", sym.Param("cap", 2)+1))}
	switch sym.Choose("types", 3) {
	case 1:
		s.types = []string{"A"}
	case 2:
		s.types = []string{"A", "B"}
	}
	return s
}

// Broadcast: every subscriber gets its matching records once and in order; one
// that is too slow is stopped, and gets nothing after the record it missed.
func Broadcast() {
	b := broadcast.New(sym.Param("buffer", 1), time.Second)
	n := sym.Param("spies", 2)
	var spies []*spy
	for i := 0; i < n; i++ {
		s := newSpy(i)
		spies = append(spies, s)
		if s.types == nil {
			b.SubscribeAllEvents(s)
		} else {
			b.SubscribeAggregateTypes(s, s.types...)
		}
	}
	k := sym.Param("records", 3)
	var all []*rangedb.Record
	for i := 0; i < k; i++ {
		all = append(all, &rangedb.Record{GlobalSequenceNumber: uint64(i) + 1, AggregateType: sym.Str("type", 1)})
	}
	reads := make([]int, n)
	for i := range reads {
		reads[i] = sym.Choose("reads", k+1) // how many records it reads concurrently
	}
	sym.SetSched("cfg")
	done := make(chan bool, n)
	for i, s := range spies {
		i, s := i, s
		go func() {
			for j := 0; j < reads[i]; j++ {
				s.got = append(s.got, <-s.ch)
			}
			done <- true
		}()
	}
	for _, r := range all {
		b.Accept(r)
	}
	sym.Quiesce()
	// the timeouts pass
	for i := 0; i < k*n+1; i++ {
		time.Sleep(2 * time.Second)
		sym.Quiesce()
	}
	for _, s := range spies {
		var rest []*rangedb.Record
		for {
			select {
			case r := <-s.ch:
				rest = append(rest, r)
				continue
			default:
			}
			break
		}
		got := append(append([]*rangedb.Record(nil), s.got...), rest...)
		var want []*rangedb.Record
		for _, r := range all {
			if s.wants(r) {
				want = append(want, r)
			}
		}
		sym.Assert(len(got) <= len(want), "broadcast", "a subscriber gets records it should not")
		for i := range got {
			sym.Assert(got[i] == want[i], "broadcast", "a subscriber gets records out of order, twice, or after one it missed")
		}
		if len(got) < len(want) {
			sym.Assert(s.stopped == 1, "broadcast", "a subscriber that missed a record is not stopped")
			sym.Reach("dropped")
		} else {
			sym.Assert(s.stopped == 0, "broadcast", "a subscriber that missed nothing is stopped")
			sym.Reach("complete")
		}
	}
}

// Unsubscribe: nothing arrives after Unsubscribe returned; Close stops the others; nobody blocks.
func Unsubscribe() {
	b := broadcast.New(1, time.Second)
	x, y := newSpy(0), newSpy(1)
	x.ch, y.ch = make(chan *rangedb.Record, 8), make(chan *rangedb.Record, 8)
	add := func(s *spy) {
		if s.types == nil {
			b.SubscribeAllEvents(s)
		} else {
			b.SubscribeAggregateTypes(s, s.types...)
		}
	}
	remove := func(s *spy) {
		if s.types == nil {
			b.UnsubscribeAllEvents(s)
		} else {
			b.UnsubscribeAggregateTypes(s, s.types...)
		}
	}
	sym.SetSched("cfg")
	done := make(chan bool, 2)
	go func() {
		for i := 0; i < 2; i++ {
			b.Accept(&rangedb.Record{GlobalSequenceNumber: uint64(i) + 1, AggregateType: types[i]})
		}
		done <- true
	}()
	add(x)
	add(y)
	remove(x)
	n := len(x.ch)
	<-done
	sym.Quiesce()
	sym.Assert(len(x.ch) == n, "unsubscribe", "a record arrives after Unsubscribe returned")
	last := uint64(0)
	for len(y.ch) > 0 {
		r := <-y.ch
		sym.Assert(r.GlobalSequenceNumber > last, "unsubscribe", "records are repeated or out of order")
		last = r.GlobalSequenceNumber
	}
	b.Accept(&rangedb.Record{GlobalSequenceNumber: 3, AggregateType: "A"})
	sym.Quiesce()
	sym.Assert(len(y.ch) == 1 && len(x.ch) == n, "unsubscribe", "a record is not delivered to the remaining subscriber only")
	b.Close()
	sym.Quiesce()
	sym.Assert(y.stopped >= 1, "unsubscribe", "Close does not stop a subscriber")
	sym.Assert(x.stopped == 0, "unsubscribe", "Close stops somebody who unsubscribed")
	// late callers
	finished := false
	go func() {
		remove(y)
		for i := 0; i < 3; i++ {
			b.Accept(&rangedb.Record{GlobalSequenceNumber: 4, AggregateType: "A"})
		}
		finished = true
	}()
	sym.Quiesce()
	sym.Assert(finished, "unsubscribe", "callers block for ever after Close")
	sym.Reach("end")
}

// SlowSubscription: a subscription that is too slow ends visibly, with a
// gapless prefix of its records.
func SlowSubscription() {
	b := broadcast.New(2, time.Second)
	sub := [][]string{{"A"}, {"A", "B"}, nil}[sym.Choose("types", 3)]
	k := sym.Param("records", 4)
	slow := sym.Choose("slow", k)
	var got []uint64
	consume := func(r *rangedb.Record) error {
		got = append(got, r.GlobalSequenceNumber)
		if len(got) == slow+1 {
			time.Sleep(3 * time.Second)
		}
		return nil
	}
	st := newStore()
	var cfg recordsubscriber.Config
	if sub == nil {
		cfg = recordsubscriber.AllEventsConfig(context.Background(), st, b, 1, consume)
	} else {
		cfg = recordsubscriber.AggregateTypesConfig(context.Background(), st, b, 1, sub, consume)
	}
	sr := recordsubscriber.New(cfg)
	sym.Quiesce()
	sym.SetSched("cfg")
	sym.Assert(sr.Start() == nil, "slow", "Start fails")
	var want []uint64
	for i := 0; i < k; i++ {
		r := &rangedb.Record{GlobalSequenceNumber: uint64(i) + 1, AggregateType: types[i%2]}
		if i == k-1 {
			r.AggregateType = "B"
		}
		if sub == nil || len(sub) == 2 || r.AggregateType == "A" {
			want = append(want, r.GlobalSequenceNumber)
		}
		b.Accept(r)
		if i == k-2 {
			time.Sleep(time.Second)
		}
	}
	sym.Quiesce()
	for i := 0; i < k+2; i++ {
		time.Sleep(4 * time.Second)
		sym.Quiesce()
	}
	sym.Assert(len(got) <= len(want), "slow", "too many records")
	for i := range got {
		sym.Assert(got[i] == want[i], "slow", "a slow subscription has a gap")
	}
	if len(got) < len(want) {
		select {
		case <-sr.Done():
		default:
			sym.Fail("slow", "a subscription that missed a record is not done")
		}
		sym.Reach("dropped")
	} else {
		sym.Reach("complete")
	}
	_ = kit.Desc
}

// Kinds: whatever two subscribers add to and take from what they subscribed
// to, each gets the records that match at that moment, and no others.
func Kinds() {
	b := broadcast.New(4, time.Second)
	n := sym.Param("ops", 4)
	var spies [2]*spy
	var want [2][]*rangedb.Record
	var all [2]bool
	var kinds [2][2]bool
	for i := range spies {
		spies[i] = &spy{ch: make(chan *rangedb.Record, 2*n+4)}
	}
	accept := func(k int, seq int) {
		r := &rangedb.Record{GlobalSequenceNumber: uint64(seq), AggregateType: types[k]}
		b.Accept(r)
		sym.Quiesce()
		for j := range spies {
			if all[j] {
				want[j] = append(want[j], r)
			}
			if kinds[j][k] {
				want[j] = append(want[j], r)
			}
		}
	}
	seq := 0
	for i := 0; i < n; i++ {
		who := sym.Choose("who", 2)
		switch op := sym.Choose("op", 7); op {
		case 0:
			b.SubscribeAllEvents(spies[who])
			all[who] = true
		case 1:
			b.UnsubscribeAllEvents(spies[who])
			all[who] = false
		case 2, 3:
			b.SubscribeAggregateTypes(spies[who], types[op-2])
			kinds[who][op-2] = true
		case 4, 5:
			b.UnsubscribeAggregateTypes(spies[who], types[op-4])
			kinds[who][op-4] = false
		case 6:
			b.SubscribeAggregateTypes(spies[who], types[0], types[1])
			kinds[who] = [2]bool{true, true}
		}
		if all[who] && (kinds[who][0] || kinds[who][1]) {
			return // how often it gets a record then is left open
		}
	}
	for k := 0; k < 2; k++ {
		seq++
		accept(k, seq)
	}
	for j, s := range spies {
		sym.Assert(len(s.ch) == len(want[j]), "kinds", "a subscriber does not get exactly the records of the kinds it is subscribed to")
		for _, w := range want[j] {
			sym.Assert(<-s.ch == w, "kinds", "a subscriber gets another record")
		}
		sym.Assert(s.stopped == 0, "kinds", "a subscriber is stopped")
	}
	b.Close()
	sym.Quiesce()
	for j, s := range spies {
		subscribed := all[j] || kinds[j][0] || kinds[j][1]
		sym.Assert((s.stopped > 0) == subscribed, "kinds", "Close does not stop exactly the remaining subscribers")
	}
	sym.Reach("end")
}
