package app

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"github.com/inklabs/rangedb/provider/inmemorystore"

	"verif/h/kit"
	"verif/mcrypto"
	"verif/sym"
)

// cmd is a command.
type cmd struct {
	Type, ID, Name string
}

func (c cmd) AggregateType() string { return c.Type }
func (c cmd) AggregateID() string   { return c.ID }
func (c cmd) CommandType() string   { return c.Name }

// agg is an aggregate that notes what it is given, and raises what it is told.
type agg struct {
	names  []string
	log    []string
	loaded []*rangedb.Record
	err    error
	raise  []rangedb.Event
}

func (a *agg) Load(it rangedb.RecordIterator) {
	a.log = append(a.log, "load")
	a.loaded, a.err = kit.Drain(it)
}

func (a *agg) Handle(c cqrs.Command) []rangedb.Event {
	a.log = append(a.log, "handle "+c.CommandType()+" "+c.AggregateType()+"!"+c.AggregateID())
	return a.raise
}

func (a *agg) CommandTypes() []string { return a.names }

// failing is a store some of whose saves fail.
type failing struct {
	rangedb.Store
	saves int
	fail  map[int]bool
}

var errSave = errors.New("save failure")

func (f *failing) Save(ctx context.Context, stream string, rs ...*rangedb.EventRecord) (uint64, error) {
	f.saves++
	if f.fail[f.saves-1] {
		return 0, errSave
	}
	return f.Store.Save(ctx, stream, rs...)
}

func newStore() rangedb.Store {
	c, u := &kit.Clock{}, &kit.UUID{}
	return inmemorystore.New(inmemorystore.WithClock(c), inmemorystore.WithSerializer(&kit.Codec{}), inmemorystore.WithUUIDGenerator(u))
}

// pick is any letter.
func pick(name string) string {
	s := sym.Str(name, 1)
	sym.Assume(sym.And(s[0] >= 'a', s[0] <= 'z'))
	return s
}

// Dispatch: a command reaches the aggregate registered for it, after exactly
// the history of its own stream; what it raises is stored, each event once in
// its own stream and in order, and what is returned is what was stored.
func Dispatch() {
	inner := newStore()
	st := &failing{Store: inner, fail: map[int]bool{}}
	ctx := context.Background()
	v := uint64(0)
	event := func(when string) *kit.Ev {
		v++
		return &kit.Ev{Type: "t" + pick("type "+when), ID: "i" + pick("id "+when), ET: "E", V: v<<32 | uint64(sym.U32("v"))}
	}
	var all []*kit.Ev
	for i, n := 0, sym.Choose("stored", sym.Param("stored", 2)+1); i < n; i++ {
		e := event("before")
		all = append(all, e)
		_, err := inner.Save(ctx, rangedb.GetEventStream(e), &rangedb.EventRecord{Event: e})
		sym.Assert(err == nil, "store", "a save fails")
	}
	one, two := &agg{names: []string{"one", "more"}}, &agg{names: []string{"two"}}
	app := cqrs.New(st, cqrs.WithAggregates(one, two))
	for round := 0; round < sym.Param("rounds", 1); round++ {
		one.log, two.log = nil, nil
		one.raise, two.raise = nil, nil
		c := cmd{Type: "t" + pick("type"), ID: "i" + pick("id"), Name: []string{"one", "two", "more", "none", ""}[sym.Choose("command", 5)]}
		target := map[string]*agg{"one": one, "more": one, "two": two}[c.Name]
		var raised []*kit.Ev
		for i, n := 0, sym.Choose("raised", sym.Param("raised", 2)+1); i < n; i++ {
			raised = append(raised, event("raised"))
		}
		if target != nil {
			for i, e := range raised {
				target.raise = append(target.raise, e)
				st.fail[st.saves+i] = sym.Choose("fails", 2) == 1
			}
		}
		first := st.saves
		got := app.Dispatch(c)
		if target == nil {
			sym.Assert(len(got) == 0 && st.saves == first && len(one.log)+len(two.log) == 0, "unknown", "a command without an aggregate has an effect")
			sym.Reach("unknown")
			continue
		}
		other := one
		if target == one {
			other = two
		}
		sym.Assert(len(other.log) == 0, "other", "a command reaches another aggregate")
		sym.Assert(len(target.log) == 2 && target.log[0] == "load" && sym.StrEq(target.log[1], "handle "+c.Name+" "+c.Type+"!"+c.ID), "handled", fmt.Sprintf("the aggregate is not given its history and then the command: %v", target.log))
		k := 0
		for _, e := range all {
			if e.Type == c.Type && e.ID == c.ID {
				sym.Assert(k < len(target.loaded) && sameEv(target.loaded[k], e), "history", "the aggregate is not given the history of its stream")
				k++
			}
		}
		sym.Assert(target.err == nil || k == 0 && target.err == rangedb.ErrStreamNotFound, "history-error", "the history fails: "+sym.Err(target.err))
		sym.Assert(k == len(target.loaded), "history-more", "the aggregate is given more than the history of its stream")
		var want []*kit.Ev
		for i, e := range raised {
			if !st.fail[first+i] {
				want = append(want, e)
			}
		}
		sym.Assert(len(got) == len(want), "returned", "the returned events are not those that were stored")
		for i, e := range want {
			sym.Assert(got[i] == rangedb.Event(e), "returned", "the returned events are not those that were stored")
		}
		all = append(all, want...)
		sym.Reach("handled")
	}
	rs, err := kit.Drain(inner.Events(ctx, 0))
	sym.Assert(err == nil && len(rs) == len(all), "stored", "the store does not hold what was raised")
	for i, e := range all {
		sym.Assert(sameEv(rs[i], e) && sym.StrEq(rs[i].StreamName, rangedb.GetEventStream(e)), "stored", "the store does not hold what was raised")
	}
	sym.Reach("end")
}

func sameEv(r *rangedb.Record, e *kit.Ev) bool {
	d, ok := r.Data.(*kit.Ev)
	return ok && sym.And(sym.And(sym.StrEq(d.Type, e.Type), sym.StrEq(d.ID, e.ID)), d.V == e.V)
}

// Identifiers: identifiers have 32 lower-case hexadecimal digits, and two
// that are equal come from the same 122 random bits.
func Identifiers() {
	var x, y shortuuid.ShortUUID
	for i := range x {
		x[i] = sym.Byte("x")
	}
	copy(y[:], x[:])
	at := sym.Choose("at", 16)
	y[at] = sym.Byte("y")
	s, t := x.String(), y.String()
	sym.Assert(len(s) == 32, "length", "an identifier does not have 32 characters")
	okAll := true
	for i := 0; i < 32; i++ {
		okAll = sym.And(okAll, sym.Or(sym.And(s[i] >= '0', s[i] <= '9'), sym.And(s[i] >= 'a', s[i] <= 'f')))
	}
	sym.Assert(okAll, "digits", "an identifier holds something else than lower-case hexadecimal digits")
	sym.Assert(sym.Or(x[at] == y[at], !sym.StrEq(s[2*at:2*at+2], t[2*at:2*at+2])), "distinct", "two identifiers that differ are written alike")
	sym.Reach("end")
}

// Generated: two generated identifiers are equal only if the random bits they
// are made of are.
func Generated() {
	var drawn []byte
	mcrypto.Source = func(b []byte) {
		for i := range b {
			b[i] = sym.Byte("random")
			drawn = append(drawn, b[i])
		}
	}
	g := shortuuid.NewUUIDGenerator()
	a := g.New()
	n := len(drawn)
	b := g.New()
	sym.Assert(n == 16 && len(drawn) == 32, "bits", "an identifier is not made of 16 random bytes")
	sym.Assert(len(a) == 32 && len(b) == 32, "length", "an identifier does not have 32 characters")
	at := sym.Choose("at", 16)
	mask := byte(0xff)
	switch at {
	case 6:
		mask = 0x0f
	case 8:
		mask = 0x3f
	}
	sym.Assert(sym.Or(drawn[at]&mask == drawn[16+at]&mask, !sym.StrEq(a[2*at:2*at+2], b[2*at:2*at+2])), "distinct", "identifiers made of different random bits are equal")
	sym.Assert(sym.And(a[12] == '4', b[12] == '4'), "version", "an identifier is not a random one")
	sym.Reach("end")
}

// keeper is an aggregate that keeps state between loading and handling.
type keeper struct {
	id string
	n  int
	mu sync.Mutex // of its log: others may run before it goes on
}

func (k *keeper) Load(it rangedb.RecordIterator) {
	rs, _ := kit.Drain(it)
	k.n, k.id = len(rs), ""
	if len(rs) > 0 {
		k.id = rs[0].AggregateID
	}
}

func (k *keeper) Handle(c cqrs.Command) []rangedb.Event {
	k.mu.Lock()
	k.mu.Unlock()
	return []rangedb.Event{&kit.Ev{Type: "t", ID: c.AggregateID(), ET: k.id, V: uint64(k.n)}}
}

func (k *keeper) CommandTypes() []string { return []string{"c"} }

// DispatchShared: two commands at once, of one aggregate.
func DispatchShared() {
	st := newStore()
	ctx := context.Background()
	for _, id := range []string{"a", "b", "b"} {
		_, err := st.Save(ctx, "t!"+id, &rangedb.EventRecord{Event: &kit.Ev{Type: "t", ID: id, ET: "E"}})
		sym.Assert(err == nil, "store", "a save fails")
	}
	app := cqrs.New(st, cqrs.WithAggregates(&keeper{}))
	done := make(chan []rangedb.Event, 1)
	sym.SetSched("cfg")
	go func() { done <- app.Dispatch(cmd{Type: "t", ID: "a", Name: "c"}) }()
	two := app.Dispatch(cmd{Type: "t", ID: "b", Name: "c"})
	one := <-done
	sym.SetSched("det")
	for i, es := range [][]rangedb.Event{one, two} {
		id := string(rune('a' + i))
		sym.Assert(len(es) == 1, "raised", "an event is missing")
		e := es[0].(*kit.Ev)
		sym.Assert(e.ID == id && e.ET == id && e.V == uint64(i+1), "mixed", "a command is decided on the history of another aggregate")
	}
	rs, err := kit.Drain(st.Events(ctx, 0))
	sym.Assert(err == nil && len(rs) == 5, "stored", "the store does not hold what was raised")
	sym.Reach("end")
}
