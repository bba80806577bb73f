// Package remote checks the gRPC server and the store that uses it: what a
// program sees through them is what the store behind the server has.
package remote

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/provider/remotestore"

	"verif/h/kit"
	"verif/sym"
)

// Thing is an event of a known type.
type Thing struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	N    uint64 `json:"n"`
	T    string `json:"t"`
}

// AggregateID implements rangedb.Event.
func (e Thing) AggregateID() string { return e.ID }

// AggregateType implements rangedb.Event.
func (e Thing) AggregateType() string { return e.Kind }

// EventType implements rangedb.Event.
func (e Thing) EventType() string { return "Thing" }

// Free is an event of a type that nobody knows.
type Free struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	N    uint64 `json:"n"`
	T    string `json:"t"`
}

// AggregateID implements rangedb.Event.
func (e Free) AggregateID() string { return e.ID }

// AggregateType implements rangedb.Event.
func (e Free) AggregateType() string { return e.Kind }

// EventType implements rangedb.Event.
func (e Free) EventType() string { return "Free" }

type sys struct {
	direct rangedb.Store // as if the program used the store itself
	behind rangedb.Store // the store behind the server
	remote rangedb.Store
	conn   *grpc.ClientConn
	server interface{ Stop() error }
	sink   *kit.Sink // the live events of the direct store
	hasty  bool      // the remote store is used at once
}

func newStore() rangedb.Store {
	var ser rangedb.RecordSerializer
	if sym.Param("ser", 0) == 1 {
		ser = msgpackrecordserializer.New()
	} else {
		ser = jsonrecordserializer.New()
	}
	s := inmemorystore.New(inmemorystore.WithClock(&kit.Clock{}), inmemorystore.WithUUIDGenerator(&kit.UUID{}), inmemorystore.WithSerializer(ser))
	s.Bind(&Thing{})
	return s
}

func newSys() *sys {
	s := &sys{direct: newStore(), behind: newStore()}
	s.sink = &kit.Sink{}
	sym.Assert(s.direct.AllEventsSubscription(context.Background(), 10, s.sink).Start() == nil, "harness", "subscribing fails")
	s.serve(s.behind)
	return s
}

func (s *sys) serve(store rangedb.Store) {
	srv, err := rangedbserver.New(rangedbserver.WithStore(store))
	sym.Assert(err == nil, "server", "the server does not start: "+sym.Err(err))
	s.server = srv
	s.conn = dial(srv)
	r, err := remotestore.New(s.conn)
	sym.Assert(err == nil, "connect", "the remote store does not start: "+sym.Err(err))
	r.Bind(&Thing{})
	s.remote = r
	if !s.hasty {
		sym.Quiesce()
	}
}

func clean(s string) string {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func number(v interface{}) (uint64, bool) {
	switch x := v.(type) {
	case json.Number:
		m, err := strconv.ParseUint(string(x), 10, 64)
		return m, err == nil
	case uint64:
		return x, true
	case uint32:
		return uint64(x), true
	case uint16:
		return uint64(x), true
	case uint8:
		return uint64(x), true
	case int64:
		return uint64(x), x >= 0
	case int32:
		return uint64(x), x >= 0
	case int16:
		return uint64(x), x >= 0
	case int8:
		return uint64(x), x >= 0
	}
	return 0, false
}

func sameGeneric(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && sym.StrEq(x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameGeneric(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameGeneric(v, w) {
				return false
			}
		}
		return true
	}
	na, ok1 := number(a)
	nb, ok2 := number(b)
	return ok1 && ok2 && na == nb
}

func sameRecord(a, b *rangedb.Record) string {
	if !sym.And(sym.And(sym.StrEq(a.StreamName, b.StreamName), sym.StrEq(a.AggregateType, b.AggregateType)), sym.And(sym.StrEq(a.AggregateID, b.AggregateID), sym.StrEq(a.EventID, b.EventID))) {
		return "names"
	}
	if !sym.And(sym.And(a.GlobalSequenceNumber == b.GlobalSequenceNumber, a.StreamSequenceNumber == b.StreamSequenceNumber), sym.And(a.InsertTimestamp == b.InsertTimestamp, sym.StrEq(a.EventType, b.EventType))) {
		return "numbers"
	}
	if t, ok := a.Data.(*Thing); ok {
		u, ok := b.Data.(*Thing)
		if !ok || !sym.And(sym.And(sym.StrEq(t.ID, u.ID), sym.StrEq(t.T, u.T)), sym.And(t.N == u.N, sym.StrEq(t.Kind, u.Kind))) {
			return "event"
		}
	} else if !sameGeneric(a.Data, b.Data) {
		return "data"
	}
	if !sameGeneric(a.Metadata, b.Metadata) {
		return "metadata"
	}
	return ""
}

// same: the remote records are the direct ones.
func same(label string, want, got []*rangedb.Record) {
	sym.Assert(len(want) == len(got), label, fmt.Sprintf("%d records instead of %d", len(got), len(want)))
	for i := range want {
		sym.Assert(got[i] != nil, label, "a record is missing")
		d := sameRecord(want[i], got[i])
		sym.Assert(d == "", label, fmt.Sprintf("record %d is not the stored one: its %s differ", i, d))
	}
}

// kind: the errors that programs tell apart.
func sameError(a, b error) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("an error (%v) at one side only", a == nil)
	}
	if a == nil {
		return ""
	}
	if errors.Is(a, context.Canceled) != errors.Is(b, context.Canceled) {
		return "a cancellation is not reported as one"
	}
	if errors.Is(a, rangedb.ErrStreamNotFound) != errors.Is(b, rangedb.ErrStreamNotFound) {
		return "a missing stream is not reported as one"
	}
	var ua, ub *rangedberror.UnexpectedSequenceNumber
	if errors.As(a, &ua) != errors.As(b, &ub) {
		return "a sequence number conflict is not reported as one"
	}
	if ua != nil && (ua.Expected != ub.Expected || ua.ActualSequenceNumber != ub.ActualSequenceNumber) {
		return "a sequence number conflict is reported with other numbers"
	}
	return ""
}

// value is any number, or any text.
func value() (uint64, string) {
	if sym.Choose("value", 2) == 0 {
		return sym.U64("n"), "t"
	}
	return 7, clean(sym.Str("t", sym.Param("text", 1)))
}

func (s *sys) event(kind int) *rangedb.EventRecord {
	k, id := "a", "1"
	if kind == 0 {
		if sym.Choose("type", 2) == 1 {
			k, id = "b-", "2"
		}
	}
	n, t := uint64(7), "t"
	var meta interface{}
	switch kind {
	case 1:
		n, t = value()
		fallthrough
	case 0:
		return &rangedb.EventRecord{Event: &Thing{ID: id, Kind: k, N: n, T: t}}
	case 2:
		n, t = value()
	case 3:
		n, t := value()
		meta = map[string]interface{}{"n": n, "t": t}
	}
	return &rangedb.EventRecord{Event: &Free{ID: id, Kind: k, N: n, T: t}, Metadata: meta}
}

func (s *sys) compareAll() {
	ctx := context.Background()
	want, err := kit.Drain(s.direct.Events(ctx, 0))
	sym.Assert(err == nil, "harness", "reading fails")
	got, err := kit.Drain(s.remote.Events(ctx, 0))
	sym.Assert(err == nil, "read", "reading through the server fails: "+sym.Err(err))
	same("records", want, got)
}

// Content: an event saved through the server is read back as from a store used directly.
func Content() {
	s := newSys()
	ctx := context.Background()
	e := s.event(1 + sym.Choose("kind", 3))
	optimistic := sym.Choose("optimistic", 2) == 1
	for _, st := range []rangedb.Store{s.direct, s.remote} {
		var err error
		if optimistic {
			_, err = st.OptimisticSave(ctx, 0, "a!1", e)
		} else {
			_, err = st.Save(ctx, "a!1", e)
		}
		sym.Assert(err == nil, "save", "saving fails: "+sym.Err(err))
	}
	s.compareAll()
	sym.Reach("end")
}

// Differential: through the server every operation does and returns what it
// does and returns at a store used directly.
func Differential() {
	s := newSys()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	live, all := &kit.Sink{}, &kit.Sink{}
	sym.Assert(s.remote.AllEventsSubscription(context.Background(), 10, live).Start() == nil, "subscribe", "subscribing fails")
	settle()
	for i := 0; i < sym.Param("ops", 2); i++ {
		switch sym.Choose("op", 4) {
		case 0:
			n := sym.Choose("events", sym.Param("batch", 1)+1)
			var evs []*rangedb.EventRecord
			name := "s1"
			for j := 0; j < n; j++ {
				evs = append(evs, s.event(0))
			}
			if n > 0 {
				name = rangedb.GetEventStream(evs[0].Event)
			}
			if sym.Choose("optimistic", 2) == 0 {
				a, e1 := s.direct.Save(ctx, name, evs...)
				b, e2 := s.remote.Save(ctx, name, evs...)
				d := sameError(e1, e2)
				sym.Assert(d == "", "save-error", d)
				sym.Assert(a == b, "save-result", "saving returns another number")
			} else {
				exp := sym.U64("expected")
				a, e1 := s.direct.OptimisticSave(ctx, exp, name, evs...)
				b, e2 := s.remote.OptimisticSave(ctx, exp, name, evs...)
				d := sameError(e1, e2)
				if n == 2 && evs[0].Event.AggregateType() != evs[1].Event.AggregateType() && e1 != nil && e2 != nil {
					d = "" // two reasons to refuse it
				}
				sym.Assert(d == "", "optimistic-error", d)
				sym.Assert(a == b, "optimistic-result", "saving returns another number")
			}
		case 1:
			name := []string{"a!1", "none"}[sym.Choose("stream", 2)]
			exp := sym.U64("expected")
			e1 := s.direct.OptimisticDeleteStream(ctx, exp, name)
			e2 := s.remote.OptimisticDeleteStream(ctx, exp, name)
			d := sameError(e1, e2)
			sym.Assert(d == "", "delete-error", d)
		case 2:
			cancel()
		case 3:
			name := []string{"a!1", "b-!2", "none"}[sym.Choose("stream", 3)]
			n1, e1 := s.direct.TotalEventsInStream(ctx, name)
			n2, e2 := s.remote.TotalEventsInStream(ctx, name)
			if ctx.Err() != nil && errors.Is(e2, context.Canceled) {
				break
			}
			sym.Assert(sameError(e1, e2) == "", "total-error", sameError(e1, e2))
			sym.Assert(n1 == n2, "total", "the number of events of a stream differs")
			from := sym.U64("from")
			var i1, i2 rangedb.RecordIterator
			switch sym.Choose("query", 3) {
			case 0:
				i1, i2 = s.direct.Events(ctx, from), s.remote.Events(ctx, from)
			case 1:
				i1, i2 = s.direct.EventsByStream(ctx, from, name), s.remote.EventsByStream(ctx, from, name)
			case 2:
				types := [][]string{{"a"}, {"c", "b-", "a"}, {"c"}}[sym.Choose("types", 3)]
				i1, i2 = s.direct.EventsByAggregateTypes(ctx, from, types...), s.remote.EventsByAggregateTypes(ctx, from, types...)
			}
			r1, e1 := kit.Drain(i1)
			r2, e2 := kit.Drain(i2)
			if ctx.Err() != nil && errors.Is(e2, context.Canceled) {
				break
			}
			d := sameError(e1, e2)
			sym.Assert(d == "", "query-error", d)
			same("query", r1, r2)
		}
	}
	s.compareAll()
	settle()
	from := sym.U64("subscribed-from")
	sym.Assert(s.remote.AllEventsSubscription(context.Background(), 10, all).StartFrom(from) == nil, "subscribe", "subscribing fails")
	settle()
	want, err := kit.Drain(s.direct.Events(context.Background(), from))
	sym.Assert(err == nil, "harness", "reading fails")
	same("subscription", want, all.Get())
	same("live", s.sink.Get(), live.Get())
	sym.Reach("end")
}

// Long: the same with many events.
func Long() {
	s := newSys()
	ctx := context.Background()
	n := sym.Param("events", 130)
	for _, st := range []rangedb.Store{s.direct, s.remote} {
		for i := 0; i < 2; i++ {
			var b []*rangedb.EventRecord
			for j := 0; j < n/2; j++ {
				b = append(b, &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: "a", N: uint64(i*n + j)}, Metadata: uint64(j)})
			}
			last, err := st.OptimisticSave(ctx, uint64(i*(n/2)), "a!1", b...)
			sym.Assert(err == nil && last == uint64((i+1)*(n/2)), "save", "saving a large batch fails: "+sym.Err(err))
		}
	}
	start := uint64(sym.Choose("start", sym.Param("starts", 2)) * (n - 2))
	query := sym.Choose("query", 4)
	read := func(st rangedb.Store) []*rangedb.Record {
		var rs []*rangedb.Record
		var err error
		switch query {
		case 0:
			rs, err = kit.Drain(st.Events(ctx, start))
		case 1:
			rs, err = kit.Drain(st.EventsByStream(ctx, start, "a!1"))
		case 2:
			rs, err = kit.Drain(st.EventsByAggregateTypes(ctx, start, "b", "c", "d", "a"))
		case 3:
			sink := &kit.Sink{}
			err = st.AllEventsSubscription(ctx, 10, sink).StartFrom(start)
			save(st, "a", 1)
			settle()
			rs = sink.Get()
		}
		sym.Assert(err == nil, "read", "reading many events fails: "+sym.Err(err))
		return rs
	}
	same("records", read(s.direct), read(s.remote))
	sym.Reach("end")
}

func settle() {
	for i := 0; i < 5; i++ {
		time.Sleep(time.Millisecond)
		sym.Quiesce()
	}
}

// failing is a store of which reads fail after some records.
type failing struct {
	rangedb.Store
	good int
	err  error
	late bool // as an encrypted store fails to decrypt
}

func (f *failing) cut(it rangedb.RecordIterator) rangedb.RecordIterator {
	if f.late {
		return kit.Undecryptable(it, f.good, f.err)
	}
	c := make(chan rangedb.ResultRecord, 10)
	rs, _ := kit.Drain(it)
	for i, r := range rs {
		if i == f.good {
			break
		}
		c <- rangedb.ResultRecord{Record: r}
	}
	c <- rangedb.ResultRecord{Err: f.err}
	close(c)
	return rangedb.NewRecordIterator(c)
}

func (f *failing) Events(ctx context.Context, n uint64) rangedb.RecordIterator {
	return f.cut(f.Store.Events(ctx, n))
}

func (f *failing) EventsByStream(ctx context.Context, n uint64, s string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByStream(ctx, n, s))
}

func (f *failing) EventsByAggregateTypes(ctx context.Context, n uint64, t ...string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByAggregateTypes(ctx, n, t...))
}

// ReadError: a history that the server cannot read completely never looks complete.
func ReadError() {
	s := &sys{direct: newStore(), behind: newStore()}
	ctx := context.Background()
	for i := 0; i < 2; i++ {
		_, err := s.behind.Save(ctx, "a!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: "a", N: uint64(i)}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
	err := []error{errors.New("disk failure"), rangedb.ErrStreamNotFound, context.Canceled, context.DeadlineExceeded,
		io.EOF, fmt.Errorf("cannot decode the record: %w", io.ErrUnexpectedEOF), errors.New("unexpected sequence number 1 on disk")}[sym.Choose("error", 7)]
	f := &failing{Store: s.behind, good: sym.Choose("good", 3), err: err}
	f.late = f.good < 2 && sym.Choose("late", 2) == 1
	s.serve(f)
	var it rangedb.RecordIterator
	switch sym.Choose("query", 4) {
	case 0:
		it = s.remote.Events(ctx, 0)
	case 1:
		it = s.remote.EventsByStream(ctx, 0, "a!1")
	case 2:
		it = s.remote.EventsByAggregateTypes(ctx, 0, "a")
	case 3:
		sub := s.remote.AllEventsSubscription(ctx, 10, &kit.Sink{})
		sym.Assert(sub.StartFrom(0) != nil, "subscribe-error", "a subscription starts although the history cannot be read")
		return
	}
	rs, e := kit.Drain(it)
	sym.Assert(e != nil, "read-error", fmt.Sprintf("a history that fails after %d of 2 records looks complete", f.good))
	sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound) == errors.Is(e, rangedb.ErrStreamNotFound), "read-error-kind", "another error is reported")
	sym.Assert(len(rs) <= 2, "read-records", "too many records")
	sym.Reach("end")
}

// broken is a store of which no operation succeeds.
type broken struct {
	rangedb.Store
	err error
}

func (b *broken) Save(context.Context, string, ...*rangedb.EventRecord) (uint64, error) {
	return 0, b.err
}

func (b *broken) OptimisticSave(context.Context, uint64, string, ...*rangedb.EventRecord) (uint64, error) {
	return 0, b.err
}

func (b *broken) OptimisticDeleteStream(context.Context, uint64, string) error {
	return b.err
}

func (b *broken) TotalEventsInStream(context.Context, string) (uint64, error) {
	return 0, b.err
}

// OpError: an operation that fails at the store behind the server, or does not
// get there, never looks done, and its error is of the same kind.
func OpError() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	err := []error{errors.New("disk failure"), &rangedberror.UnexpectedSequenceNumber{Expected: 3, ActualSequenceNumber: 7}, rangedb.ErrStreamNotFound,
		context.Canceled, context.DeadlineExceeded, io.EOF, errors.New("")}[sym.Choose("error", 7)]
	s := &sys{}
	s.serve(&broken{Store: newStore(), err: err})
	down := sym.Choose("down", 2) == 1
	if down {
		disconnect(s.conn)
	}
	e := &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: "a", N: 7}}
	var got error
	op := sym.Choose("op", 4)
	var n uint64
	switch op {
	case 0:
		n, got = s.remote.Save(ctx, "a!1", e)
	case 1:
		n, got = s.remote.OptimisticSave(ctx, sym.U64("expected"), "a!1", e)
	case 2:
		got = s.remote.OptimisticDeleteStream(ctx, sym.U64("expected"), "a!1")
	case 3:
		n, got = s.remote.TotalEventsInStream(ctx, "a!1")
	}
	sym.Assert(got != nil, "op-error", "an operation that fails at the store looks done")
	sym.Assert(n == 0, "op-result", "a failed operation returns a number")
	var want, other *rangedberror.UnexpectedSequenceNumber
	if down {
		sym.Assert(!errors.As(got, &other) && !errors.Is(got, rangedb.ErrStreamNotFound), "down-kind", "a broken connection is reported as a refusal of the store")
	} else if errors.As(err, &want) && (op == 1 || op == 2) {
		sym.Assert(errors.As(got, &other) && *other == *want, "op-conflict", "a conflict is reported as another error")
	} else if op == 2 {
		sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound) == errors.Is(got, rangedb.ErrStreamNotFound), "op-missing", "a missing stream is reported as another error, or another error as one")
	}
	sym.Reach("end")
}

// CancelRead: a remote read whose context is cancelled says so or is complete,
// and leaves nothing behind when its consumer has gone.
func CancelRead() {
	s := &sys{direct: newStore(), behind: newStore()}
	for i := 0; i < 2; i++ {
		_, err := s.behind.Save(context.Background(), "a!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: "a", N: uint64(i)}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
	s.serve(s.behind)
	settle()
	base := sym.Blocked()
	ctx, cancel := context.WithCancel(context.Background())
	abandon := sym.Choose("abandon", 2) == 1
	when := sym.Choose("when", 4) // before, concurrently, after the first record, after the read was started
	q := sym.Choose("query", 4)
	sym.SetSched("cfg")
	if when == 0 {
		cancel()
	} else if when == 1 {
		go cancel()
	}
	var it rangedb.RecordIterator
	switch q {
	case 0:
		it = s.remote.Events(ctx, 0)
	case 1:
		it = s.remote.EventsByStream(ctx, 0, "a!1")
	case 2:
		it = s.remote.EventsByAggregateTypes(ctx, 0, "a")
	case 3:
		it = s.remote.EventsByStream(ctx, 0, "nosuch")
	}
	if when == 3 {
		cancel()
	}
	n := 0
	for !(abandon && when != 2) && it.Next() {
		sym.Assert(it.Record().StreamSequenceNumber == uint64(n+1), "cancel-read", "a cancelled remote read gives other records")
		n++
		if when == 2 && n == 1 {
			cancel()
			if abandon {
				break
			}
		}
	}
	if !abandon {
		if err := it.Err(); q == 3 {
			sym.Assert(errors.Is(err, rangedb.ErrStreamNotFound) || errors.Is(err, context.Canceled), "cancel-read", "reading a stream that does not exist reports "+sym.Err(err))
		} else {
			sym.Assert(err == nil || errors.Is(err, context.Canceled), "cancel-read", "a cancelled remote read reports another error: "+sym.Err(err))
			sym.Assert(err != nil || n == 2, "cancel-read", "a truncated remote read looks complete")
		}
	}
	cancel()
	sym.Quiesce()
	time.Sleep(3 * time.Second)
	sym.Quiesce()
	sym.Assert(sym.Blocked() == base, "cancel-leak", "a cancelled remote read leaves a goroutine behind: "+sym.BlockedDesc())
	sym.Reach("end")
}

// receiver collects what a subscription by gRPC delivers.
type receiver struct {
	mu   kit.Mutex
	got  []*rangedbpb.Record
	done bool
}

type recver interface {
	Recv() (*rangedbpb.Record, error)
}

func (r *receiver) run(c recver) {
	for {
		m, err := c.Recv()
		r.mu.Lock()
		if err != nil {
			r.done = true
			r.mu.Unlock()
			return
		}
		r.got = append(r.got, m)
		r.mu.Unlock()
	}
}

func (r *receiver) get() ([]*rangedbpb.Record, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.got, r.done
}

func save(st rangedb.Store, kind string, n int) {
	for i := 0; i < n; i++ {
		_, err := st.Save(context.Background(), kind+"!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: kind, N: uint64(i)}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
}

// Subscribe: a subscription by gRPC delivers the records of its kind from its
// start on, once and in order, and its end is visible.
func Subscribe() {
	s := &sys{behind: newStore()}
	conc := sym.Param("concurrent", 0)
	stored := sym.Choose("stored", 3-conc)
	save(s.behind, "a", stored)
	srv, err := rangedbserver.New(rangedbserver.WithStore(s.behind))
	sym.Assert(err == nil, "server", "the server does not start: "+sym.Err(err))
	conn := dial(srv)
	settle()
	client := rangedbpb.NewRangeDBClient(conn)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var c recver
	var e error
	from := uint64(stored + 1)
	var types []string
	switch sym.Choose("subscription", 3) {
	case 0:
		c, e = client.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
	case 1:
		from = sym.U64("from")
		c, e = client.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: from})
	case 2:
		from = sym.U64("from")
		types = [][]string{{"c", "b", "a"}, {"a"}, {"b", "c"}}[sym.Choose("types", 3-conc)]
		c, e = client.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: from, AggregateTypes: types})
	}
	sym.Assert(e == nil, "subscribe", "subscribing fails: "+sym.Err(e))
	r := &receiver{}
	if conc == 1 {
		sym.Assume(len(types) > 0 || from != uint64(stored+1)) // a live one starts at any time
		sym.SetSched("cfg")
		go r.run(c)
	} else {
		go r.run(c)
		settle()
	}
	save(s.behind, "a", 1)
	save(s.behind, "b", 1)
	sym.SetSched("det")
	settle()
	var want []*rangedb.Record
	all, err := kit.Drain(s.behind.Events(context.Background(), 0))
	sym.Assert(err == nil, "harness", "reading fails")
	for _, rec := range all {
		ok := len(types) == 0
		for _, t := range types {
			ok = ok || rec.AggregateType == t
		}
		if ok && (rec.GlobalSequenceNumber >= from) {
			want = append(want, rec)
		}
	}
	got, done := r.get()
	sym.Assert(!done, "ended", "the subscription has ended without a reason")
	sym.Assert(len(got) == len(want), "delivered", fmt.Sprintf("%d records were delivered instead of %d", len(got), len(want)))
	for i, w := range want {
		sym.Assert(got[i].GlobalSequenceNumber == w.GlobalSequenceNumber && got[i].StreamSequenceNumber == w.StreamSequenceNumber && got[i].AggregateType == w.AggregateType && got[i].EventID == w.EventID, "delivered", fmt.Sprintf("delivery %d is not the record that is due", i))
	}
	switch sym.Choose("end", 3-2*conc) {
	case 0:
		srv.Stop()
	case 1:
		disconnect(conn)
	case 2:
		cancel()
	}
	settle()
	_, done = r.get()
	sym.Assert(done, "silent-end", "the subscription gets nothing any more, and its client is not told")
	sym.Reach("end")
}

func doneOf(s rangedb.RecordSubscription) <-chan struct{} {
	return s.(interface{ Done() <-chan struct{} }).Done()
}

// LiveEnd: a subscription of a remote store ends visibly when the connection or the server has gone.
func LiveEnd() {
	s := newSys()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sink := &kit.Sink{}
	var sub rangedb.RecordSubscription
	if sym.Choose("kind", 2) == 0 {
		sub = s.remote.AllEventsSubscription(ctx, 10, sink)
	} else {
		sub = s.remote.AggregateTypesSubscription(ctx, 10, sink, "a")
	}
	if sym.Choose("live", 2) == 0 {
		sym.Assert(sub.Start() == nil, "subscribe", "subscribing fails")
	} else {
		sym.Assert(sub.StartFrom(0) == nil, "subscribe", "subscribing fails")
	}
	settle()
	save(s.behind, "a", sym.Choose("events", 2))
	settle()
	select {
	case <-doneOf(sub):
		sym.Fail("ended", "the subscription has ended without a reason")
	default:
	}
	e := sym.Choose("end", 4)
	switch e {
	case 0:
		s.server.Stop()
	case 1:
		disconnect(s.conn)
	case 2:
		cancel()
	case 3:
		sub.Stop()
	}
	settle()
	select {
	case <-doneOf(sub):
	default:
		sym.Fail("silent-end", "the subscription gets nothing any more, and its owner is not told")
	}
	if e < 2 { // a later one cannot get anything either
		late := s.remote.AllEventsSubscription(context.Background(), 10, sink)
		err := late.Start()
		settle()
		select {
		case <-doneOf(late):
		default:
			sym.Assert(err != nil, "silent-start", "a subscription that cannot get anything starts, and its owner is not told")
		}
	}
	sym.Reach("end")
}

// LiveStart: a subscription of a new remote store delivers what is saved at the server once it was started.
func LiveStart() {
	s := &sys{behind: newStore(), hasty: true}
	s.serve(s.behind)
	sink := &kit.Sink{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var sub rangedb.RecordSubscription
	if sym.Choose("kind", 2) == 0 {
		sub = s.remote.AllEventsSubscription(ctx, 10, sink)
	} else {
		sub = s.remote.AggregateTypesSubscription(ctx, 10, sink, "a")
	}
	if sym.Choose("live", 2) == 0 {
		sym.Assert(sub.Start() == nil, "subscribe", "subscribing fails")
	} else {
		sym.Assert(sub.StartFrom(0) == nil, "subscribe", "subscribing fails")
	}
	save(s.behind, "a", 2)
	settle()
	got := sink.Get()
	sym.Assert(len(got) == 2, "live-start", fmt.Sprintf("a subscription got %d of the 2 records that were saved after its start", len(got)))
	for i, r := range got {
		sym.Assert(r.GlobalSequenceNumber == uint64(i+1), "live-order", "a subscription of a new remote store delivers other records")
	}
	sym.Reach("end")
}

// words are JSON values, and some that are not, longer than the symbolic ones.
var words = []string{"null", "true", "[]", "{}", `"x"`, "[null]", `{"a":null}`, `{"":{}}`, "1e400", "-0", "1.50", "nul", "[1,]"}

func part(name string, n int) string {
	if k := sym.Choose("len", n+1+len(words)); k > n {
		return words[k-n-1]
	} else {
		return clean(sym.Str(name, k))
	}
}

// Malformed: whatever the event data and metadata of a request are, it is
// either saved as it is or refused as a whole.
func Malformed() {
	st := newStore()
	srv, err := rangedbserver.New(rangedbserver.WithStore(st))
	sym.Assert(err == nil, "server", "the server does not start: "+sym.Err(err))
	client := rangedbpb.NewRangeDBClient(dial(srv))
	ctx := context.Background()
	data, meta := "7", ""
	n := sym.Param("len", 3)
	if sym.Choose("part", 2) == 0 {
		data = part("data", n)
	} else {
		meta = part("meta", n)
	}
	events := []*rangedbpb.Event{{AggregateType: "a", AggregateID: "1", EventType: "X", Data: data, Metadata: meta}}
	good := &rangedbpb.Event{AggregateType: "a", AggregateID: "1", EventType: "X", Data: `{"k":1}`, Metadata: "null"}
	switch sym.Choose("batch", 3) {
	case 1:
		events = append(events, good)
	case 2:
		events = []*rangedbpb.Event{good, events[0]}
	}
	var res *rangedbpb.SaveResponse
	if sym.Choose("optimistic", 2) == 0 {
		res, err = client.Save(ctx, &rangedbpb.SaveRequest{StreamName: "a!1", Events: events})
	} else {
		res, err = client.OptimisticSave(ctx, &rangedbpb.OptimisticSaveRequest{StreamName: "a!1", Events: events})
	}
	valid := json.Valid([]byte(data)) && (meta == "" || json.Valid([]byte(meta)))
	rs, e := kit.Drain(st.Events(ctx, 0))
	if !valid {
		sym.Assert(err != nil, "accepted", "malformed event data are accepted")
		sym.Assert(status.Code(err) == codes.InvalidArgument, "code", "malformed event data are not called an invalid argument")
		sym.Assert(len(rs) == 0, "partly", "a refused request leaves events behind")
		sym.Reach("refused")
		return
	}
	if err != nil { // numbers may be too large for the store
		sym.Assert(len(rs) == 0, "partly", "a refused request leaves events behind")
		sym.Reach("refused")
		return
	}
	sym.Assert(e == nil && len(rs) == len(events), "saved", "not all events are saved")
	sym.Assert(int(res.EventsSaved) == len(events) && res.LastStreamSequenceNumber == uint64(len(events)), "response", "the response does not say what was saved")
	sym.Reach("saved")
}

// feed is a store of which subscriptions can be ended.
type feed struct {
	rangedb.Store
	subs []rangedb.RecordSubscription
}

func (f *feed) AllEventsSubscription(ctx context.Context, n int, s rangedb.RecordSubscriber) rangedb.RecordSubscription {
	sub := f.Store.AllEventsSubscription(ctx, n, s)
	f.subs = append(f.subs, sub)
	return sub
}

// FeedEnd: when the feed of the server's store ends, so do the subscriptions
// of the server's clients.
func FeedEnd() {
	f := &feed{Store: newStore()}
	srv, err := rangedbserver.New(rangedbserver.WithStore(f))
	sym.Assert(err == nil, "server", "the server does not start: "+sym.Err(err))
	client := rangedbpb.NewRangeDBClient(dial(srv))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	kind := sym.Choose("subscription", 3)
	open := func() *receiver {
		var c recver
		var e error
		switch kind {
		case 0:
			c, e = client.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
		case 1:
			c, e = client.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: 1})
		case 2:
			c, e = client.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: 1, AggregateTypes: []string{"a"}})
		}
		sym.Assert(e == nil, "subscribe", "subscribing fails: "+sym.Err(e))
		r := &receiver{}
		go r.run(c)
		settle()
		return r
	}
	r := open()
	save(f, "a", 1)
	settle()
	for _, s := range f.subs {
		s.Stop()
	}
	settle()
	save(f, "a", 1)
	settle()
	got, done := r.get()
	sym.Assert(len(got) == 2 || len(got) == 1 && done, "silent-end", "the subscription stays and brings nothing more")
	late := open()
	save(f, "a", 1)
	settle()
	got, done = late.get()
	sym.Assert(done || len(got) > 0 && got[len(got)-1].GlobalSequenceNumber == 3, "silent-start", "a subscription starts and brings nothing")
	sym.Assert(srv.Stop() == nil, "stop", "stopping the server fails")
	sym.Reach("end")
}
