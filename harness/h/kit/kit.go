// Package kit has what the harnesses share: a model serializer, clock and ID
// generator that are injected through the public options, and a reference
// model of an event store.
package kit

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/encryptedstore"

	"verif/sym"
)

// Mutex is a lock that the executor ignores: code of the kit is atomic there.
type Mutex struct{ mu sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() { m.mu.Lock() }

// Unlock unlocks.
func (m *Mutex) Unlock() { m.mu.Unlock() }

// Ev is the event type of the harnesses.
type Ev struct {
	Type, ID, ET string
	V            uint64
}

// AggregateType implements rangedb.Event.
func (e *Ev) AggregateType() string { return e.Type }

// AggregateID implements rangedb.Event.
func (e *Ev) AggregateID() string { return e.ID }

// EventType implements rangedb.Event.
func (e *Ev) EventType() string { return e.ET }

// ErrCodec is the serializer's failure.
var ErrCodec = errors.New("codec failure")

// Codec is a model serializer: an injective, opaque encoding that shares
// nothing with the record it was given.
type Codec struct {
	mu    Mutex
	recs  []rangedb.Record
	Fail  func(op string) bool
	Calls int
	Copy  func(data interface{}) interface{} // copies events of other types
}

func (c *Codec) copyRec(r *rangedb.Record) rangedb.Record {
	n := *r
	if e, ok := n.Data.(*Ev); ok {
		d := *e
		n.Data = &d
	} else if c.Copy != nil {
		n.Data = c.Copy(n.Data)
	}
	return n
}

// Serialize implements rangedb.RecordSerializer.
func (c *Codec) Serialize(r *rangedb.Record) ([]byte, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Fail != nil && c.Fail("ser") {
		return nil, ErrCodec
	}
	c.recs = append(c.recs, c.copyRec(r))
	n := len(c.recs)
	return []byte{0xEE, byte(n >> 8), byte(n)}, nil
}

// Deserialize implements rangedb.RecordSerializer.
func (c *Codec) Deserialize(b []byte) (*rangedb.Record, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Calls++
	if c.Fail != nil && c.Fail("des") {
		return nil, ErrCodec
	}
	if len(b) != 3 || b[0] != 0xEE {
		return nil, fmt.Errorf("codec: unknown data")
	}
	n := int(b[1])<<8 | int(b[2])
	if n < 1 || n > len(c.recs) {
		return nil, fmt.Errorf("codec: unknown record")
	}
	r := c.copyRec(&c.recs[n-1])
	return &r, nil
}

// Bind implements rangedb.RecordSerializer.
func (c *Codec) Bind(events ...rangedb.Event) {}

// Clock is a clock. It never gives a time twice, and goes back now and then.
type Clock struct {
	mu Mutex
	N  int64
}

// Now implements clock.Clock.
func (c *Clock) Now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.N++
	return time.Unix(1000000000+(c.N^3), 0)
}

// Gave reports whether the clock has given a time.
func (c *Clock) Gave(t uint64) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := int64(t-1000000000) ^ 3
	return n >= 1 && n <= c.N
}

// UUID is a counter.
type UUID struct {
	mu Mutex
	N  int
}

// New implements shortuuid.Generator.
func (u *UUID) New() string {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.N++
	return fmt.Sprintf("id-%d", u.N)
}

// Sink is a subscriber that remembers what it got.
type Sink struct {
	mu   Mutex
	Recs []*rangedb.Record
}

// Accept implements rangedb.RecordSubscriber.
func (s *Sink) Accept(r *rangedb.Record) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Recs = append(s.Recs, r)
}

// Get returns what arrived so far.
func (s *Sink) Get() []*rangedb.Record {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*rangedb.Record(nil), s.Recs...)
}

// Ref is the reference model.
type Ref struct {
	Last uint64 // last global sequence number assigned
	Recs []rangedb.Record
}

// Count is the number of events in a stream.
func (m *Ref) Count(stream string) uint64 {
	n := uint64(0)
	for i := range m.Recs {
		if m.Recs[i].StreamName == stream {
			n++
		}
	}
	return n
}

// Next is the stream sequence number that the next event of the stream gets:
// one more than the greatest present.
func (m *Ref) Next(stream string) uint64 { return m.Count(stream) + 1 }

// Append commits a batch.
func (m *Ref) Append(stream string, evs []*rangedb.EventRecord) {
	for _, e := range evs {
		n := m.Next(stream)
		m.Last++
		d := *(e.Event.(*Ev))
		m.Recs = append(m.Recs, rangedb.Record{StreamName: stream, AggregateType: e.Event.AggregateType(), AggregateID: e.Event.AggregateID(),
			GlobalSequenceNumber: m.Last, StreamSequenceNumber: n, EventType: e.Event.EventType(), Data: &d, Metadata: e.Metadata})
	}
}

// Delete removes a stream.
func (m *Ref) Delete(stream string) {
	var r []rangedb.Record
	for i := range m.Recs {
		if m.Recs[i].StreamName != stream {
			r = append(r, m.Recs[i])
		}
	}
	m.Recs = r
}

// Select returns the records that satisfy f, in order.
func (m *Ref) Select(f func(r *rangedb.Record) bool) []*rangedb.Record {
	var r []*rangedb.Record
	for i := range m.Recs {
		if f(&m.Recs[i]) {
			r = append(r, &m.Recs[i])
		}
	}
	return r
}

// Drain reads an iterator to its end.
func Drain(it rangedb.RecordIterator) ([]*rangedb.Record, error) {
	var r []*rangedb.Record
	for it.Next() {
		if it.Record() == nil {
			sym.Fail("iterator", "Next returned true without a record")
		}
		r = append(r, it.Record())
	}
	return r, it.Err()
}

// DrainCtx reads with NextContext.
func DrainCtx(ctx context.Context, it rangedb.RecordIterator) ([]*rangedb.Record, error) {
	var r []*rangedb.Record
	for it.NextContext(ctx) {
		r = append(r, it.Record())
	}
	return r, it.Err()
}

// SameNumbers compares the sequence numbers and streams.
func SameNumbers(got *rangedb.Record, want *rangedb.Record) bool {
	return sym.And(got.GlobalSequenceNumber == want.GlobalSequenceNumber, got.StreamSequenceNumber == want.StreamSequenceNumber)
}

// number is a number, perhaps after a way through JSON.
func number(x interface{}) (uint64, bool) {
	if f, ok := x.(float64); ok {
		return uint64(f), true
	}
	n, ok := x.(uint64)
	return n, ok
}

// Same compares everything but the event ID and the time.
func Same(got, want *rangedb.Record) bool {
	ok := sym.And(SameNumbers(got, want), sym.StrEq(got.StreamName, want.StreamName))
	ok = sym.And(ok, sym.And(sym.StrEq(got.AggregateType, want.AggregateType), sym.StrEq(got.AggregateID, want.AggregateID)))
	ok = sym.And(ok, sym.StrEq(got.EventType, want.EventType))
	g, ok1 := got.Data.(*Ev)
	w, ok2 := want.Data.(*Ev)
	if !ok1 || !ok2 {
		return false
	}
	ok = sym.And(ok, g.V == w.V)
	gm, ok1 := number(got.Metadata)
	wm, ok2 := number(want.Metadata)
	if ok1 != ok2 {
		return false
	}
	return sym.And(ok, gm == wm)
}

// SameList compares two lists.
func SameList(got, want []*rangedb.Record) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i := range got {
		ok = sym.And(ok, Same(got[i], want[i]))
	}
	return ok
}

// Desc describes a list.
func Desc(rs []*rangedb.Record) string {
	s := "["
	for _, r := range rs {
		s += fmt.Sprintf("%d/%s#%d ", r.GlobalSequenceNumber, r.StreamName, r.StreamSequenceNumber)
	}
	return s + "]"
}

type failingDecryptor struct {
	good int
	err  error
}

func (f *failingDecryptor) Encrypt(rangedb.Event) error { return nil }
func (f *failingDecryptor) Decrypt(rangedb.Event) error {
	f.good--
	if f.good < 0 {
		return f.err
	}
	return nil
}

// Undecryptable reads as an encrypted store does whose key store fails after
// good records.
func Undecryptable(it rangedb.RecordIterator, good int, err error) rangedb.RecordIterator {
	return encryptedstore.NewDecryptingRecordIterator(it, &failingDecryptor{good, err})
}

// LateContext is a context that is cancelled while it is used: once it was asked n times whether it is.
type LateContext struct {
	context.Context
	cancel context.CancelFunc
	n      int
	mu     Mutex
}

// Late makes a LateContext.
func Late(n int) *LateContext {
	ctx, cancel := context.WithCancel(context.Background())
	return &LateContext{Context: ctx, cancel: cancel, n: n}
}

func (l *LateContext) look() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n == 0 {
		l.cancel()
	}
	l.n--
}

// Err implements context.Context.
func (l *LateContext) Err() error {
	l.look()
	return l.Context.Err()
}

// Done implements context.Context.
func (l *LateContext) Done() <-chan struct{} {
	l.look()
	return l.Context.Done()
}

// Cancel cancels it now.
func (l *LateContext) Cancel() { l.cancel() }

// Plain is an event of a fixed type.
type Plain struct{ V uint64 }

func (Plain) AggregateID() string   { return "1" }
func (Plain) AggregateType() string { return "p" }
func (Plain) EventType() string     { return "Plain" }
