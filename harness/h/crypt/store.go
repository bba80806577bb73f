package crypt

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"

	"verif/h/kit"
	"verif/sym"
)

type signed = cryptotest.CustomerSignedUp
type birth = cryptotest.CustomerAddedBirth

func copyEvent(d interface{}) interface{} {
	switch e := d.(type) {
	case *signed:
		n := *e
		return &n
	case *birth:
		n := *e
		return &n
	case *kit.Ev:
		n := *e
		return &n
	}
	return d
}

// secret is personal data whose bytes never occur in base64 text.
func secret(n int) string {
	s := sym.Str("secret", n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < ' ')
	}
	return s
}

func base64Only(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '+' || c == '/' || c == '=') {
			return false
		}
	}
	return true
}

func sameEvent(a, b interface{}) bool {
	switch x := a.(type) {
	case *signed:
		y, ok := b.(*signed)
		return ok && x.ID == y.ID && sym.And(sym.StrEq(x.Name, y.Name), sym.StrEq(x.Email, y.Email)) && x.Status == y.Status
	case *birth:
		y, ok := b.(*birth)
		return ok && x.ID == y.ID && sym.And(x.BirthMonth == y.BirthMonth, x.BirthYear == y.BirthYear) && x.BirthMonthEncrypted == y.BirthMonthEncrypted && x.BirthYearEncrypted == y.BirthYearEncrypted
	case *kit.Ev:
		y, ok := b.(*kit.Ev)
		return ok && *x == *y
	}
	return false
}

type encSys struct {
	keys   *keySys
	codec  *kit.Codec
	parent rangedb.Store
	engine crypto.Encryptor
	enc    crypto.EventEncryptor
	st     rangedb.Store
	dead   map[string]bool
	saved  []rangedb.Event // the events as they were given, in order
	stream []string
	count  map[string]uint64
}

func newEncSys(kind, engine int) *encSys {
	s := &encSys{keys: newKeySys(kind), codec: &kit.Codec{Copy: copyEvent}, dead: map[string]bool{}, count: map[string]uint64{}}
	s.parent = inmemorystore.New(inmemorystore.WithClock(&kit.Clock{}), inmemorystore.WithSerializer(s.codec), inmemorystore.WithUUIDGenerator(&kit.UUID{}))
	s.engine = aes.NewGCM()
	if engine == 1 {
		s.engine = xchacha20poly1305.New()
	}
	s.open()
	return s
}

func (s *encSys) open() {
	s.enc = eventencryptor.New(s.keys.st, s.engine)
	s.st = encryptedstore.New(s.parent, s.enc)
}

var bg = context.Background()

// newEvent makes an event of one of the kinds.
func newEvent(kind int, id string) rangedb.Event {
	switch kind {
	case 0:
		return &signed{ID: id, Name: secret(2), Email: secret(1), Status: "active"}
	case 1:
		m, y := sym.Int("month", 1, 12), sym.Int("year", 10, 99)
		return &birth{ID: id, BirthMonth: m, BirthYear: y}
	case 2:
		return &signed{ID: id, Name: "", Email: secret(1), Status: ""}
	}
	return &kit.Ev{Type: "customer", ID: id, ET: "plain", V: 7}
}

func personal(e rangedb.Event) bool {
	_, plain := e.(*kit.Ev)
	return !plain
}

// save saves events of one subject, and checks what the caller keeps.
func (s *encSys) save(optimistic, conflict bool, evs ...rangedb.Event) error {
	id := evs[0].AggregateID()
	stream := rangedb.GetEventStream(evs[0])
	var before []rangedb.Event
	var recs []*rangedb.EventRecord
	for _, e := range evs {
		before = append(before, copyEvent(e).(rangedb.Event))
		recs = append(recs, &rangedb.EventRecord{Event: e})
	}
	var n uint64
	var err error
	if optimistic {
		want := s.count[stream]
		if conflict {
			want++
		}
		n, err = s.st.OptimisticSave(bg, want, stream, recs...)
	} else {
		n, err = s.st.Save(bg, stream, recs...)
	}
	for i, e := range evs {
		sym.Assert(recs[i].Event == e, "caller", "saving replaces the caller's event")
		sym.Assert(sameEvent(e, before[i]), "caller", "saving changes the caller's event")
	}
	anyPersonal := false
	for _, e := range evs {
		anyPersonal = anyPersonal || personal(e)
	}
	switch {
	case s.dead[id] && anyPersonal:
		sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted), "deleted", "saving personal data of a subject whose key was deleted: "+sym.Err(err))
	case conflict:
		sym.Assert(err != nil, "conflict", "a conflicting save succeeds")
	default:
		sym.Assert(err == nil, "save", "saving fails: "+sym.Err(err))
		s.count[stream] += uint64(len(evs))
		sym.Assert(n == s.count[stream], "number", "saving gives another stream sequence number")
		s.saved = append(s.saved, before...)
		for range evs {
			s.stream = append(s.stream, stream)
		}
	}
	return err
}

// redacted is what readers get of an event.
func (s *encSys) redacted(e rangedb.Event) rangedb.Event {
	if !s.dead[e.AggregateID()] {
		return e
	}
	switch x := copyEvent(e).(type) {
	case *signed:
		x.Name, x.Email = "", ""
		return x
	case *birth:
		x.BirthMonth, x.BirthYear = 0, 0
		return x
	}
	return e
}

func (s *encSys) checkRecord(what string, r *rangedb.Record, k int) {
	want := s.redacted(s.saved[k])
	got := r.Data
	if b, ok := got.(*birth); ok && s.dead[b.ID] {
		sym.Assert(base64Only(b.BirthMonthEncrypted) && base64Only(b.BirthYearEncrypted), "redact", what+": personal data of a deleted subject is readable")
		c := *b
		c.BirthMonthEncrypted, c.BirthYearEncrypted = "", ""
		got = &c
	}
	if !sameEvent(got, want) {
		if s.dead[s.saved[k].AggregateID()] {
			sym.Fail("redact", fmt.Sprintf("%s: event %d of a subject whose key was deleted is not the redacted event", what, k))
		}
		sym.Fail("read", fmt.Sprintf("%s: event %d differs from the saved one", what, k))
	}
	sym.Assert(r.StreamName == s.stream[k] && r.AggregateID == s.saved[k].AggregateID() && r.EventType == s.saved[k].EventType(), "fields", what+": a record's fields differ")
}

// checkReads reads everything in every way.
func (s *encSys) checkReads() {
	all := func(what string, it rangedb.RecordIterator, stream string) {
		k := 0
		ctxNext := sym.Choose("next", 2) == 1
		for {
			if ctxNext {
				if !it.NextContext(bg) {
					break
				}
			} else if !it.Next() {
				break
			}
			for k < len(s.saved) && stream != "" && s.stream[k] != stream {
				k++
			}
			sym.Assert(k < len(s.saved), "extra", what+": more records than were saved")
			r := it.Record()
			if r == nil {
				sym.Fail("read", what+": a record is missing: "+sym.Err(it.Err()))
			}
			s.checkRecord(what, r, k)
			again := it.Record()
			if again == nil {
				sym.Fail("again", what+": asking for the record again gives none: "+sym.Err(it.Err()))
			}
			s.checkRecord(what+" (asked again)", again, k)
			sym.Assert(it.Err() == nil, "err", what+": reading reports "+sym.Err(it.Err()))
			k++
		}
		for k < len(s.saved) && stream != "" && s.stream[k] != stream {
			k++
		}
		sym.Assert(it.Err() == nil, "err", what+": reading ends with "+sym.Err(it.Err()))
		sym.Assert(k == len(s.saved), "missing", what+": not all records are read")
	}
	switch sym.Choose("read", 3) {
	case 0:
		all("Events", s.st.Events(bg, 0), "")
	case 1:
		all("EventsByAggregateTypes", s.st.EventsByAggregateTypes(bg, 0, "customer"), "")
	case 2:
		if s.count["customer!a"] == 0 {
			break
		}
		all("EventsByStream", s.st.EventsByStream(bg, 0, "customer!a"), "customer!a")
	}
	// what the parent stores
	raw, err := kit.Drain(s.parent.Events(bg, 0))
	sym.Assert(err == nil && len(raw) == len(s.saved), "raw", "the parent store has another number of records")
	for k, r := range raw {
		switch e := r.Data.(type) {
		case *signed:
			sym.Assert(base64Only(e.Name) && base64Only(e.Email) && e.Name != "" && e.Email != "", "plaintext", "the parent store has personal data that is not encrypted")
			sym.Assert(e.Status == s.saved[k].(*signed).Status, "fields", "encryption changes other data")
		case *birth:
			sym.Assert(e.BirthMonth == 0 && e.BirthYear == 0 && e.BirthMonthEncrypted != "" && e.BirthYearEncrypted != "", "plaintext", "the parent store has personal numbers that are not encrypted")
			sym.Assert(len(e.BirthMonthEncrypted) > 20 && len(e.BirthYearEncrypted) > 20, "plaintext", "the parent store has personal numbers that are not encrypted")
		}
	}
}

// Store: histories of saves, conflicts with retries, and deletions of keys, against reads of every kind.
func Store() {
	s := newEncSys(sym.Choose("keys", 2), sym.Param("engine", 0))
	ids := []string{"a", "b"}
	ops := sym.Param("ops", 3)
	deletes := sym.Param("deletes", 0)
	for i := 0; i < ops; i++ {
		id := ids[sym.Choose("id", 2)]
		kind := sym.Choose("kind", 4)
		switch sym.Choose("op", 3+deletes) {
		case 0:
			s.save(false, false, newEvent(kind, id))
		case 1: // a conflict, then a retry with the same event
			e := newEvent(kind, id)
			s.save(true, true, e)
			s.save(true, false, e)
			sym.Reach("retry")
		case 2: // a batch, with the same event twice
			e := newEvent(kind, id)
			s.save(sym.Choose("optimistic", 2) == 1, false, e, newEvent(3, id), e)
			sym.Reach("batch")
		case 3:
			if err := s.keys.st.Delete(id); err != nil {
				sym.Fail("delete", sym.Err(err))
			}
			s.dead[id] = true
			if sym.Choose("restart", 2) == 1 {
				s.keys.restart()
				s.open()
			}
			sym.Reach("deleted")
		}
	}
	s.checkReads()
	sym.Reach("end")
}

// copies remembers the records as they are when they arrive.
type copies struct {
	mu   kit.Mutex
	recs []*rangedb.Record
}

func (c *copies) Accept(r *rangedb.Record) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := *r
	n.Data = copyEvent(r.Data)
	c.recs = append(c.recs, &n)
}

// Subscribers get every event decrypted, or redacted after the deletion of its key; several of them do not disturb
// each other.
func Subscribers() {
	s := newEncSys(0, 0)
	n := sym.Param("subscribers", 2)
	early := sym.Choose("early", 2)
	ctx, cancel := context.WithCancel(bg)
	var sinks []*copies
	parentSink := &copies{}
	if sym.Param("parent", 1) == 1 {
		sub := s.parent.AllEventsSubscription(ctx, 10, parentSink)
		if err := sub.StartFrom(0); err != nil {
			sym.Fail("start", sym.Err(err))
		}
	}
	start := func(k int) {
		c := &copies{}
		sinks = append(sinks, c)
		var sub rangedb.RecordSubscription
		if k%2 == 0 {
			sub = s.st.AllEventsSubscription(ctx, 10, c)
		} else {
			sub = s.st.AggregateTypesSubscription(ctx, 10, c, "customer")
		}
		if err := sub.StartFrom(0); err != nil {
			sym.Fail("start", sym.Err(err))
		}
	}
	for k := 0; k < early; k++ {
		start(k)
	}
	for i := 0; i < sym.Param("ops", 2); i++ {
		s.save(false, false, newEvent(sym.Choose("kind", 4), "a"))
	}
	settle()
	if sym.Choose("delete", 2) == 1 {
		if err := s.keys.st.Delete("a"); err != nil {
			sym.Fail("delete", sym.Err(err))
		}
		for _, c := range sinks {
			s.checkSink(c, "a subscriber before the deletion")
		}
		s.dead["a"] = true
		start(n)
		settle()
		s.checkSink(sinks[len(sinks)-1], "a subscriber after the deletion")
		sym.Reach("deleted")
	} else {
		for k := early; k < n; k++ {
			start(k)
		}
		s.save(false, false, newEvent(0, "b"))
		settle()
		for _, c := range sinks {
			s.checkSink(c, "a subscriber")
		}
		sym.Reach("live")
	}
	if sym.Param("parent", 1) == 1 {
		sym.Assert(len(parentSink.recs) == len(s.saved), "parent-missing", "a subscriber of the parent got another number of records")
		for _, r := range parentSink.recs {
			checkHidden("a subscriber of the parent store", r.Data)
		}
	}
	cancel()
	settle()
}

// checkHidden: an event of the parent store is not readable.
func checkHidden(what string, data interface{}) {
	switch e := data.(type) {
	case *signed:
		sym.Assert(base64Only(e.Name) && base64Only(e.Email) && e.Name != "" && e.Email != "", "plaintext", what+" has personal data that is not encrypted")
	case *birth:
		sym.Assert(e.BirthMonth == 0 && e.BirthYear == 0 && len(e.BirthMonthEncrypted) > 20 && len(e.BirthYearEncrypted) > 20, "plaintext", what+" has personal numbers that are not encrypted")
	}
}

func settle() {
	for i := 0; i < 3; i++ {
		time.Sleep(time.Second)
		sym.Quiesce()
	}
}

func (s *encSys) checkSink(c *copies, what string) {
	sym.Assert(len(c.recs) == len(s.saved), "missing", what+" got another number of records")
	for k, r := range c.recs {
		s.checkRecord(what, r, k)
	}
}
