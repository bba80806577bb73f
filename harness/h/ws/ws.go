// Package ws checks the web-socket API: what a client receives is what the
// store has, in order, and a connection that can bring nothing more is closed.
package ws

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strconv"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"github.com/inklabs/rangedb/provider/inmemorystore"

	"verif/h/kit"
	"verif/mws"
	"verif/sym"
)

// Thing is an event.
type Thing struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	N    uint64 `json:"n"`
	T    string `json:"t"`
}

// AggregateID implements rangedb.Event.
func (e Thing) AggregateID() string { return e.ID }

// AggregateType implements rangedb.Event.
func (e Thing) AggregateType() string { return e.Kind }

// EventType implements rangedb.Event.
func (e Thing) EventType() string { return "Thing" }

func newStore() rangedb.Store {
	s := inmemorystore.New(inmemorystore.WithClock(&kit.Clock{}), inmemorystore.WithUUIDGenerator(&kit.UUID{}), inmemorystore.WithSerializer(&kit.Codec{}))
	s.Bind(&Thing{})
	return s
}

type handler = http.Handler

type api interface {
	handler
	Stop()
}

func newAPI(st rangedb.Store) api {
	a, err := rangedbws.New(rangedbws.WithStore(st))
	sym.Assert(err == nil, "new", "the API does not start: "+sym.Err(err))
	return a
}

func settle() {
	for i := 0; i < 5; i++ {
		time.Sleep(time.Millisecond)
		sym.Quiesce()
	}
}

func save(st rangedb.Store, kind string, n int) {
	for i := 0; i < n; i++ {
		_, err := st.Save(context.Background(), kind+"!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: kind, N: uint64(i)}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
}

// parse reads a frame as a client does.
func parse(b []byte) *rangedb.Record {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	r := &rangedb.Record{}
	err := d.Decode(r)
	sym.Assert(err == nil && !d.More(), "frame", "a frame is not one record")
	return r
}

func sameHead(got, want *rangedb.Record) bool {
	return kit.SameNumbers(got, want) && got.StreamName == want.StreamName && got.AggregateType == want.AggregateType && got.AggregateID == want.AggregateID && got.EventID == want.EventID && got.EventType == want.EventType && got.InsertTimestamp == want.InsertTimestamp
}

// Content: a frame has the whole of its record.
func Content() {
	st := newStore()
	api := newAPI(st)
	n, text := sym.U64("n"), sym.Str("text", sym.Choose("len", 1+sym.Param("text", 1)))
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] < 0x80)
	}
	live := sym.Choose("live", 2) == 1
	put := func() {
		_, err := st.Save(context.Background(), "a!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: "a", N: n, T: text}, Metadata: map[string]interface{}{"m": n}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
	if !live {
		put()
	}
	c := dial(api, "/events", "")
	settle()
	sym.Assert(c.Status() == 101, "upgrade", "the connection is refused")
	go c.read()
	if live {
		put()
	}
	settle()
	got, ended, _ := c.state()
	sym.Assert(len(got) == 1 && !ended, "delivered", "the record is not delivered")
	want, err := kit.Drain(st.Events(context.Background(), 0))
	sym.Assert(err == nil && len(want) == 1, "harness", "reading fails")
	r := parse(got[0])
	sym.Assert(sameHead(r, want[0]), "frame", "another record is delivered")
	data, ok := r.Data.(map[string]interface{})
	sym.Assert(ok && len(data) == 4 && data["id"] == "1" && data["kind"] == "a", "data", "the data is another")
	dn, ok := data["n"].(json.Number)
	sym.Assert(ok && sym.StrEq(string(dn), strconv.FormatUint(n, 10)), "number", "a number is another")
	dt, ok := data["t"].(string)
	sym.Assert(ok && sym.StrEq(dt, text), "text", "a text is another")
	meta, ok := r.Metadata.(map[string]interface{})
	sym.Assert(ok && len(meta) == 1, "metadata", "the metadata is another")
	mn, ok := meta["m"].(json.Number)
	sym.Assert(ok && sym.StrEq(string(mn), strconv.FormatUint(n, 10)), "metadata", "the metadata is another")
	sym.Reach("end")
}

// Subscribe: from the start point on, every record of the aggregate types
// asked for arrives once and in order, also while others are saved.
func Subscribe() {
	st := newStore()
	conc := sym.Param("concurrent", 0)
	stored := sym.Param("long", 0)
	if stored == 0 {
		stored = sym.Choose("stored", 3-conc)
	}
	save(st, "a", stored)
	api := newAPI(st)
	settle()
	from := uint64(0)
	query := ""
	if conc == 0 {
		if k := sym.Choose("digits", sym.Param("digits", 2)+1); k > 0 {
			s := sym.Str("from", k)
			for i := 0; i < k; i++ {
				sym.Assume(s[i] == '-' || s[i] == '.' || s[i] == '_' || s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'f')
			}
			query = "global-sequence-number=" + s
			v, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				c := dial(api, "/events", query)
				settle()
				sym.Assert(c.Status() == 400, "invalid", "an invalid start point is accepted")
				sym.Reach("invalid")
				return
			}
			from = v
		}
	} else if k := sym.Choose("from", 3); k > 0 {
		from = uint64(k)
		query = "global-sequence-number=" + strconv.Itoa(k)
	}
	var types []string
	path := "/events"
	switch sym.Choose("types", 4) {
	case 1:
		types, path = []string{"a"}, "/events/a"
	case 2:
		types, path = []string{"b2", "a"}, "/events/b2,a"
	case 3:
		types, path = []string{"b2"}, "/events/b2"
	}
	var c *client
	if conc == 1 {
		sym.SetSched("cfg")
	}
	c = dial(api, path, query)
	if conc == 0 {
		settle()
	}
	save(st, "a", 1)
	save(st, "b2", 1)
	sym.SetSched("det")
	settle()
	sym.Assert(c.Status() == 101, "upgrade", "the connection is refused")
	go c.read()
	settle()
	var want []*rangedb.Record
	all, err := kit.Drain(st.Events(context.Background(), 0))
	sym.Assert(err == nil, "harness", "reading fails")
	for _, rec := range all {
		ok := len(types) == 0
		for _, t := range types {
			ok = ok || rec.AggregateType == t
		}
		if ok && rec.GlobalSequenceNumber >= from {
			want = append(want, rec)
		}
	}
	got, ended, _ := c.state()
	sym.Assert(!ended, "ended", "the connection is closed without a reason")
	sym.Assert(len(got) == len(want), "delivered", fmt.Sprintf("%d records are delivered instead of %d", len(got), len(want)))
	for i, w := range want {
		sym.Assert(sameHead(parse(got[i]), w), "delivered", fmt.Sprintf("delivery %d is not the record that is due", i))
	}
	sym.Reach("end")
}

// failing is a store of which reads fail after some records.
type failing struct {
	rangedb.Store
	good int
	late bool // as an encrypted store fails to decrypt
}

type failed struct{}

func (failed) Error() string { return "failed" }

func (f *failing) Events(ctx context.Context, from uint64) rangedb.RecordIterator {
	if f.late {
		return kit.Undecryptable(f.Store.Events(ctx, from), f.good, failed{})
	}
	c := make(chan rangedb.ResultRecord, 10)
	rs, _ := kit.Drain(f.Store.Events(ctx, from))
	for i, r := range rs {
		if i == f.good {
			break
		}
		c <- rangedb.ResultRecord{Record: r}
	}
	c <- rangedb.ResultRecord{Err: failed{}}
	close(c)
	return rangedb.NewRecordIterator(c)
}

// End: a connection stays as long as it can bring records, and is closed when
// it cannot; what came before is complete, and nothing is left behind.
func End() {
	st := newStore()
	save(st, "a", 2)
	var a api
	way := sym.Choose("way", 5)
	good := 0
	if way == 4 {
		good = sym.Choose("good", 3)
		a = newAPI(&failing{Store: st, good: good, late: good < 2 && sym.Choose("late", 2) == 1})
	} else {
		a = newAPI(st)
	}
	settle()
	path := "/events"
	if way != 4 && sym.Choose("types", 2) == 1 {
		path = "/events/a"
	}
	c := dial(a, path, "")
	settle()
	sym.Assert(c.Status() == 101, "upgrade", "the connection is refused")
	go c.read()
	settle()
	got, ended, _ := c.state()
	n := 2
	if way == 4 {
		n = good
	} else {
		sym.Assert(!ended, "ended", "the connection is closed without a reason")
	}
	sym.Assert(len(got) == n, "delivered", "records are missing or added")
	save(st, "a", 1)
	settle()
	switch way {
	case 0: // nothing happens
		got, ended, _ = c.state()
		sym.Assert(!ended && len(got) == 3, "delivered", "records are missing or added")
		c.leave()
	case 1:
		c.leave()
	case 2:
		a.Stop()
	case 3: // a record that cannot be sent
		_, err := st.Save(context.Background(), "a!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: "a"}, Metadata: func() {}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
	settle()
	_, ended, returned := c.state()
	sym.Assert(ended, "silent-end", "the connection stays open and brings nothing more")
	sym.Assert(returned, "leak", "the handler of a closed connection does not return")
	save(st, "a", 1)
	settle()
	if way < 2 { // others go on
		c2 := dial(a, "/events/a", "global-sequence-number=4")
		settle()
		go c2.read()
		settle()
		got, ended, _ := c2.state()
		sym.Assert(!ended && len(got) == 1, "others", "another connection does not get what is due")
	}
	sym.Reach("end")
}

// Slow: a client that does not keep up gets a part without gaps, and then the
// connection is closed.
func Slow() {
	mws.Window = sym.Choose("window", 3)
	st := newStore()
	a := newAPI(st)
	path := "/events"
	if sym.Choose("types", 2) == 1 {
		path = "/events/a"
	}
	c := dial(a, path, "")
	fast := dial(a, path, "")
	settle()
	go fast.read()
	const n = 26
	for i := 0; i < n; i++ {
		save(st, "a", 1)
		settle()
	}
	time.Sleep(3 * time.Second)
	settle()
	go c.read()
	settle()
	time.Sleep(3 * time.Second)
	settle()
	check := func(c *client, all bool) {
		got, ended, _ := c.state()
		for i, b := range got {
			sym.Assert(parse(b).GlobalSequenceNumber == uint64(i+1), "gap", "a record is missing or comes twice")
		}
		sym.Assert(len(got) == n && !ended || len(got) < n && ended && !all, "silent-end", fmt.Sprintf("the connection brings %d of %d records (ended %v)", len(got), n, ended))
	}
	check(c, false)
	check(fast, true)
	sym.Reach("end")
}

// feed is a store of which subscriptions can be ended.
type feed struct {
	rangedb.Store
	subs []rangedb.RecordSubscription
}

func (f *feed) AllEventsSubscription(ctx context.Context, n int, s rangedb.RecordSubscriber) rangedb.RecordSubscription {
	sub := f.Store.AllEventsSubscription(ctx, n, s)
	f.subs = append(f.subs, sub)
	return sub
}

// FeedEnd: when the store's own feed ends, so do the connections.
func FeedEnd() {
	f := &feed{Store: newStore()}
	a := newAPI(f)
	c := dial(a, "/events", "")
	settle()
	go c.read()
	save(f, "a", 1)
	settle()
	for _, s := range f.subs {
		s.Stop()
	}
	settle()
	save(f, "a", 1)
	settle()
	got, ended, _ := c.state()
	sym.Assert(len(got) == 2 || len(got) == 1 && ended, "silent-end", "the connection stays open and brings nothing more")
	late := dial(a, "/events", "")
	settle()
	if late.Status() == 101 {
		go late.read()
	}
	save(f, "a", 1)
	settle()
	got, ended, _ = late.state()
	sym.Assert(late.Status() != 101 || ended || len(got) == 3, "silent-start", "a connection is accepted and brings nothing")
	a.Stop()
	sym.Reach("end")
}
