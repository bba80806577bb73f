// Package web checks the HTTP API: what a client sees is what the store has.
package web

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"

	"verif/h/kit"
	"verif/sym"
)

// Thing is an event.
type Thing struct {
	ID   string `json:"id"`
	Kind string `json:"kind"`
	N    uint64 `json:"n"`
	T    string `json:"t"`
}

// AggregateID implements rangedb.Event.
func (e Thing) AggregateID() string { return e.ID }

// AggregateType implements rangedb.Event.
func (e Thing) AggregateType() string { return e.Kind }

// EventType implements rangedb.Event.
func (e Thing) EventType() string { return "Thing" }

// response remembers what a handler answers.
type response struct {
	header http.Header
	status int
	body   bytes.Buffer
	abort  bool

	panicked bool // for another reason than to abort the response
}

func (w *response) Header() http.Header { return w.header }

func (w *response) WriteHeader(status int) {
	if w.status == 0 {
		w.status = status
	}
}

func (w *response) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.body.Write(b)
}

func request(h http.Handler, method, path, body string, header ...string) *response {
	r := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body))), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "h"}
	for i := 0; i+1 < len(header); i += 2 {
		r.Header.Set(header[i], header[i+1])
	}
	w := &response{header: http.Header{}}
	func() {
		defer func() {
			if p := recover(); p != nil {
				w.abort = true
				w.panicked = p != http.ErrAbortHandler
			}
		}()
		h.ServeHTTP(w, r)
	}()
	w.WriteHeader(200)
	return w
}

func newStore() rangedb.Store {
	s := inmemorystore.New(inmemorystore.WithClock(&kit.Clock{}), inmemorystore.WithUUIDGenerator(&kit.UUID{}), inmemorystore.WithSerializer(jsonrecordserializer.New()))
	s.Bind(&Thing{})
	return s
}

func newAPI(st rangedb.Store) http.Handler {
	a, err := rangedbapi.New(rangedbapi.WithStore(st))
	sym.Assert(err == nil, "new", "the API does not start: "+sym.Err(err))
	return a
}

func save(st rangedb.Store, kind string, n int) {
	for i := 0; i < n; i++ {
		_, err := st.Save(context.Background(), kind+"!1", &rangedb.EventRecord{Event: &Thing{ID: "1", Kind: kind, N: uint64(i)}})
		sym.Assert(err == nil, "harness", "saving fails")
	}
}

var extensions = []string{"json", "ndjson", "msgpack"}

// parse reads a body as a client does.
func parse(ext string, body []byte) ([]*rangedb.Record, error) {
	var st rangedb.RecordIoStream
	switch ext {
	case "json":
		st = jsonrecordiostream.New()
	case "ndjson":
		st = ndjsonrecordiostream.New()
	default:
		b, err := base64.RawStdEncoding.DecodeString(string(body))
		if err != nil {
			return nil, err
		}
		body, st = b, msgpackrecordiostream.New()
	}
	return kit.Drain(st.Read(bytes.NewReader(body)))
}

// Read: all events, those of a stream and those of aggregate types are served
// as they are stored, in every format.
func Read() {
	st := newStore()
	save(st, "a", sym.Param("records", 2))
	save(st, "b2", 1)
	api := newAPI(st)
	ext := extensions[sym.Choose("format", 3)]
	ctx := context.Background()
	var path string
	var it rangedb.RecordIterator
	switch sym.Choose("query", 4) {
	case 0:
		path, it = "/all-events", st.Events(ctx, 0)
	case 1:
		path, it = "/events-by-stream/a!1", st.EventsByStream(ctx, 0, "a!1")
	case 2:
		path, it = "/events-by-aggregate-type/b2", st.EventsByAggregateTypes(ctx, 0, "b2")
	case 3:
		path, it = "/events-by-aggregate-type/b2,a", st.EventsByAggregateTypes(ctx, 0, "b2", "a")
	}
	want, err := kit.Drain(it)
	sym.Assert(err == nil, "harness", "reading fails")
	w := request(api, "GET", path+"."+ext, "")
	sym.Assert(w.status == 200 && !w.abort, "status", "a read is refused")
	got, err := parse(ext, w.body.Bytes())
	sym.Assert(err == nil, "body", "a response cannot be read: "+sym.Err(err))
	sym.Assert(len(got) == len(want), "records", "records are missing or added")
	for i := range want {
		sym.Assert(kit.SameNumbers(got[i], want[i]), "records", "another record is served")
	}
	sym.Reach("end")
}

func clean(s string) string {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func all(st rangedb.Store) []*rangedb.Record {
	rs, err := kit.Drain(st.Events(context.Background(), 0))
	sym.Assert(err == nil, "harness", "reading fails")
	return rs
}

const (
	jsonType = "application/json"
	expected = "ExpectedStreamSequenceNumber"
)

// Content: an event saved by HTTP is what the client sent, with all its numbers and texts.
func Content() {
	st := newStore()
	api := newAPI(st)
	n, t := uint64(7), "t"
	if sym.Choose("value", 2) == 0 {
		n = sym.U64("n")
	} else {
		t = clean(sym.Str("t", sym.Param("text", 2)))
	}
	bound := sym.Choose("bound", 2) == 1
	typ := "Free"
	if bound {
		typ = "Thing"
	}
	body, err := json.Marshal([]map[string]interface{}{{"aggregateType": "a", "aggregateID": "1", "eventType": typ,
		"data": map[string]interface{}{"id": "1", "kind": "a", "n": n, "t": t}, "metadata": map[string]interface{}{"n": n, "t": t}}})
	sym.Assert(err == nil, "harness", "encoding fails")
	w := request(api, "POST", "/save-events/a!1", string(body), "Content-Type", jsonType)
	sym.Assert(!w.abort && w.status == 201, "status", "a well-formed request is refused")
	sym.Assert(w.body.String() == `{"status":"OK","streamSequenceNumber":1}`, "response", "the response does not say where the event was saved")
	rs := all(st)
	sym.Assert(len(rs) == 1, "saved", "the event is not saved once")
	r := rs[0]
	sym.Assert(r.StreamName == "a!1" && r.AggregateType == "a" && r.AggregateID == "1" && r.EventType == typ, "saved", "the event is saved with other names")
	if bound {
		d, ok := r.Data.(*Thing)
		sym.Assert(ok && d.N == n && sym.StrEq(d.T, t), "data", "the event is not saved as it was sent")
	} else {
		sym.Assert(sameMap(r.Data, n, t), "data", "the event is not saved as it was sent")
	}
	sym.Assert(sameMap(r.Metadata, n, t), "metadata", "the metadata are not saved as they were sent")
	sym.Reach("end")
}

func sameMap(v interface{}, n uint64, t string) bool {
	m, ok := v.(map[string]interface{})
	if !ok {
		return false
	}
	num, ok1 := m["n"].(json.Number)
	text, ok2 := m["t"].(string)
	if !ok1 || !ok2 || !sym.StrEq(text, t) {
		return false
	}
	u, err := strconv.ParseUint(string(num), 10, 64)
	return err == nil && u == n
}

// words are JSON values, and some that are not, longer than the symbolic ones.
var words = []string{"null", "true", "[]", "{}", `"x"`, "[null]", `{"a":null}`, `{"":{}}`, "1e400", "-0", "1.50", "nul", "[1,]"}

// Malformed: whatever the body is, it is saved as a whole or refused as a whole.
func Malformed() {
	st := newStore()
	api := newAPI(st)
	n := sym.Param("len", 2)
	good := `{"aggregateType":"a","aggregateID":"1","eventType":"X","data":{"k":1}}`
	body, count := "", 1
	s := ""
	if k := sym.Choose("len", n+1+len(words)); k <= n {
		s = clean(sym.Str("s", k))
	} else {
		s = words[k-n-1]
	}
	switch sym.Choose("part", 6) {
	case 0:
		body, count = s, 0
	case 1:
		body = `[{"aggregateType":"a","aggregateID":"1","eventType":"X","data":` + s + `}]`
	case 2:
		body = `[{"aggregateType":"a","aggregateID":"1","eventType":"X","data":1,"metadata":` + s + `}]`
	case 3:
		body, count = "["+good+`,{"aggregateType":"a","aggregateID":"1","eventType":"X","data":`+s+`}]`, 2
	case 4:
		body = "[" + good + "]" + s
	case 5:
		body = "[" + good + s
	}
	w := request(api, "POST", "/save-events/a!1", body, "Content-Type", jsonType)
	sym.Assert(!w.abort, "panic", "the API panics")
	rs := all(st)
	if !json.Valid([]byte(body)) {
		sym.Assert(w.status == 400, "accepted", "a malformed body is not refused as a bad request")
	}
	if w.status != 201 {
		sym.Assert(w.status >= 400, "status", "a failed request looks successful")
		sym.Assert(len(rs) == 0, "partly", "a refused request leaves events behind")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(rs) == count, "saved", "not all events are saved")
	if s == "null" || s == "[null]" || s == `{"a":null}` || s == "1.50" {
		for _, r := range rs {
			v := r.Data
			if b, ok := v.(map[string]interface{}); ok && b["k"] != nil {
				continue // the good one
			}
			if b, ok := v.(json.Number); ok && string(b) == "1" {
				v = r.Metadata
			}
			b, err := json.Marshal(v)
			sym.Assert(err == nil && (string(b) == s || s == "1.50" && string(b) == "1.5"), "value", "an event is saved as another one")
		}
	}
	sym.Reach("saved")
}

// Optimistic: the expected sequence number of a save or a deletion is obeyed,
// and conflicts and missing streams have their own status.
func Optimistic() {
	st, direct := newStore(), newStore()
	n := sym.Choose("stored", 3)
	save(st, "a", n)
	save(direct, "a", n)
	api := newAPI(st)
	var h string
	if sym.Choose("number", 2) == 0 {
		h = strconv.FormatUint(sym.U64("n"), 10)
	} else {
		h = clean(sym.Str("h", sym.Choose("len", 3)))
	}
	exp, perr := strconv.ParseUint(h, 10, 64)
	ctx := context.Background()
	var err error
	var w *response
	var last uint64
	del := sym.Choose("delete", 2) == 1
	if del {
		if h == "" {
			exp, perr = 0, nil
		}
		w = request(api, "POST", "/delete-stream/a!1", "", expected, h)
		if perr == nil {
			err = direct.OptimisticDeleteStream(ctx, exp, "a!1")
		}
	} else {
		w = request(api, "POST", "/save-events/a!1", `[{"aggregateType":"a","aggregateID":"1","eventType":"X","data":{}}]`, "Content-Type", jsonType, expected, h)
		e := &rangedb.EventRecord{Event: rangedb.NewRawEvent("a", "1", "X", map[string]interface{}{})}
		if h == "" {
			last, err = direct.Save(ctx, "a!1", e)
			perr = nil
		} else if perr == nil {
			last, err = direct.OptimisticSave(ctx, exp, "a!1", e)
		}
	}
	sym.Assert(!w.abort, "panic", "the API panics")
	_, conflict := err.(*rangedberror.UnexpectedSequenceNumber)
	switch {
	case perr != nil:
		sym.Assert(w.status == 400, "invalid", "an invalid expected sequence number is not refused as a bad request")
		sym.Reach("invalid")
	case conflict:
		sym.Assert(w.status == 409, "conflict", "a conflict is not reported as one")
		sym.Reach("conflict")
	case err == rangedb.ErrStreamNotFound:
		sym.Assert(w.status == 404, "missing", "a missing stream is not reported as one")
		sym.Reach("missing")
	case err != nil:
		sym.Assert(w.status >= 400, "error", "a failure looks like success")
	case del:
		sym.Assert(w.status == 200, "deleted", "a deletion is refused")
		sym.Reach("deleted")
	default:
		sym.Assert(w.status == 201 && w.body.String() == fmt.Sprintf(`{"status":"OK","streamSequenceNumber":%d}`, last), "saved", "a save is refused, or its answer is another number")
		sym.Reach("saved")
	}
	got, want := all(st), all(direct)
	sym.Assert(len(got) == len(want), "state", "the store is not in the state that the answer tells")
	for i := range want {
		sym.Assert(kit.SameNumbers(got[i], want[i]), "state", "the store is not in the state that the answer tells")
	}
}

// failing is a store of which reads fail after some records.
type failing struct {
	rangedb.Store
	good int
	err  error
	on   bool
	late bool // as an encrypted store fails to decrypt
}

func (f *failing) cut(it rangedb.RecordIterator) rangedb.RecordIterator {
	if !f.on {
		return it
	}
	if f.late {
		return kit.Undecryptable(it, f.good, f.err)
	}
	c := make(chan rangedb.ResultRecord, 10)
	rs, _ := kit.Drain(it)
	for i, r := range rs {
		if i == f.good {
			break
		}
		c <- rangedb.ResultRecord{Record: r}
	}
	c <- rangedb.ResultRecord{Err: f.err}
	close(c)
	return rangedb.NewRecordIterator(c)
}

func (f *failing) Events(ctx context.Context, n uint64) rangedb.RecordIterator {
	return f.cut(f.Store.Events(ctx, n))
}

func (f *failing) EventsByStream(ctx context.Context, n uint64, s string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByStream(ctx, n, s))
}

func (f *failing) EventsByAggregateTypes(ctx context.Context, n uint64, t ...string) rangedb.RecordIterator {
	return f.cut(f.Store.EventsByAggregateTypes(ctx, n, t...))
}

// ReadError: a response with only a part of a history does not look complete.
func ReadError() {
	st := newStore()
	save(st, "a", 2)
	f := &failing{Store: st, good: sym.Choose("good", 3), err: []error{errors.New("disk failure"), rangedb.ErrStreamNotFound}[sym.Choose("error", 2)]}
	f.late = f.good < 2 && sym.Choose("late", 2) == 1
	api := newAPI(f)
	f.on = true
	path := []string{"/all-events", "/events-by-stream/a!1", "/events-by-aggregate-type/a"}[sym.Choose("query", 3)]
	ext := extensions[sym.Choose("format", 3)]
	w := request(api, "GET", path+"."+ext, "")
	sym.Assert(!w.panicked, "panic", "a read that fails makes the API panic")
	if !w.abort && w.status == 200 {
		_, err := parse(ext, w.body.Bytes())
		sym.Assert(err != nil, "read-error", fmt.Sprintf("a history that fails after %d of 2 records is served as a complete one (%s)", f.good, ext))
	}
	sym.Reach("end")
}

// List: the list of aggregate types has all of them with their numbers of
// events, and their links lead to those events.
func List() {
	st := newStore()
	kinds := []string{"a", "b2", "c-d", "e_f", "g.h", "ab"}
	k1, k2 := sym.Choose("kind", len(kinds)), sym.Choose("kind", len(kinds))
	early := sym.Choose("early", 3)
	save(st, kinds[k1], early)
	a, err := rangedbapi.New(rangedbapi.WithStore(st), rangedbapi.WithBaseUri("http://h"))
	sym.Assert(err == nil, "new", "the API does not start: "+sym.Err(err))
	settle()
	save(st, kinds[k2], 1)
	settle()
	want := map[string]uint64{kinds[k2]: 1}
	if early > 0 {
		want[kinds[k1]] += uint64(early)
	}
	w := request(a, "GET", "/list-aggregate-types", "")
	var res struct {
		Data []struct {
			Name        string            `json:"name"`
			TotalEvents uint64            `json:"totalEvents"`
			Links       map[string]string `json:"links"`
		} `json:"data"`
		TotalEvents uint64 `json:"totalEvents"`
	}
	sym.Assert(w.status == 200 && json.Unmarshal(w.body.Bytes(), &res) == nil, "list", "the list cannot be read")
	sym.Assert(len(res.Data) == len(want) && res.TotalEvents == uint64(early+1), "list", "the list has other aggregate types or another total")
	for _, d := range res.Data {
		sym.Assert(want[d.Name] == d.TotalEvents, "list", "the list has another number of events")
		u, err := url.Parse(d.Links["self"])
		sym.Assert(err == nil && u.Host == "h", "link", "a link is not a URL")
		got, err := parse("json", request(a, "GET", u.Path, "").body.Bytes())
		sym.Assert(err == nil && len(got) == int(d.TotalEvents), "link", "the link of "+d.Name+" does not lead to its events")
	}
	sym.Reach("end")
}

func settle() {
	for i := 0; i < 4; i++ {
		time.Sleep(time.Millisecond)
		sym.Quiesce()
	}
}
