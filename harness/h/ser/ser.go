// Package ser checks record serializers and record streams.
package ser

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"

	"verif/sym"
)

// Inner is a part of an event.
type Inner struct {
	X  int16  `json:"x"`
	Tx string `json:"tx,omitempty"`
}

// Thing is an event with fields of many types.
type Thing struct {
	ID    string            `json:"id"`
	U     uint64            `json:"u"`
	I     int64             `json:"i"`
	B     bool              `json:"b"`
	Small uint8             `json:"small"`
	L     []string          `json:"l"`
	M     map[string]uint64 `json:"m"`
	P     *uint32           `json:"p"`
	In    Inner             `json:"in"`
	Raw   []byte            `json:"raw"`
}

// AggregateID implements rangedb.Event.
func (e Thing) AggregateID() string { return e.ID }

// AggregateType implements rangedb.Event.
func (e Thing) AggregateType() string { return "thing" }

// EventType implements rangedb.Event.
func (e Thing) EventType() string { return "Thing" }

func newSerializer(k int) rangedb.RecordSerializer {
	if k == 0 {
		return jsonrecordserializer.New()
	}
	return msgpackrecordserializer.New()
}

// text is any ASCII text of up to n bytes, or one of some others.
func text(n int) string {
	n += sym.Param("more", 0)
	switch sym.Choose("text", 3) {
	case 0:
		s := sym.Str("s", n)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] < 0x80)
		}
		return s
	case 1:
		return []string{"", "é€\u2028😀", "\\u0041\"</script>&", "null", "!\x00!"}[sym.Choose("fixed", 5)]
	}
	b := sym.Bytes("u", 2) // any two-byte character
	sym.Assume(sym.And(b[0] >= 0xC2, b[0] <= 0xDF))
	sym.Assume(sym.And(b[1] >= 0x80, b[1] <= 0xBF))
	return string(b)
}

func sameHeader(a, b *rangedb.Record) bool {
	return sym.And(sym.And(sym.And(sym.StrEq(a.StreamName, b.StreamName), sym.StrEq(a.AggregateType, b.AggregateType)), sym.And(sym.StrEq(a.AggregateID, b.AggregateID), sym.StrEq(a.EventID, b.EventID))),
		sym.And(sym.And(a.GlobalSequenceNumber == b.GlobalSequenceNumber, a.StreamSequenceNumber == b.StreamSequenceNumber), sym.And(a.InsertTimestamp == b.InsertTimestamp, sym.StrEq(a.EventType, b.EventType))))
}

func base() *rangedb.Record {
	return &rangedb.Record{StreamName: "thing!a", AggregateType: "thing", AggregateID: "a", GlobalSequenceNumber: 3, StreamSequenceNumber: 2, InsertTimestamp: 1, EventID: "e", EventType: "Thing"}
}

// Header: every record's header is read back, whatever it has, whether or not the event type is known.
func Header() {
	s := newSerializer(sym.Choose("serializer", 2))
	bound := sym.Choose("bound", 2) == 1
	if bound {
		s.Bind(&Thing{})
	}
	r := base()
	r.Data = &Thing{ID: "a"}
	switch sym.Choose("field", 9) {
	case 0:
		r.StreamName = text(2)
	case 1:
		r.AggregateType = text(2)
	case 2:
		r.AggregateID = text(2)
	case 3:
		r.EventID = text(2)
	case 4:
		if !bound {
			r.EventType = text(2)
		}
	case 5:
		r.GlobalSequenceNumber = sym.U64("n")
	case 6:
		r.StreamSequenceNumber = sym.U64("n")
	case 7:
		r.InsertTimestamp = sym.U64("n")
	case 8:
		r.EventType = "Other"
	}
	b, err := s.Serialize(r)
	sym.Assert(err == nil, "serialize", "serializing fails: "+sym.Err(err))
	got, err := s.Deserialize(b)
	sym.Assert(err == nil && got != nil, "deserialize", "deserializing fails: "+sym.Err(err))
	sym.Assert(sameHeader(r, got), "header", "a record's header is not read back")
	sym.Assert(got.Metadata == nil, "metadata", "metadata appears")
	if bound && r.EventType == "Thing" {
		_, ok := got.Data.(*Thing)
		sym.Assert(ok, "type", "the event of a bound type is not read back as that type")
	} else {
		_, ok := got.Data.(map[string]interface{})
		sym.Assert(ok, "type", fmt.Sprintf("the event of an unknown type is read back as %T", got.Data))
	}
	sym.Reach("end")
}

func newThing() *Thing {
	e := &Thing{ID: "a"}
	f := sym.Param("field", -1)
	if f < 0 {
		f = sym.Choose("field", 11)
	}
	switch f {
	case 0:
		e.ID = text(2)
	case 1:
		e.U = sym.U64("n")
	case 2:
		e.I = sym.I64("n")
	case 3:
		e.B = sym.Bool("b")
	case 4:
		e.Small = sym.Byte("n")
	case 5:
		e.L = []string{"x", text(2), ""}
	case 6:
		e.M = map[string]uint64{"k": sym.U64("n"), "": 1}
	case 7:
		n := sym.U32("n")
		e.P = &n
	case 8:
		e.In = Inner{X: int16(sym.Int("n", -32768, 32767)), Tx: "t"}
	case 9:
		e.In.Tx = text(2)
	case 10:
		e.Raw = sym.Bytes("raw", 1)
	}
	return e
}

// Bound: every event of a bound type is read back equal, given as a pointer or as a value.
func Bound() {
	s := newSerializer(sym.Choose("serializer", 2))
	s.Bind(&Thing{})
	r := base()
	e := newThing()
	if sym.Choose("pointer", 2) == 1 {
		r.Data = e
	} else {
		r.Data = *e
	}
	b, err := s.Serialize(r)
	sym.Assert(err == nil, "serialize", "serializing fails: "+sym.Err(err))
	got, err := s.Deserialize(b)
	sym.Assert(err == nil, "deserialize", "deserializing fails: "+sym.Err(err))
	sym.Assert(sameHeader(r, got), "header", "a record's header is not read back")
	g, ok := got.Data.(*Thing)
	if !ok {
		sym.Fail("type", "an event of a bound type is not read back as that type")
	}
	sym.Assert(sym.StrEq(g.ID, e.ID), "ID", "a text field is not read back")
	sym.Assert(g.U == e.U && g.I == e.I, "number", "a number is not read back")
	sym.Assert(g.B == e.B && g.Small == e.Small, "number", "a flag or small number is not read back")
	sym.Assert(len(g.L) == len(e.L) && len(g.M) == len(e.M) && len(g.Raw) == len(e.Raw), "size", "a list or map is not read back")
	for i := range e.L {
		sym.Assert(sym.StrEq(g.L[i], e.L[i]), "list", "a list element is not read back")
	}
	for k, v := range e.M {
		w, ok := g.M[k]
		sym.Assert(ok && w == v, "map", "a map element is not read back")
	}
	for i := range e.Raw {
		sym.Assert(g.Raw[i] == e.Raw[i], "bytes", "a byte is not read back")
	}
	sym.Assert((g.P == nil) == (e.P == nil) && (g.P == nil || *g.P == *e.P), "pointer", "an optional number is not read back")
	sym.Assert(g.In.X == e.In.X && sym.StrEq(g.In.Tx, e.In.Tx), "nested", "a nested field is not read back")
	sym.Reach("end")
}

// sameNumber: v is the number n, in the form a reader of unknown types gets.
func sameNumber(v interface{}, n uint64) bool {
	switch x := v.(type) {
	case json.Number:
		m, err := strconv.ParseUint(string(x), 10, 64)
		return err == nil && m == n
	case uint64:
		return x == n
	case uint32:
		return uint64(x) == n
	case uint16:
		return uint64(x) == n
	case uint8:
		return uint64(x) == n
	case int64:
		return x >= 0 && uint64(x) == n
	case int32:
		return x >= 0 && uint64(x) == n
	case int16:
		return x >= 0 && uint64(x) == n
	case int8:
		return x >= 0 && uint64(x) == n
	}
	return false
}

// Unbound: data and metadata of unknown types are read back without loss.
func Unbound() {
	s := newSerializer(sym.Choose("serializer", 2))
	r := base()
	n := sym.U64("n")
	t := text(2)
	data := map[string]interface{}{"n": n, "t": t, "nil": nil, "l": []interface{}{true, "y"}}
	meta := sym.Choose("meta", 2) == 1
	if meta {
		r.Metadata = data
		r.Data = &Thing{}
	} else {
		r.Data = data
	}
	b, err := s.Serialize(r)
	sym.Assert(err == nil, "serialize", "serializing fails: "+sym.Err(err))
	got, err := s.Deserialize(b)
	sym.Assert(err == nil, "deserialize", "deserializing fails: "+sym.Err(err))
	sym.Assert(sameHeader(r, got), "header", "a record's header is not read back")
	x := got.Data
	if meta {
		x = got.Metadata
	}
	m, ok := x.(map[string]interface{})
	sym.Assert(ok && len(m) == 4, "type", "generic data is not read back as a map of the same size")
	if meta {
		sym.Assert(m["n"] != nil, "number", "metadata loses a number")
	}
	sym.Assert(sameNumber(m["n"], n), "number", fmt.Sprintf("a number is read back as another one (%T)", m["n"]))
	ts, ok := m["t"].(string)
	sym.Assert(ok && sym.StrEq(ts, t), "text", "a text is not read back")
	v, has := m["nil"]
	sym.Assert(has && v == nil, "nil", "a missing value is not read back")
	l, ok := m["l"].([]interface{})
	sym.Assert(ok && len(l) == 2 && l[0] == true && l[1] == "y", "list", "a list is not read back")
	sym.Reach("end")
}

// Truncated: a record of which only a part arrived is an error, not another record.
func Truncated() {
	s := newSerializer(sym.Choose("serializer", 2))
	if sym.Choose("bound", 2) == 1 {
		s.Bind(&Thing{})
	}
	r := base()
	r.Data = &Thing{ID: "abc", L: []string{"x"}}
	b, err := s.Serialize(r)
	sym.Assert(err == nil, "serialize", "serializing fails: "+sym.Err(err))
	cut := sym.Choose("cut", 400)
	if cut >= len(b) {
		sym.Reach("whole")
		return
	}
	_, err = s.Deserialize(b[:cut])
	sym.Assert(err != nil, "truncated", fmt.Sprintf("the first %d of %d bytes of a record are read as a record", cut, len(b)))
	sym.Reach("cut")
}

// Garbage: arbitrary bytes give a record or an error, never a panic.
func Garbage() {
	s := newSerializer(sym.Choose("serializer", 2))
	s.Bind(&Thing{})
	n := sym.Choose("len", sym.Param("len", 2)+1)
	b := sym.Bytes("b", n)
	got, err := s.Deserialize(b)
	sym.Assert((got == nil) == (err != nil), "result", "deserializing gives both or neither of a record and an error")
	sym.Reach("end")
}

// Corrupt: one changed byte of a record gives a record or an error, never a panic.
func Corrupt() {
	s := newSerializer(sym.Choose("serializer", 2))
	s.Bind(&Thing{})
	r := base()
	r.Data = &Thing{ID: "a"}
	b, err := s.Serialize(r)
	sym.Assert(err == nil, "serialize", "serializing fails: "+sym.Err(err))
	at := sym.Choose("at", 300/sym.Param("step", 1)) * sym.Param("step", 1)
	if at >= len(b) {
		return
	}
	b[at] = sym.Byte("b")
	got, err := s.Deserialize(b)
	sym.Assert((got == nil) == (err != nil), "result", "deserializing gives both or neither of a record and an error")
	sym.Reach("end")
}

// shape is any kind of value that a client can send as an event, and says
// whether another one is the same.
func shape(depth int) (interface{}, func(interface{}) bool) {
	n := 4
	if depth > 0 {
		n = 8
	}
	switch sym.Choose("shape", n) {
	case 0:
		return nil, func(v interface{}) bool { return v == nil }
	case 1:
		b := sym.Bool("b")
		return b, func(v interface{}) bool { c, ok := v.(bool); return ok && b == c }
	case 2:
		t := text(1)
		return t, func(v interface{}) bool { c, ok := v.(string); return ok && sym.StrEq(t, c) }
	case 3:
		u := sym.U64("n")
		return u, func(v interface{}) bool { return sameNumber(v, u) }
	case 4:
		return []interface{}{}, func(v interface{}) bool { l, ok := v.([]interface{}); return ok && len(l) == 0 }
	case 5:
		return map[string]interface{}{}, func(v interface{}) bool { m, ok := v.(map[string]interface{}); return ok && len(m) == 0 }
	case 6:
		x, same := shape(depth - 1)
		return []interface{}{x, nil}, func(v interface{}) bool {
			l, ok := v.([]interface{})
			return ok && len(l) == 2 && same(l[0]) && l[1] == nil
		}
	}
	k := text(1)
	x, same := shape(depth - 1)
	return map[string]interface{}{k: x}, func(v interface{}) bool {
		m, ok := v.(map[string]interface{})
		if !ok || len(m) != 1 {
			return false
		}
		for l, y := range m {
			return sym.StrEq(k, l) && same(y)
		}
		return false
	}
}

// Shapes: an event or metadata of an unknown type is read back whatever kind of value it is.
func Shapes() {
	s := newSerializer(sym.Choose("serializer", 2))
	r := base()
	v, same := shape(sym.Param("depth", 1))
	meta := sym.Choose("meta", 2) == 1
	if meta {
		r.Metadata = v
		r.Data = &Thing{}
	} else if sym.Choose("raw", 2) == 1 {
		r.Data = rangedb.NewRawEvent("a", "b", "c", v)
	} else {
		r.Data = v
	}
	b, err := s.Serialize(r)
	if err != nil && same(nil) && !meta {
		sym.Reach("refused") // no data at all
		return
	}
	sym.Assert(err == nil, "serialize", "serializing fails: "+sym.Err(err))
	got, err := s.Deserialize(b)
	sym.Assert(err == nil, "deserialize", "deserializing fails: "+sym.Err(err))
	sym.Assert(sameHeader(r, got), "header", "a record's header is not read back")
	x := got.Data
	if meta {
		x = got.Metadata
	}
	sym.Assert(same(x), "value", fmt.Sprintf("a value is read back as another one (%T)", x))
	sym.Reach("end")
}
