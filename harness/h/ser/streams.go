package ser

import (
	"errors"
	"fmt"
	"io"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"

	"verif/h/kit"
	"verif/sym"
)

const (
	jsonKind = iota
	ndjsonKind
	msgpackKind
)

func newStream(k int) rangedb.RecordIoStream {
	switch k {
	case jsonKind:
		return jsonrecordiostream.New()
	case ndjsonKind:
		return ndjsonrecordiostream.New()
	}
	return msgpackrecordiostream.New()
}

// sink is a writer that fails after some bytes (never if fail is negative).
type sink struct {
	b    []byte
	fail int
}

var errSink = errors.New("the writer fails")

func (s *sink) Write(p []byte) (int, error) {
	if s.fail >= 0 && len(s.b)+len(p) > s.fail {
		n := s.fail - len(s.b)
		s.b = append(s.b, p[:n]...)
		return n, errSink
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// source is a reader that gives at most chunk bytes at a time, then an error.
type source struct {
	b     []byte
	chunk int
	err   error
}

var errSource = errors.New("the reader fails")

func (s *source) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := len(p)
	if n > len(s.b) {
		n = len(s.b)
	}
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

var errHistory = errors.New("the history fails")

// history is an iterator over records, failing after them if err is set.
func history(rs []*rangedb.Record, err error) rangedb.RecordIterator {
	c := make(chan rangedb.ResultRecord, len(rs)+1)
	for _, r := range rs {
		c <- rangedb.ResultRecord{Record: r}
	}
	if err != nil {
		c <- rangedb.ResultRecord{Err: err}
	}
	close(c)
	return rangedb.NewRecordIterator(c)
}

func records(n int) []*rangedb.Record {
	var rs []*rangedb.Record
	for i := 0; i < n; i++ {
		r := base()
		r.GlobalSequenceNumber = uint64(i + 1)
		c := sym.Bytes("id", 1)                       // any plain character
		sym.Assume(sym.And(c[0] >= ' ', c[0] <= 'z')) // and no character that JSON escapes, so that all streams have the same length
		for _, x := range []byte(`"\\&<>`) {
			sym.Assume(c[0] != x)
		}
		r.Data = &Thing{ID: string(c), U: uint64(i)}
		rs = append(rs, r)
	}
	return rs
}

func write(s rangedb.RecordIoStream, w io.Writer, rs []*rangedb.Record) error {
	var err error
	for e := range s.Write(w, history(rs, nil)) {
		if err == nil {
			err = e
		}
	}
	return err
}

// sizes gives the number of bytes written after each number of records.
func sizes(k int, rs []*rangedb.Record) []int {
	var l []int
	for i := 0; i <= len(rs); i++ {
		w := &sink{fail: -1}
		err := write(newStream(k), w, rs[:i])
		sym.Assert(err == nil, "write", "writing a stream fails: "+sym.Err(err))
		l = append(l, len(w.b))
	}
	return l
}

func read(it rangedb.RecordIterator, want []*rangedb.Record) int {
	n := 0
	for it.Next() {
		r := it.Record()
		sym.Assert(it.Err() == nil, "next", "a record comes with an error")
		sym.Assert(n < len(want), "extra", "more records are read than were written")
		sym.Assert(sameHeader(r, want[n]), "order", "a record read is not the one written at that place")
		t, ok := r.Data.(*Thing)
		if !ok {
			sym.Fail("type", fmt.Sprintf("an event of a bound type is read as %T", r.Data))
		}
		w := want[n].Data.(*Thing)
		sym.Assert(sym.StrEq(t.ID, w.ID) && t.U == w.U && t.P == nil == (w.P == nil), "data", "an event read is not the one written")
		n++
	}
	sym.Assert(it.Record() == nil, "after", "a record remains after the end")
	sym.Assert(!it.Next(), "again", "the iterator goes on after its end")
	return n
}

// StreamRoundTrip: what is written to a stream is read from it, in order, however the bytes are cut into reads.
func StreamRoundTrip() {
	k := sym.Choose("kind", 3)
	n := sym.Choose("n", sym.Param("n", 3)+1)
	rs := records(n)
	if n > 0 {
		i := sym.Choose("at", n)
		switch sym.Choose("what", 4) {
		case 0:
			rs[i].AggregateID = text(1)
		case 1:
			rs[i].GlobalSequenceNumber = sym.U64("n")
		case 2:
			rs[i].Data.(*Thing).ID = text(1)
		case 3:
			rs[i].Data.(*Thing).U = sym.U64("n")
		}
	}
	w := &sink{fail: -1}
	err := write(newStream(k), w, rs)
	sym.Assert(err == nil, "write", "writing a stream fails: "+sym.Err(err))
	s := newStream(k)
	s.Bind(&Thing{})
	it := s.Read(&source{b: w.b, chunk: sym.Choose("chunk", 2), err: io.EOF})
	sym.Assert(read(it, rs) == n, "count", "fewer records are read than were written")
	sym.Assert(it.Err() == nil, "error", "reading a whole stream gives an error: "+sym.Err(it.Err()))
	sym.Reach("end")
}

// StreamWriteFails: a history or a writer that fails makes the export report it.
func StreamWriteFails() {
	k := sym.Choose("kind", 3)
	n := sym.Choose("n", sym.Param("n", 2)+1)
	rs := records(n)
	if sym.Choose("who", 2) == 0 {
		w := &sink{fail: -1}
		var errs []error
		it := history(rs, errHistory)
		if sym.Choose("late", 2) == 1 {
			more := base()
			more.Data = &kit.Ev{}
			it = kit.Undecryptable(history(append(rs, more), nil), 0, errHistory)
		}
		for e := range newStream(k).Write(w, it) {
			errs = append(errs, e)
		}
		sym.Assert(len(errs) > 0, "history", "an export of a history that fails midway is reported as complete")
		sym.Reach("history")
		return
	}
	full := sizes(k, rs)[n]
	at := sym.Choose("fail", 1000)
	if at >= full {
		return
	}
	w := &sink{fail: at}
	err := write(newStream(k), w, rs)
	sym.Assert(err != nil, "writer", "an export whose writer fails is reported as complete")
	sym.Reach("writer")
}

// StreamCut: the first bytes of a stream give the records that are whole, and an error unless nothing shows that more was to come.
func StreamCut() {
	k := sym.Choose("kind", 3)
	n := sym.Choose("n", sym.Param("n", 2)+1)
	rs := records(n)
	l := sizes(k, rs)
	w := &sink{fail: -1}
	_ = write(newStream(k), w, rs)
	at := sym.Choose("cut", 1000)
	if at > len(w.b) {
		return
	}
	src := &source{b: w.b[:at], chunk: 0, err: io.EOF}
	fails := sym.Choose("fails", 2) == 1
	if fails {
		src.err = errSource
	}
	s := newStream(k)
	s.Bind(&Thing{})
	it := s.Read(src)
	got := read(it, rs)
	if at == len(w.b) && (!fails || k == jsonKind) {
		sym.Assert(got == n && (fails || it.Err() == nil), "whole", "a whole stream is not read")
		sym.Reach("whole")
		return
	}
	if fails {
		sym.Assert(it.Err() != nil, "reader", fmt.Sprintf("a reader that fails after %d of %d bytes is taken for the end of the stream", at, len(w.b)))
		sym.Reach("fails")
		return
	}
	if it.Err() == nil && at > 0 {
		boundary := false
		if k == jsonKind {
			// every cut shows: the array is not closed
		} else {
			boundary = at == l[got] || k == ndjsonKind && at == l[got]+1
		}
		sym.Assert(boundary, "cut", fmt.Sprintf("%d of %d bytes of a stream are read as a whole stream of %d records", at, len(w.b), got))
	}
	sym.Reach("cut")
}

// Large: the size of a record, and of a stream, does not matter.
func Large() {
	k := sym.Choose("format", 3)
	size := sym.Param("kb", 33) << 10
	chunk := []int{0, 4096, 1000}[sym.Choose("chunk", 3)]
	text := make([]byte, size)
	for i := range text {
		text[i] = byte('a' + i%25)
	}
	n := 2
	var rs []*rangedb.Record
	for i := 0; i < n; i++ {
		r := base()
		r.GlobalSequenceNumber = uint64(i + 1)
		t := append([]byte(nil), text...)
		t[len(t)-1-i] = '0'
		u := sym.U64("u")
		sym.Assume(u < 10)
		r.Data = &Thing{ID: string(t), U: u}
		rs = append(rs, r)
	}
	w := &sink{fail: -1}
	err := write(newStream(k), w, rs)
	sym.Assert(err == nil, "write", "writing a stream fails: "+sym.Err(err))
	s := newStream(k)
	s.Bind(&Thing{})
	it := s.Read(&source{b: w.b, chunk: chunk, err: io.EOF})
	got := read(it, rs)
	sym.Assert(it.Err() == nil, "read", "reading back a long stream fails: "+sym.Err(it.Err()))
	sym.Assert(got == n, "missing", "records of a long stream are not read")
	sym.Reach("end")
}
