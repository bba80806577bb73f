package pure

import (
	"fmt"
	"net/url"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/paging"
	"github.com/inklabs/rangedb/pkg/rangedberror"

	"verif/sym"
)

type msg struct{ typ, id string }

func (m msg) AggregateType() string { return m.typ }
func (m msg) AggregateID() string   { return m.id }
func (m msg) EventType() string     { return "x" }

func noBang(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '!')
	}
}

// StreamName: a stream name is type!ID and parses back.
func StreamName() {
	typ := sym.Str("type", sym.Choose("tlen", sym.Param("len", 3)+1))
	id := sym.Str("id", sym.Choose("ilen", sym.Param("len", 3)+1))
	noBang(typ)
	s := rangedb.GetStream(typ, id)
	sym.Assert(sym.StrEq(s, typ+"!"+id), "stream", "GetStream does not join type and ID")
	sym.Assert(sym.StrEq(rangedb.GetEventStream(msg{typ, id}), s), "stream", "GetEventStream and GetStream differ")
	t, i := rangedb.ParseStream(s)
	sym.Assert(sym.And(sym.StrEq(t, typ), sym.StrEq(i, id)), "stream", "ParseStream does not give type and ID back")
	typ2 := sym.Str("type2", sym.Choose("tlen2", sym.Param("len", 3)+1))
	id2 := sym.Str("id2", sym.Choose("ilen2", sym.Param("len", 3)+1))
	noBang(typ2)
	same := len(typ) == len(typ2) && len(id) == len(id2) && sym.StrEq(typ, typ2) && sym.StrEq(id, id2)
	sym.Assert(same || !sym.StrEq(s, rangedb.GetStream(typ2, id2)), "stream", "two aggregates share a stream")
	sym.Reach("end")
}

// ParseAny: ParseStream does not panic on any name.
func ParseAny() {
	s := sym.Str("name", sym.Choose("len", sym.Param("len", 3)+1))
	var t, i string
	p := sym.Caught(func() { t, i = rangedb.ParseStream(s) })
	sym.Assert(!p, "stream", "ParseStream panics")
	sym.Assert(len(t)+len(i) <= len(s), "stream", "ParseStream invents text")
	sym.Reach("end")
}

// Unexpected: the error text round trips, also inside other text.
func Unexpected() {
	e := rangedberror.UnexpectedSequenceNumber{Expected: sym.U64("expected"), ActualSequenceNumber: sym.U64("actual")}
	s := e.Error()
	pre := sym.Str("prefix", sym.Choose("plen", sym.Param("plen", 3)+1))
	for i := 0; i < len(pre); i++ {
		sym.Assume(pre[i] != ':')
	}
	s = pre + s
	post := ""
	switch sym.Choose("suffix", 3) {
	case 1:
		post = "\n"
	case 2:
		post = sym.Str("suffix", 2)
		sym.Assume(post[0] < '0' || post[0] > '9')
		sym.Assume(post[0] != '_')
	}
	got := rangedberror.NewUnexpectedSequenceNumberFromString(s + post)
	sym.Assert(got != nil, "unexpected", "no error is built")
	sym.Assert(sym.And(got.Expected == e.Expected, got.ActualSequenceNumber == e.ActualSequenceNumber), "unexpected", "the numbers do not survive the error text")
	sym.Reach("end")
}

// UnexpectedAny: other texts do not panic.
func UnexpectedAny() {
	s := "unexpected sequence number:" + sym.Str("text", sym.Choose("len", sym.Param("len", 3)+1))
	p := sym.Caught(func() { rangedberror.NewUnexpectedSequenceNumberFromString(s) })
	sym.Assert(!p, "unexpected", "parsing panics")
	q := sym.Str("other", sym.Choose("len", sym.Param("len", 3)+1))
	p = sym.Caught(func() {
		g := rangedberror.NewUnexpectedSequenceNumberFromString(q)
		sym.Assert(g.Expected == 0 && g.ActualSequenceNumber == 0, "unexpected", "numbers are invented")
	})
	sym.Assert(!p, "unexpected", "parsing panics")
	sym.Reach("end")
}

func samePage(a, b paging.Pagination) bool {
	if len(a.PreviousIndices) != len(b.PreviousIndices) {
		return false
	}
	ok := sym.And(a.ItemsPerPage == b.ItemsPerPage, a.CurrentIndex == b.CurrentIndex)
	for i := range a.PreviousIndices {
		ok = sym.And(ok, a.PreviousIndices[i] == b.PreviousIndices[i])
	}
	return ok
}

func follow(link string) paging.Pagination {
	u, err := url.Parse(link)
	if err != nil {
		sym.Fail("paging", "a link does not parse: "+sym.Err(err))
	}
	sym.Assert(u.Path == "/e", "paging", "a link leaves the page's path")
	return paging.NewPaginationFromQuery(u.Query())
}

func number(name string) uint64 {
	v := sym.U64(name)
	switch sym.Choose("size", 3) {
	case 0:
		sym.Assume(v < 10)
	case 1:
		sym.Assume(v >= 10 && v < 100)
	case 2:
		sym.Assume(v > 18446744073709551615-10)
	}
	return v
}

// Paging: the page size is clamped, and next and previous links are inverse.
func Paging() {
	n := sym.U64("items")
	cur := number("current")
	var prev []uint64
	k := sym.Choose("previous", sym.Param("previous", 2)+1)
	backing := make([]uint64, k, k+2)
	for i := 0; i < k; i++ {
		backing[i] = number("prev")
	}
	if k > 0 {
		prev = backing
	}
	if n != 0 && n < 1000 {
		sym.Assume(n < 10)
	}
	p := paging.NewPagination(n, cur, prev)
	want := n
	if n == 0 {
		want = 10
	}
	if n > 1000 {
		want = 1000
	}
	sym.Assert(p.ItemsPerPage == want, "paging", "the page size is not clamped to 1..1000 with default 10")
	next := number("next")
	later := next > cur
	afterPrev := k > 0 && cur > prev[k-1]
	l := p.Links("/e", next)
	l2 := p.Links("/e", next)
	sym.Assert(l == l2, "paging", "building the links changes the page")
	sym.Assert((l.Previous != "") == (k > 0), "paging", "there is a previous link exactly when there is a previous page")
	sym.Assert((l.Next != "") == later, "paging", "there is a next link exactly when there is a later page")
	if l.Next != "" {
		q := follow(l.Next)
		sym.Assert(samePage(q, paging.Pagination{ItemsPerPage: p.ItemsPerPage, CurrentIndex: next, PreviousIndices: append(append([]uint64(nil), prev...), cur)}), "paging", "the next link does not lead to the next page")
		back := follow(q.Links("/e", next).Previous)
		sym.Assert(samePage(back, p), "paging", "the previous link of the next page does not lead back")
		sym.Reach("next")
	}
	if l.Previous != "" {
		q := follow(l.Previous)
		sym.Assert(samePage(q, paging.Pagination{ItemsPerPage: p.ItemsPerPage, CurrentIndex: prev[k-1], PreviousIndices: prev[:k-1]}), "paging", "the previous link does not lead to the previous page")
		if afterPrev {
			fwd := follow(q.Links("/e", cur).Next)
			sym.Assert(samePage(fwd, p), "paging", "the next link of the previous page does not lead back")
		}
		sym.Reach("previous")
	}
	sym.Reach("end")
}

// PagingWalk: from page to page and back again, over many pages.
func PagingWalk() {
	size := sym.Choose("size", 2)*999 + 1
	p := paging.NewPagination(uint64(size), 0, nil)
	var seen []paging.Pagination
	n := sym.Param("pages", 24)
	for i := 1; i <= n; i++ {
		seen = append(seen, p)
		l := p.Links("/e", uint64(i*size))
		sym.Assert(l.Next != "" && (l.Previous != "") == (i > 1), "walk", "a link is missing")
		p = follow(l.Next)
		sym.Assert(p.CurrentIndex == uint64(i*size) && p.ItemsPerPage == uint64(size), "walk", "the next link does not lead to the next page")
	}
	for i := n - 1; i >= 0; i-- {
		l := p.Links("/e", p.CurrentIndex)
		sym.Assert(l.Next == "" && l.Previous != "", "walk", "on the way back the previous link is missing")
		p = follow(l.Previous)
		sym.Assert(samePage(p, seen[i]), "walk", "the previous link does not lead to the page before")
	}
	sym.Assert(p.Links("/e", 0).Previous == "", "walk", "the first page has a previous link")
	sym.Reach("end")
}

// PagingInput: arbitrary query texts give a valid page.
func PagingInput() {
	a := sym.Str("items", sym.Choose("alen", sym.Param("len", 2)+1))
	b := sym.Str("current", sym.Choose("blen", 2))
	c := sym.Str("previous", sym.Choose("clen", sym.Param("len", 2)+1))
	p := paging.NewPaginationFromString(a, b, c)
	sym.Assert(sym.And(p.ItemsPerPage >= 1, p.ItemsPerPage <= 1000), "paging", "the page size is out of range")
	isNum := len(b) == 1 && b[0] >= '0' && b[0] <= '9'
	if isNum {
		sym.Assert(p.CurrentIndex == uint64(b[0]-'0'), "paging", "the current index is not the one given")
	} else {
		sym.Assert(p.CurrentIndex == 0, "paging", "an invalid current index does not give the first page")
	}
	sym.Assert(len(p.PreviousIndices) <= 1+len(c)/2, "paging", "previous pages are invented")
	if len(c) == 1 && c[0] >= '0' && c[0] <= '9' {
		sym.Assert(len(p.PreviousIndices) == 1 && p.PreviousIndices[0] == uint64(c[0]-'0'), "paging", "the previous index is not the one given")
	}
	sym.Reach("end")
}

var _ = fmt.Sprint
