// Package pure has the harnesses of the self-contained parts: iterators,
// names, numbers in error texts, page links.
package pure

import (
	"context"
	"errors"
	"time"

	"github.com/inklabs/rangedb"

	"verif/h/kit"
	"verif/sym"
)

var errSource = errors.New("source failed")

func rec(g uint64) *rangedb.Record {
	return &rangedb.Record{GlobalSequenceNumber: g, Data: &kit.Ev{}}
}

// Merge: merging ascending iterators gives every record once, ascending; the
// failure of an input is not lost.
func Merge() {
	n := sym.Choose("inputs", sym.Param("inputs", 3)+1)
	k := sym.Param("records", 2)
	threads := sym.Param("threads", 0) == 1
	var its []rangedb.RecordIterator
	var all []*rangedb.Record
	failed := false
	for i := 0; i < n; i++ {
		cnt := sym.Choose("cnt", k+1)
		var list []rangedb.ResultRecord
		for j := 0; j < cnt; j++ {
			g := sym.U64("g")
			for x, o := range all {
				if x >= len(all)-j {
					sym.Assume(g > o.GlobalSequenceNumber)
				} else {
					sym.Assume(g != o.GlobalSequenceNumber)
				}
			}
			r := rec(g)
			all = append(all, r)
			list = append(list, rangedb.ResultRecord{Record: r})
		}
		if sym.Choose("fails", 2) == 1 {
			failed = true
			list = append(list, rangedb.ResultRecord{Err: errSource})
		}
		if threads {
			ch := make(chan rangedb.ResultRecord)
			go func() {
				for _, r := range list {
					ch <- r
				}
				close(ch)
			}()
			its = append(its, rangedb.NewRecordIterator(ch))
		} else {
			ch := make(chan rangedb.ResultRecord, len(list))
			for _, r := range list {
				ch <- r
			}
			close(ch)
			its = append(its, rangedb.NewRecordIterator(ch))
		}
	}
	it := rangedb.MergeRecordIteratorsInOrder(its)
	seen := map[*rangedb.Record]bool{}
	got := 0
	var prev uint64
	useCtx := sym.Choose("ctx", 2) == 1
	for {
		var ok bool
		if useCtx {
			ok = it.NextContext(context.Background())
		} else {
			ok = it.Next()
		}
		if !ok {
			break
		}
		r := it.Record()
		sym.Assert(r != nil && !seen[r], "merge", "a record is delivered twice")
		seen[r] = true
		if got > 0 {
			sym.Assert(r.GlobalSequenceNumber > prev, "merge", "merged records are out of order")
		}
		prev = r.GlobalSequenceNumber
		got++
	}
	for r := range seen {
		found := false
		for _, a := range all {
			found = found || a == r
		}
		sym.Assert(found, "merge", "an alien record is delivered")
	}
	if failed {
		sym.Assert(errors.Is(it.Err(), errSource), "merge", "the failure of an input is lost: a truncated read looks complete")
		sym.Reach("failed")
	} else {
		sym.Assert(it.Err() == nil, "merge", "a read without failure reports one: "+sym.Err(it.Err()))
		sym.Assert(got == len(all), "merge", "records are lost")
		sym.Reach("complete")
	}
	sym.Quiesce()
	sym.Assert(sym.Blocked() == 0, "merge", "goroutines stay blocked after the end of the read: "+sym.BlockedDesc())
}

// Iterator: the contract of Next, NextContext, Record and Err.
func Iterator() {
	k := sym.Choose("records", sym.Param("records", 3)+1)
	fails := sym.Choose("fails", 2) == 1
	ch := make(chan rangedb.ResultRecord, k+1)
	var all []*rangedb.Record
	for i := 0; i < k; i++ {
		r := rec(sym.U64("g"))
		all = append(all, r)
		ch <- rangedb.ResultRecord{Record: r}
	}
	if fails {
		ch <- rangedb.ResultRecord{Err: errSource}
	}
	close(ch)
	it := rangedb.NewRecordIterator(ch)
	ctx, cancel := context.WithCancel(context.Background())
	cancelled := false
	pos := 0
	over := false
	for i := 0; i < k+3; i++ {
		op := sym.Choose("op", 3)
		if op == 2 {
			cancel()
			cancelled = true
			continue
		}
		before := it.Err()
		var ok bool
		if op == 0 {
			ok = it.Next()
		} else {
			ok = it.NextContext(ctx)
		}
		if before != nil {
			sym.Assert(!ok && it.Err() == before, "iterator", "the iterator does not keep its error")
			continue
		}
		if ok {
			sym.Assert(!over && pos < k && it.Record() == all[pos], "iterator", "the iterator skips, repeats or invents a record")
			sym.Assert(it.Err() == nil, "iterator", "a record comes together with an error")
			pos++
			continue
		}
		sym.Assert(it.Record() == nil, "iterator", "Record is not nil after the end")
		switch {
		case it.Err() == nil:
			sym.Assert(pos == k && !(fails && !over), "iterator", "the iterator ends early without an error")
			over = true
			sym.Reach("end")
		case errors.Is(it.Err(), errSource):
			sym.Assert(pos == k && fails, "iterator", "the error comes early")
			sym.Reach("error")
		default:
			sym.Assert(errors.Is(it.Err(), context.Canceled) && cancelled && op == 1, "iterator", "the iterator reports an error nobody raised: "+sym.Err(it.Err()))
			sym.Reach("cancelled")
		}
	}
	cancel()
	// an iterator for an error
	e := rangedb.NewRecordIteratorWithError(errSource)
	sym.Assert(!e.Next() && errors.Is(e.Err(), errSource) && e.Record() == nil, "iterator", "NewRecordIteratorWithError does not report its error")
}

// Publish: PublishRecordOrCancel sends the record, or the cancellation, at most once, and always returns.
func Publish() {
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan rangedb.ResultRecord, sym.Choose("cap", 2))
	when := sym.Choose("cancel", 3) // never, before, concurrently
	consumer := sym.Choose("consumer", 2) == 1
	if when == 0 {
		sym.Assume(consumer || cap(ch) == 1)
	}
	if when == 1 {
		cancel()
	}
	r := rec(sym.U64("g"))
	var got []rangedb.ResultRecord
	done := make(chan bool)
	if when == 2 {
		go cancel()
	}
	if consumer {
		go func() {
			for x := range ch {
				got = append(got, x)
			}
			done <- true
		}()
	}
	ok := rangedb.PublishRecordOrCancel(ctx, ch, r, time.Second)
	close(ch)
	if consumer {
		<-done
	} else {
		for x := range ch {
			got = append(got, x)
		}
	}
	sym.Assert(len(got) <= 1, "publish", "more than one value is sent")
	if ok {
		sym.Assert(len(got) == 1 && got[0].Record == r && got[0].Err == nil, "publish", "success is reported although the record was not sent")
		sym.Reach("sent")
	} else {
		sym.Assert(when != 0, "publish", "cancellation is reported although the context is alive")
		sym.Assert(!consumer || len(got) == 1 || sym.Param("prompt", 0) == 0, "publish", "the consumer is not told of the cancellation")
		if len(got) == 1 {
			sym.Assert(got[0].Record == nil && errors.Is(got[0].Err, context.Canceled), "publish", "something else than the cancellation is sent")
		}
		sym.Reach("cancelled")
	}
	cancel()
}

// ReadN: ReadNRecords returns the first n records.
func ReadN() {
	k := sym.Choose("records", sym.Param("records", 3)+1)
	fails := sym.Choose("fails", 2) == 1
	good := k // the records that can be read
	if k > 0 && sym.Choose("undecryptable", 2) == 1 {
		good = sym.Choose("good", k)
	}
	limit := sym.U64("limit")
	ch := make(chan rangedb.ResultRecord)
	ctx, cancel := context.WithCancel(context.Background())
	var all []*rangedb.Record
	for i := 0; i < k; i++ {
		all = append(all, rec(sym.U64("g")))
	}
	go func() {
		defer close(ch)
		for _, r := range all {
			if !rangedb.PublishRecordOrCancel(ctx, ch, r, time.Second) {
				return
			}
		}
		if fails {
			select {
			case ch <- rangedb.ResultRecord{Err: errSource}:
			case <-ctx.Done():
			}
		}
	}()
	cancels := 0
	got := rangedb.ReadNRecords(limit, func() (rangedb.RecordIterator, context.CancelFunc) {
		var it rangedb.RecordIterator = rangedb.NewRecordIterator(ch)
		if good < k {
			it = kit.Undecryptable(it, good, errSource)
		}
		return it, func() { cancels++; cancel() }
	})
	want := uint64(good)
	if limit < want {
		want = limit
	}
	sym.Assert(uint64(len(got)) == want, "readn", "ReadNRecords returns another number of records")
	for i := range got {
		sym.Assert(got[i] == all[i], "readn", "ReadNRecords returns other records")
	}
	sym.Assert(cancels > 0, "readn", "ReadNRecords does not cancel the read")
	sym.Quiesce()
	time.Sleep(3 * time.Second) // the source may try for a second to pass on the cancellation
	sym.Quiesce()
	sym.Assert(sym.Blocked() == 0, "readn", "the reader stays blocked: "+sym.BlockedDesc())
	sym.Reach("end")
}
