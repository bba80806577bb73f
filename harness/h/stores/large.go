package stores

import (
	"context"
	"errors"

	"github.com/inklabs/rangedb"

	"verif/h/kit"
	"verif/sym"
)

// places of a large batch where something may go wrong.
func place(n int) int {
	ps := []int{0, 1, 15, 16, 31, 32, 50, 63, 64, 99, 100, 101, 127, 128, 255, 256, 499, 500, 511, 512, 999, 1000, 1023, 1024, n - 1}
	p := ps[sym.Choose("place", len(ps))]
	sym.Assume(p < n)
	return p
}

// known makes n events with fixed values.
func known(typ, id string, n int) []*rangedb.EventRecord {
	var b []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		b = append(b, ev(typ, id, uint64(1000+i)))
	}
	return b
}

// LargeBatch: a large batch is stored and announced entirely or not at all, too.
func LargeBatch() {
	s := newSys()
	s.sink = &kit.Sink{}
	n := sym.Param("batch", 1100)
	ctx := context.Background()
	sym.Assert(s.store.AllEventsSubscription(ctx, 3*n, s.sink).Start() == nil, "harness", "subscribing fails")
	d := streamDef{"s", "A", "1"}
	s.names, s.types = []string{"s"}, []string{"A"}
	s.mustSave(d, 1)
	seen := []uint64{1}
	b := known("A", "1", n)
	cause := sym.Choose("cause", 5)
	k := 0
	if cause > 0 {
		k = place(n)
	}
	var c context.Context = ctx
	switch cause {
	case 1:
		b[k] = ev("B", "1", 1)
	case 2:
		b[k] = ev("A", "2", 1)
	case 3:
		calls := 0
		s.codec.Fail = func(op string) bool {
			if op == "ser" {
				calls++
			}
			return op == "ser" && calls == k+1
		}
	case 4:
		l := kit.Late(k)
		defer l.Cancel()
		c = l
	}
	got, err := s.store.Save(c, d.name, b...)
	s.codec.Fail = nil
	if err == nil {
		sym.Assert(cause == 0 || cause == 4, "atomic", "an invalid large batch is accepted")
		s.ref.Append(d.name, b)
		sym.Assert(got == uint64(n+1), "atomic", "Save does not return the last stream sequence number")
		for i := 0; i < n; i++ {
			seen = append(seen, uint64(2+i))
		}
		sym.Reach("stored")
	} else {
		sym.Assert(cause > 0 && (cause < 4 || errors.Is(err, context.Canceled)), "atomic", "a large batch is refused: "+sym.Err(err))
		sym.Reach("refused")
	}
	s.check("atomic", "after a large batch")
	s.checkNotified("atomic", "after a large batch", seen)
	s.mustSaveL("atomic", d)
	s.check("atomic", "after a later save")
	sym.Reach("end")
}
