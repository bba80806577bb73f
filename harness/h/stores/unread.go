package stores

import (
	"context"

	"verif/sym"
)

// Unread: when the serializer cannot read back an event of a batch, the save
// is refused without a trace, or the batch is stored and every event of it
// that can be read is announced, in order.
func Unread() {
	s := newSys()
	s.subscribe()
	s.fixture(1)
	var seen []uint64
	for _, r := range s.ref.Recs {
		seen = append(seen, r.GlobalSequenceNumber)
	}
	sym.Quiesce()
	d := s.anyStream()
	n := 1 + sym.Choose("n", sym.Param("batch", 3))
	b := batch(d.typ, d.id, n)
	bad := make([]bool, n)
	for i := range bad {
		bad[i] = sym.Choose("bad", 2) == 1
	}
	calls := 0
	s.codec.Fail = func(op string) bool {
		if op != "des" {
			return false
		}
		calls++
		return calls <= n && bad[calls-1]
	}
	got, err := s.store.Save(context.Background(), d.name, b...)
	sym.Quiesce()
	s.codec.Fail = nil
	if err == nil {
		s.ref.Append(d.name, b)
		sym.Assert(got == s.ref.Count(d.name), "unread", "Save does not return the last stream sequence number")
		for i, r := range s.ref.Recs[len(s.ref.Recs)-n:] {
			if !bad[i] {
				seen = append(seen, r.GlobalSequenceNumber)
			}
		}
	}
	s.check("unread", "after a batch that cannot be read at once")
	s.checkNotified("unread", "after a batch that cannot be read at once", seen)
	s.mustSaveL("unread", d)
	s.check("unread", "after a later save")
	s.checkNotified("unread", "after a later save", append(seen, s.ref.Recs[len(s.ref.Recs)-1].GlobalSequenceNumber))
	sym.Reach("end")
}

