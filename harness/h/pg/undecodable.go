package pg

import (
	"context"
	"errors"

	"github.com/inklabs/rangedb"

	"verif/h/kit"
	"verif/sym"
)

// picky is an event that is written as JSON but may not be read back.
type picky struct{ V string }

func (picky) AggregateID() string   { return "1" }
func (picky) AggregateType() string { return "A" }
func (picky) EventType() string     { return "picky" }

func (p *picky) UnmarshalJSON(b []byte) error {
	if string(b) != `{"V":"good"}` {
		return errors.New("bad")
	}
	p.V = "good"
	return nil
}

// Undecodable: a save of events that cannot be read back reports the truth:
// it is either refused and leaves no trace, or stores the batch and announces
// what there is to announce.
func Undecodable() {
	use()
	s := open(&kit.Clock{}, &kit.UUID{})
	s.Bind(&picky{})
	sink := &kit.Sink{}
	ctx := context.Background()
	sym.Assert(s.AllEventsSubscription(ctx, 10, sink).Start() == nil, "undecodable", "Start fails")
	n := 1 + sym.Choose("n", 3)
	var b []*rangedb.EventRecord
	good := 0
	for i := 0; i < n; i++ {
		e := &picky{V: "good"}
		if sym.Choose("bad", 2) == 1 {
			e.V = "bad"
		} else {
			good++
		}
		b = append(b, &rangedb.EventRecord{Event: e})
	}
	last, err := s.Save(ctx, "A!1", b...)
	sym.Quiesce()
	total, terr := s.TotalEventsInStream(ctx, "A!1")
	sym.Assert(terr == nil, "undecodable", "TotalEventsInStream fails: "+sym.Err(terr))
	if err != nil {
		sym.Assert(good < n, "undecodable", "a valid Save fails: "+sym.Err(err))
		sym.Assert(total == 0, "undecodable", "Save reports a failure, but its events are stored")
		good = 0
	} else {
		sym.Assert(total == uint64(n) && last == total, "undecodable", "Save reports success, but its events are not stored")
	}
	sym.Assert(len(sink.Get()) == good, "undecodable", "another number of events is announced than was stored and can be read")
	_, err = s.Save(ctx, "A!1", &rangedb.EventRecord{Event: &picky{V: "good"}})
	sym.Quiesce()
	sym.Assert(err == nil && len(sink.Get()) == good+1, "undecodable", "the next save is not stored and announced: "+sym.Err(err))
	sym.Reach("end")
	idle()
}
