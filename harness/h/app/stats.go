// Package app holds the harnesses of what is built on the stores: projections
// and their snapshots, the command dispatcher, the identifiers.
package app

import (
	"bytes"
	"errors"
	"io"
	"os"
	"sort"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"

	"verif/mos"
	"verif/sym"
)

func types(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = sym.Str("type", 1)
		sym.Assume(sym.And(out[i][0] >= byte(sym.Param("low", 97)), out[i][0] < byte(sym.Param("high", 123))))
	}
	return out
}

// same says whether two projections answer alike about the given types.
func same(a, b *projection.AggregateTypeStats, ts []string) bool {
	if a.TotalEvents() != b.TotalEvents() || a.LatestGlobalSequenceNumber() != b.LatestGlobalSequenceNumber() {
		return false
	}
	for _, t := range ts {
		if a.TotalEventsByAggregateType(t) != b.TotalEventsByAggregateType(t) {
			return false
		}
	}
	return strings.Join(a.SortedAggregateTypes(), ",") == strings.Join(b.SortedAggregateTypes(), ",")
}

// judge compares a projection with the records it has seen.
func judge(p *projection.AggregateTypeStats, ts []string, gs []uint64, when string) {
	sym.Assert(p.TotalEvents() == uint64(len(ts)), "total", "the number of events is wrong "+when)
	last := uint64(0)
	if len(gs) > 0 {
		last = gs[len(gs)-1]
	}
	sym.Assert(p.LatestGlobalSequenceNumber() == last, "latest", "the latest sequence number is wrong "+when)
	q := sym.Str("other", 1)
	sym.Assume(sym.And(q[0] >= 0x20, q[0] < 0x7f))
	n := uint64(0)
	for _, t := range ts {
		if t == q {
			n++
		}
	}
	sym.Assert(p.TotalEventsByAggregateType(q) == n, "bytype", "the number of events of a type is wrong "+when)
	names := p.SortedAggregateTypes()
	sym.Assert(sort.StringsAreSorted(names), "sorted", "the types are not sorted "+when)
	seen := false
	for i, x := range names {
		sym.Assert(i == 0 || names[i-1] != x, "twice", "a type is listed twice "+when)
		seen = seen || x == q
	}
	sym.Assert(seen == (n > 0), "listed", "the list of types is not that of the records "+when)
}

// Stats: the counts are those of the records seen, also across a snapshot.
func Stats() {
	n := sym.Param("records", 3)
	ts := types(n)
	gs := make([]uint64, n)
	cut := sym.Choose("cut", n+1)
	p := projection.NewAggregateTypeStats()
	g := uint64(0)
	for i := range ts {
		gs[i] = sym.U64("gsn")
		sym.Assume(sym.And(gs[i] > g, gs[i] < uint64(sym.Param("below", 10000))))
		g = gs[i]
	}
	accept := func(i int) {
		p.Accept(&rangedb.Record{AggregateType: ts[i], GlobalSequenceNumber: gs[i], StreamSequenceNumber: 1})
	}
	for i := 0; i < cut; i++ {
		accept(i)
	}
	var buf bytes.Buffer
	err := p.SaveSnapshot(&buf)
	sym.Assert(err == nil, "save", "saving a snapshot fails: "+sym.Err(err))
	judge(p, ts[:cut], gs[:cut], "after a snapshot")
	q := projection.NewAggregateTypeStats()
	if sym.Choose("used", 2) == 1 {
		q.Accept(&rangedb.Record{AggregateType: "zz", GlobalSequenceNumber: 99})
	}
	err = q.LoadFromSnapshot(&buf)
	sym.Assert(err == nil, "load", "a saved snapshot cannot be loaded: "+sym.Err(err))
	sym.Assert(q.TotalEventsByAggregateType("zz") == 0, "old", "loading a snapshot keeps counts of before")
	p = q
	for i := cut; i < n; i++ {
		accept(i)
	}
	judge(p, ts, gs, "after records that follow a snapshot")
	sym.Reach("end")
}

// SnapshotContent: whatever a snapshot file holds, loading it either fails
// and changes nothing, or leaves a projection that goes on counting.
func SnapshotContent() {
	p := projection.NewAggregateTypeStats()
	for _, t := range []string{"a", "b", "a"} {
		p.Accept(&rangedb.Record{AggregateType: t, GlobalSequenceNumber: p.TotalEvents() + 5})
	}
	var buf bytes.Buffer
	sym.Assert(p.SaveSnapshot(&buf) == nil, "save", "saving a snapshot fails")
	var in []byte
	switch sym.Choose("content", 3) {
	case 0: // cut short
		in = buf.Bytes()[:sym.Choose("length", buf.Len())]
	case 1:
		in = []byte([]string{"null", "{}", "[]", "7", `{"totalEvents":5}`, `{"totalEventsByAggregateType":null}`, `{"totalEventsByAggregateType":{"a":-1},"totalEvents":9}`, `{"totalEvents":9,"latestGlobalSequenceNumber":"x"}`,
			`{"totalEventsByAggregateType":{"c":1},"totalEventsByAggregateType":null}`}[sym.Choose("document", 9)])
	case 2: // one byte of it is any other
		in = append([]byte(nil), buf.Bytes()...)
		in[sym.Choose("at", len(in))] = sym.Byte("x")
	}
	q := projection.NewAggregateTypeStats()
	q.Accept(&rangedb.Record{AggregateType: "b", GlobalSequenceNumber: 4})
	var r *projection.AggregateTypeStats = projection.NewAggregateTypeStats()
	r.Accept(&rangedb.Record{AggregateType: "b", GlobalSequenceNumber: 4})
	err := q.LoadFromSnapshot(bytes.NewReader(in))
	if err != nil {
		sym.Assert(same(q, r, []string{"a", "b", "c"}), "unchanged", "a snapshot that cannot be loaded changes the projection")
		sym.Reach("refused")
	}
	before, of := q.TotalEvents(), q.TotalEventsByAggregateType("b")
	q.Accept(&rangedb.Record{AggregateType: "b", GlobalSequenceNumber: 1 << 50})
	sym.Assert(q.TotalEvents() == before+1 && q.TotalEventsByAggregateType("b") == of+1, "goes-on", "the projection does not count the record after a snapshot")
	sym.Reach("end")
}

// StatsShared: readers and the subscription use the projection at once.
func StatsShared() {
	p := projection.NewAggregateTypeStats()
	done := make(chan bool)
	sym.SetSched("cfg")
	go func() {
		p.Accept(&rangedb.Record{AggregateType: "a", GlobalSequenceNumber: 1})
		p.Accept(&rangedb.Record{AggregateType: "b", GlobalSequenceNumber: 2})
		done <- true
	}()
	switch sym.Choose("reader", 6) {
	case 0:
		n := p.TotalEvents()
		sym.Assert(p.TotalEvents() >= n, "back", "a count goes back")
	case 1:
		n := p.LatestGlobalSequenceNumber()
		sym.Assert(p.LatestGlobalSequenceNumber() >= n, "back", "a number goes back")
	case 2:
		n := p.TotalEventsByAggregateType("a")
		sym.Assert(p.TotalEventsByAggregateType("a") >= n, "back", "a count goes back")
	case 3:
		n := p.SortedAggregateTypes()
		sym.Assert(len(p.SortedAggregateTypes()) >= len(n), "back", "types vanish")
	case 4:
		var buf bytes.Buffer
		sym.Assert(p.SaveSnapshot(&buf) == nil, "save", "saving a snapshot fails")
		q := projection.NewAggregateTypeStats()
		sym.Assert(q.LoadFromSnapshot(&buf) == nil, "load", "a saved snapshot cannot be loaded")
		sym.Assert(q.TotalEvents() == q.LatestGlobalSequenceNumber() && int(q.TotalEvents()) == len(q.SortedAggregateTypes()), "torn", "a snapshot mixes two states")
	case 5:
		p.Accept(&rangedb.Record{AggregateType: "b", GlobalSequenceNumber: 3})
	}
	<-done
	sym.SetSched("det")
	sym.Assert(p.TotalEventsByAggregateType("a") == 1, "count", "a record is not counted")
	sym.Reach("end")
}

// blob is a projection whose state is a text.
type blob struct {
	name  string
	state string
	fail  bool
}

var errBlob = errors.New("projection failure")

func (b *blob) SnapshotName() string { return "blob" + b.name }

func (b *blob) SaveSnapshot(w io.Writer) error {
	h := len(b.state) / 2
	if _, err := io.WriteString(w, b.state[:h]); err != nil {
		return err
	}
	if b.fail {
		return errBlob
	}
	_, err := io.WriteString(w, b.state[h:])
	return err
}

func (b *blob) LoadFromSnapshot(r io.Reader) error {
	s, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	// a whole state starts and ends with a mark
	if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
		return errBlob
	}
	b.state = string(s)
	return nil
}

// Snapshots: a snapshot is read back as it was saved, whatever it replaces.
func Snapshots() {
	dir := "/snap"
	if sym.Symbolic() {
		f := mos.New()
		f.Mkdir(dir)
		mos.Use(f)
	} else {
		d, err := os.MkdirTemp("", "snap")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d
	}
	st := projection.NewDiskSnapshotStore(dir)
	err := st.Load(&blob{})
	sym.Assert(err != nil, "missing", "a snapshot that was never saved is loaded")
	want := ""
	for i := 0; i < sym.Param("saves", 2); i++ {
		want = "<" + sym.Str("state", sym.Choose("length", 4)) + ">"
		err := st.Save(&blob{state: want})
		sym.Assert(err == nil, "save", "saving a snapshot fails: "+sym.Err(err))
		got := &blob{}
		err = st.Load(got)
		sym.Assert(err == nil && sym.StrEq(got.state, want), "load", "a snapshot is not read back as it was saved")
	}
	sym.Reach("end")
}

// SnapshotsShared: two snapshots are saved at the same time, of one
// projection or of two.
func SnapshotsShared() {
	dir := "/snap"
	var f *mos.FS
	if sym.Symbolic() {
		f = mos.New()
		f.Mkdir(dir)
		mos.Use(f)
	} else {
		d, err := os.MkdirTemp("", "snap")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = d
	}
	st := projection.NewDiskSnapshotStore(dir)
	two := ""
	if sym.Choose("two", 2) == 1 {
		two = "2"
	}
	var e1, e2 error
	done := make(chan bool)
	sym.SetSched("cfg")
	go func() {
		e1 = st.Save(&blob{state: "<one, and longer>"})
		done <- true
	}()
	e2 = st.Save(&blob{name: two, state: "<two>"})
	<-done
	sym.SetSched("det")
	sym.Assert(e1 == nil && e2 == nil, "save", "one of two snapshots saved at the same time fails: "+sym.Err(e1)+", "+sym.Err(e2))
	for i := 0; i < 2; i++ {
		a, b := &blob{}, &blob{name: two}
		ea, eb := st.Load(a), st.Load(b)
		sym.Assert(ea == nil && eb == nil, "load", "a snapshot saved at the same time as another cannot be loaded: "+sym.Err(ea)+", "+sym.Err(eb))
		if two == "" {
			sym.Assert(a.state == "<one, and longer>" || a.state == "<two>", "load", "a snapshot is not read back as it was saved")
		} else {
			sym.Assert(a.state == "<one, and longer>" && b.state == "<two>", "load", "a snapshot is not read back as it was saved")
		}
		if f != nil {
			f.Restart()
			sym.Reach("restart")
		}
	}
}

// SnapshotCrash: a save that fails, or during which the machine stops, leaves
// the earlier snapshot or the later one; one that succeeded leaves the later.
func SnapshotCrash() {
	f := mos.New()
	f.Mkdir("/snap")
	mos.Use(f)
	st := projection.NewDiskSnapshotStore("/snap")
	had := sym.Choose("had", 2) == 1
	if had {
		err := st.Save(&blob{state: "<old, and longer>"})
		sym.Assert(err == nil, "save", "saving a snapshot fails: "+sym.Err(err))
	}
	next := &blob{state: "<new>"}
	switch sym.Choose("trouble", 3) {
	case 0:
		f.CrashAt = f.Ops() + sym.Choose("crash", 12)
	case 1:
		f.FailAt = f.Ops() + sym.Choose("fail", 12)
	case 2:
		next.fail = true
	}
	saved := false
	stopped := f.Run(func() { saved = st.Save(next) == nil })
	sym.Assert(!saved || !next.fail, "hidden", "a save whose projection failed is reported as done")
	if sym.Choose("restart", 2) == 1 || stopped {
		f.Restart()
		sym.Reach("restart")
	} else {
		f.CrashAt, f.FailAt = -1, -1
	}
	got := &blob{}
	err := st.Load(got)
	switch {
	case saved:
		sym.Assert(err == nil && got.state == "<new>", "lost", "a snapshot that was saved is lost: "+sym.Err(err))
		sym.Reach("saved")
	case had:
		sym.Assert(err == nil && (got.state == "<new>" || got.state == "<old, and longer>"), "destroyed", "a save that did not succeed destroys the earlier snapshot: "+sym.Err(err))
		sym.Reach("kept")
	default:
		sym.Assert(err != nil || got.state == "<new>", "made-up", "a snapshot that was never saved is loaded")
		sym.Reach("none")
	}
	err = st.Save(&blob{state: "<last>"})
	sym.Assert(err == nil, "again", "a later save fails: "+sym.Err(err))
	err = st.Load(got)
	sym.Assert(err == nil && got.state == "<last>", "after", "a later snapshot is not read back")
	sym.Reach("end")
}
