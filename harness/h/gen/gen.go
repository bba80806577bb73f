// Package gen checks what the code generators generate. The generated code, of
// a family of declarations, is written into zz_*.go by genmake before every run.
package gen

import (
	"context"
	"errors"
	"fmt"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/pkg/crypto"

	"verif/sym"
)

// Field is a field of a declaration.
type Field struct {
	Name   string
	Marked bool // as personal data
	S      *string
	N      *int
	Target *string // takes the encrypted number
}

// Fields is an event of a declaration.
type Fields struct {
	Event, Other rangedb.Event
	ID, Subject  *string
	All          []Field
}

// Shape is a declaration, and what became of it.
type Shape struct {
	Name, Source    string
	Refused, Broken string
	Valid           bool
	New             func() Fields
}

// Agg is a generated aggregate.
type Agg struct {
	Name, Broken             string
	New                      func() (cqrs.Aggregate, *[]string)
	Events                   []func(id string) (rangedb.Event, rangedb.Event)
	Commands                 []func(id string, n int) (cqrs.Command, cqrs.Command)
	EventNames, CommandNames []string
}

var (
	shapes     []Shape
	aggs       []Agg
	bound      func(rangedb.EventBinder)
	boundNames []string
	binderErr  string
)

// Raised is an event of the aggregates.
type Raised struct {
	From string
	I    int
}

// AggregateID implements rangedb.Event.
func (r *Raised) AggregateID() string { return r.From }

// AggregateType implements rangedb.Event.
func (r *Raised) AggregateType() string { return "raised" }

// EventType implements rangedb.Event.
func (r *Raised) EventType() string { return "Raised" }

type sealed struct{ subject, plain string }

var errOther = errors.New("key store unavailable")

// vault is an ideal encryptor.
type vault struct {
	all  []sealed
	left int // operations until it fails
	err  error
}

func (v *vault) fails() bool {
	v.left--
	return v.left < 0
}

// Encrypt implements crypto.Encryptor.
func (v *vault) Encrypt(subject, plain string) (string, error) {
	if v.fails() {
		return "", v.err
	}
	v.all = append(v.all, sealed{subject, plain})
	return fmt.Sprintf("#%d", len(v.all)-1), nil
}

// Decrypt implements crypto.Encryptor.
func (v *vault) Decrypt(subject, text string) (string, error) {
	if v.fails() {
		return "", v.err
	}
	s := v.at(text)
	if s == nil || s.subject != subject {
		return "", crypto.ErrInvalidCipherText
	}
	return s.plain, nil
}

func (v *vault) at(text string) *sealed {
	for i := range v.all {
		if text == fmt.Sprintf("#%d", i) {
			return &v.all[i]
		}
	}
	return nil
}

type value struct {
	s string
	n int
}

func (f *Fields) get() []value {
	r := []value{{s: *f.ID}, {s: *f.Subject}}
	for _, x := range f.All {
		var v value
		if x.S != nil {
			v.s = *x.S
		} else {
			v.n = *x.N
		}
		r = append(r, v)
		if x.Target != nil {
			r = append(r, value{s: *x.Target})
		}
	}
	return r
}

func equal(a, b []value) bool {
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.And(sym.StrEq(a[i].s, b[i].s), a[i].n == b[i].n))
	}
	return ok
}

func text(name string) string {
	t := sym.Str(name, 1)
	sym.Assume(t[0] < 128)
	return "v" + t
}

// Events: the code generated for a declaration hides all that it marks as
// personal data, for its subject, and brings it back; a declaration for which
// that cannot be done is refused.
func Events() {
	sh := shapes[sym.Choose("declaration", len(shapes))]
	if sh.Refused != "" {
		sym.Assert(!sh.Valid, "refused", "a valid declaration is refused: "+sh.Refused+"\n"+sh.Source)
		sym.Reach("refused")
		return
	}
	if sh.Broken != "" {
		sym.Assert(!sh.Valid, "broken", "the code generated for a valid declaration does not compile: "+sh.Broken+"\n"+sh.Source)
		sym.Reach("refused")
		return
	}
	f := sh.New()
	*f.ID = text("id")
	if f.Subject != f.ID {
		*f.Subject = text("subject")
	}
	marked := 0
	for _, x := range f.All {
		if x.S != nil {
			*x.S = text(x.Name)
		} else {
			*x.N = sym.Int(x.Name, -99, 999)
		}
		if x.Marked {
			marked++
		}
	}
	e := f.Event
	sym.Assert(sym.StrEq(e.AggregateID(), *f.ID) && e.AggregateType() == "thing" && e.EventType() == sh.Name, "identity", "the generated methods do not identify the event")
	sym.Assert(f.Other.AggregateType() == "thing" && f.Other.EventType() == "T"+sh.Name, "identity", "the generated methods do not identify the event")
	_, other := f.Other.(crypto.SelfEncryptor)
	sym.Assert(!other, "other", "an event without personal data encrypts itself")
	c, ok := e.(crypto.SelfEncryptor)
	if !ok {
		sym.Assert(marked == 0, "plaintext", "personal data are not encrypted and nobody is told\n"+sh.Source)
		sym.Reach("plain")
		return
	}
	v := &vault{left: 100, err: crypto.ErrKeyWasDeleted}
	scenario := sym.Choose("scenario", 5)
	if scenario > 2 {
		sym.Assume(marked > 0)
	}
	if scenario >= 3 {
		v.err = []error{crypto.ErrKeyWasDeleted, errOther}[scenario-3]
	}
	before := f.get()
	if scenario >= 3 && sym.Choose("encrypting", 2) == 1 {
		v.left = sym.Choose("failure", marked)
		err := c.Encrypt(v)
		sym.Assert(err == v.err, "encrypt-error", "a failure to encrypt is not reported")
		f.failed(sh, before, scenario == 3)
		return
	}
	err := c.Encrypt(v)
	sym.Assert(err == nil, "encrypt", "encrypting fails: "+sym.Err(err))
	i := 2
	for _, x := range f.All {
		b := before[i]
		i++
		if x.Target != nil {
			i++
		}
		if !x.Marked {
			sym.Assert(x.S == nil || sym.StrEq(*x.S, b.s), "unmarked", "encrypting changes "+x.Name+", which is not marked\n"+sh.Source)
			sym.Assert(x.N == nil || *x.N == b.n, "unmarked", "encrypting changes "+x.Name+", which is not marked\n"+sh.Source)
			continue
		}
		at, want := x.Target, b.s
		if x.S != nil {
			at = x.S
		} else {
			sym.Assert(*x.N == 0, "plaintext", "personal data are not encrypted: "+x.Name+"\n"+sh.Source)
			want = fmt.Sprint(b.n)
		}
		sym.Assert(at != nil, "plaintext", "there is no place for the encrypted "+x.Name+"\n"+sh.Source)
		s := v.at(*at)
		sym.Assert(s != nil, "plaintext", "personal data are not encrypted: "+x.Name+"\n"+sh.Source)
		sym.Assert(sym.StrEq(s.plain, want), "lost", "personal data are lost in encryption: "+x.Name+"\n"+sh.Source)
		sym.Assert(sym.StrEq(s.subject, *f.Subject), "subject", "personal data are encrypted for another subject: "+x.Name+"\n"+sh.Source)
	}
	sym.Assert(sym.StrEq(*f.ID, before[0].s) && sym.StrEq(*f.Subject, before[1].s), "identity", "encrypting changes the identity of the event")
	if scenario >= 3 {
		v.left = sym.Choose("failure", marked)
		during := f.get()
		err := c.Decrypt(v)
		sym.Assert(err == v.err, "decrypt-error", "a failure to decrypt is not reported")
		f.failed(sh, during, scenario == 3)
		return
	}
	err = c.Decrypt(v)
	sym.Assert(err == nil, "decrypt", "decrypting fails: "+sym.Err(err))
	sym.Assert(equal(before, f.get()), "roundtrip", "an event is another one after encryption and decryption\n"+sh.Source)
	if scenario == 1 { // again
		sym.Assert(c.Encrypt(v) == nil && c.Decrypt(v) == nil, "again", "encrypting again fails")
		sym.Assert(equal(before, f.get()), "roundtrip", "an event is another one after encrypting it again\n"+sh.Source)
	}
	sym.Reach("roundtrip")
}

// failed: after a failure the event is as before, or, when the key is gone,
// without personal data.
func (f *Fields) failed(sh Shape, before []value, deleted bool) {
	now := f.get()
	if !deleted {
		sym.Assert(equal(before, now), "partly", "a failure leaves an event half done\n"+sh.Source)
		sym.Reach("failed")
		return
	}
	i := 2
	for _, x := range f.All {
		if x.Marked {
			sym.Assert(x.S == nil || *x.S == "", "redacted", "personal data stay although the key was deleted: "+x.Name+"\n"+sh.Source)
			sym.Assert(x.N == nil || *x.N == 0, "redacted", "personal data stay although the key was deleted: "+x.Name+"\n"+sh.Source)
		} else {
			sym.Assert(x.S == nil || sym.StrEq(*x.S, before[i].s), "unmarked", "redaction changes "+x.Name+"\n"+sh.Source)
			sym.Assert(x.N == nil || *x.N == before[i].n, "unmarked", "redaction changes "+x.Name+"\n"+sh.Source)
		}
		i++
		if x.Target != nil {
			i++
		}
	}
	sym.Assert(sym.StrEq(*f.ID, before[0].s) && sym.StrEq(*f.Subject, before[1].s), "identity", "redaction changes the identity of the event")
	sym.Reach("deleted")
}

// Aggregates: a generated aggregate loads its own events, in order, hands
// commands to their handlers, returns what they raise, once, and names them all.
func Aggregates() {
	a := aggs[sym.Choose("aggregate", len(aggs))]
	sym.Assert(a.Broken == "", "broken", "the generated code is refused or does not compile: "+a.Broken)
	agg, log := a.New()
	types := agg.CommandTypes()
	sym.Assert(fmt.Sprint(types) == fmt.Sprint(a.CommandNames), "types", fmt.Sprintf("the commands are %v and not %v", types, a.CommandNames))
	var want []string
	n := sym.Param("records", 3)
	recs := make(chan rangedb.ResultRecord, n)
	for i := 0; i < n; i++ {
		id := text("id")
		k := sym.Choose("record", 2*len(a.Events)+3)
		switch {
		case k < 2*len(a.Events):
			v, p := a.Events[k/2](id)
			sym.Assert(p.EventType() == a.EventNames[k/2] && p.AggregateType() == "thing" && p.AggregateID() == id, "event", "the generated methods do not identify the event")
			r := &rangedb.Record{Data: v}
			if k%2 == 1 {
				r.Data = p
			}
			recs <- rangedb.ResultRecord{Record: r}
			want = append(want, a.EventNames[k/2]+":"+id)
		case k == 2*len(a.Events):
			recs <- rangedb.ResultRecord{Record: &rangedb.Record{Data: &Raised{From: id}}}
		case k == 2*len(a.Events)+1:
			recs <- rangedb.ResultRecord{Record: &rangedb.Record{Data: map[string]interface{}{"ID": id}}}
		default:
			recs <- rangedb.ResultRecord{Record: &rangedb.Record{}}
		}
	}
	close(recs)
	agg.Load(rangedb.NewRecordIterator(recs))
	for i := 0; i < sym.Param("commands", 2); i++ {
		var want2 int
		var name string
		k := sym.Choose("command", 2*len(a.Commands)+1)
		var c cqrs.Command = foreign{}
		if k < 2*len(a.Commands) {
			id := text("id")
			want2 = sym.Choose("raised", 3)
			v, p := a.Commands[k/2](id, want2)
			c, name = v, a.CommandNames[k/2]
			if k%2 == 1 {
				c = p
			}
			sym.Assert(c.CommandType() == name && c.AggregateType() == "thing" && c.AggregateID() == id, "command", "the generated methods do not identify the command")
			want = append(want, name+":"+id)
		}
		got := agg.Handle(c)
		sym.Assert(len(got) == want2, "raised", fmt.Sprintf("%d events are returned instead of %d", len(got), want2))
		for j, e := range got {
			r, ok := e.(*Raised)
			sym.Assert(ok && r.From == name && r.I == j, "raised", "other events are returned than were raised")
		}
	}
	sym.Assert(len(*log) == len(want), "handled", fmt.Sprintf("%d events and commands are handled instead of %d", len(*log), len(want)))
	for i := range want {
		sym.Assert(sym.StrEq((*log)[i], want[i]), "handled", "an event or command is handled as another one, or out of order")
	}
	sym.Reach("end")
}

type foreign struct{}

func (foreign) AggregateID() string   { return "1" }
func (foreign) AggregateType() string { return "thing" }
func (foreign) CommandType() string   { return "Foreign" }

type binder struct{ got []rangedb.Event }

func (b *binder) Bind(events ...rangedb.Event) { b.got = append(b.got, events...) }

// Binder: the generated binder binds every event of the files.
func Binder() {
	_ = context.Background()
	sym.Assert(binderErr == "", "broken", "the generated code is refused or does not compile: "+binderErr)
	b := &binder{}
	bound(b)
	k := sym.Choose("event", len(boundNames))
	n := 0
	for _, e := range b.got {
		if e.EventType() == boundNames[k] {
			n++
		}
	}
	sym.Assert(n == 1, "unbound", fmt.Sprintf("%s is bound %d times", boundNames[k], n))
	sym.Reach("end")
}
