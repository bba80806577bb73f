// Package keys has the harnesses of the key stores that keep their keys on a
// server: PostgreSQL (models/pq), Vault (vault.go) and DynamoDB (models/aws).
package keys

import (
	"errors"
	"fmt"
	"net/http"

	"github.com/aws/aws-sdk-go/aws/awserr"
	"github.com/aws/aws-sdk-go/service/dynamodb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/provider/dynamodbkeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/postgreskeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/vaultkeystore"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"github.com/lib/pq"

	"verif/sym"
)

// system is a server. fault says how requests fail: 0 not, 1 without effect, 2 with it.
type system struct {
	kind  int
	vault *vault
	fault func() int
}

const (
	postgres = iota
	hashicorp
	dynamo
)

func newSystem() *system {
	y := &system{kind: sym.Param("kind", 0)}
	switch y.kind {
	case postgres:
		pq.Reset()
	case hashicorp:
		y.vault = newVault()
	case dynamo:
		dynamodb.Reset()
		dynamodb.Stale = func(n int) int { return sym.Choose("stale", n) }
		y.connect().(interface{ CreateTable(string) error }).CreateTable("keys")
	}
	return y
}

// connect opens a key store on the server.
func (y *system) connect() crypto.KeyStore {
	var err error
	switch y.kind {
	case postgres:
		s, e := postgreskeystore.New(&postgresstore.Config{Host: "h", Port: 1, User: "u", Password: "p", DBName: "d"})
		if err = e; e == nil {
			return s
		}
	case hashicorp:
		s, e := vaultkeystore.New(vaultkeystore.Config{Address: "http://vault:8200", Token: "token"})
		if err = e; e == nil {
			s.SetTransport(http.RoundTripper(y.vault))
			return s
		}
	case dynamo:
		s, e := dynamodbkeystore.New(&dynamodbkeystore.Config{TableName: "keys", AWSRegion: "r", AccessKeyID: "a", SecretAccessKey: "s"})
		if err = e; e == nil {
			return s
		}
	}
	sym.Fail("connect", "the key store does not open: "+sym.Err(err))
	return nil
}

var errServer = errors.New("server failure")

// fail makes requests fail as f says.
func (y *system) fail(f func() int) {
	switch y.kind {
	case postgres:
		pq.Fault = nil
		if f != nil {
			pq.Fault = func(op string) error {
				if (op == "exec" || op == "query") && f() != 0 {
					return errServer
				}
				return nil
			}
		}
	case hashicorp:
		y.vault.fault = nil
		if f != nil {
			y.vault.fault = func(string) int { return f() }
		}
	case dynamo:
		dynamodb.Fault = nil
		if f != nil {
			after := false
			dynamodb.Fault = func(op string) error {
				if op == "after-put" || op == "after-update" {
					if after {
						return errServer
					}
					return nil
				}
				k := f()
				after = k == 2
				switch {
				case k == 1 || k == 2 && op == "get":
					return errServer
				case k == 3:
					return awserr.New(dynamodb.ErrCodeInternalServerError, "internal", nil)
				}
				return nil
			}
		}
	}
}

// kinds is the number of ways a request goes.
func (y *system) kinds() int {
	if y.kind == postgres {
		return 2
	}
	return 4
}

// holds reports whether the server holds a text.
func (y *system) holds(key string) bool {
	var all []string
	switch y.kind {
	case postgres:
		all = pq.Values("vault")
	case hashicorp:
		all = y.vault.values()
	case dynamo:
		all = dynamodb.Values()
	}
	for _, v := range all {
		if sym.StrEq(v, key) {
			return true
		}
	}
	return false
}

// idle: the end of an operation leaves nothing behind that holds a connection.
func (y *system) idle() {
	sym.Quiesce()
	switch y.kind {
	case postgres:
		sym.Assert(pq.OpenTransactions() == 0, "idle", "an operation leaves its transaction open")
	case hashicorp:
		y.vault.mu.Lock()
		open := y.vault.open
		y.vault.mu.Unlock()
		sym.Assert(open == 0, "idle", "an operation does not close the server's response: its connection is lost")
	}
}

type state struct {
	subject, key string
	deleted      bool
}

func text(label string, n int) string {
	s := sym.Str(label, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.Or(sym.And(s[i] >= 'a', s[i] <= 'z'), sym.And(s[i] >= '0', s[i] <= '9')))
	}
	return s
}

// History: Set, Get and Delete by clients of one server behave as a map in
// which a subject gets a key at most once; a deleted key is no longer on the
// server and never comes back.
func History() {
	y := newSystem()
	clients := []crypto.KeyStore{y.connect(), y.connect()}
	var states []*state
	find := func(s string) *state {
		for _, x := range states {
			if sym.StrEq(x.subject, s) {
				return x
			}
		}
		return nil
	}
	subject := func() string {
		if y.kind == hashicorp {
			return []string{"s1", "s2"}[sym.Choose("subject", 2)]
		}
		return text("subject", 1)
	}
	check := func(st crypto.KeyStore, s string) {
		got, err := st.Get(s)
		x := find(s)
		switch {
		case x == nil:
			sym.Assert(errors.Is(err, crypto.ErrKeyNotFound) && got == "", "absent", "Get of a subject without a key: "+sym.Err(err))
			sym.Reach("absent")
		case x.deleted:
			sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted) && got == "", "deleted", "Get of a subject with a deleted key: "+sym.Err(err))
			sym.Reach("deleted")
		default:
			sym.Assert(err == nil, "present", "Get of a subject with a key: "+sym.Err(err))
			sym.Assert(sym.StrEq(got, x.key), "key", "Get gives another key than was set")
			sym.Reach("present")
		}
	}
	n := sym.Param("ops", 3)
	for i := 0; i < n; i++ {
		st := clients[i%2]
		switch sym.Choose("op", 3) {
		case 0:
			s := subject()
			key := ""
			if sym.Choose("empty", 2) == 0 {
				key = fmt.Sprintf("k%d-", i) + text("key", 1)
			}
			err := st.Set(s, key)
			switch {
			case key == "":
				sym.Assert(errors.Is(err, crypto.ErrInvalidKey), "invalid", "Set accepts an empty key: "+sym.Err(err))
				sym.Reach("invalid")
			case find(s) != nil:
				sym.Assert(errors.Is(err, crypto.ErrKeyExistsForSubjectID), "exists", "Set replaces a key or a deleted one: "+sym.Err(err))
				sym.Assert(!y.holds(key), "exists", "a refused key is on the server")
				sym.Reach("exists")
			default:
				sym.Assert(err == nil, "set", "Set of a new subject fails: "+sym.Err(err))
				states = append(states, &state{s, key, false})
			}
		case 1:
			s := subject()
			x := find(s)
			sym.Assume(x != nil)
			err := st.Delete(s)
			sym.Assert(err == nil, "delete", "Delete fails: "+sym.Err(err))
			x.deleted = true
			sym.Assert(!y.holds(x.key), "shred", "a deleted key is still on the server")
		case 2:
			check(st, subject())
		}
	}
	last := y.connect()
	for _, x := range append([]*state(nil), states...) {
		check(last, x.subject)
		sym.Assert(x.deleted || y.holds(x.key), "kept", "a key is not on the server")
	}
	y.idle()
}

// Used: a key that a subject has is refused for another (PostgreSQL only).
func Used() {
	y := newSystem()
	st := y.connect()
	a, b := text("a", 2), text("b", 2)
	sym.Assert(st.Set("s", a) == nil, "set", "Set fails")
	err := st.Set("t", b)
	if sym.StrEq(a, b) {
		sym.Assert(errors.Is(err, crypto.ErrKeyAlreadyUsed), "used", "Set gives two subjects the same key: "+sym.Err(err))
		_, err = st.Get("t")
		sym.Assert(errors.Is(err, crypto.ErrKeyNotFound), "used", "a refused Set changes something: "+sym.Err(err))
		sym.Reach("used")
	} else {
		sym.Assert(err == nil, "set", "Set fails: "+sym.Err(err))
	}
}

// Faults: with a server that fails once at any request, no operation lies.
func Faults() {
	y := newSystem()
	st := y.connect()
	before := sym.Choose("before", 3) // none, a key, a deleted key
	if before > 0 {
		sym.Assert(st.Set("s", "old") == nil, "set", "Set fails")
	}
	if before > 1 {
		sym.Assert(st.Delete("s") == nil, "delete", "Delete fails")
	}
	failed := 0
	y.fail(func() int {
		if failed == 0 {
			failed = sym.Choose("fault", y.kinds())
			return failed
		}
		return 0
	})
	op := sym.Choose("op", 3)
	var got string
	var err error
	switch op {
	case 0:
		err = st.Set("s", "new")
	case 1:
		got, err = st.Get("s")
	case 2:
		sym.Assume(before > 0)
		err = st.Delete("s")
	}
	y.fail(nil)
	if failed != 0 {
		sym.Reach("fault")
	}
	// what must be, and what may be when the outcome was reported as a failure
	key, kerr := y.connect().Get("s")
	is := func(x int) bool {
		switch x {
		case 0:
			return errors.Is(kerr, crypto.ErrKeyNotFound)
		case 1:
			return kerr == nil && key == "old"
		case 2:
			return errors.Is(kerr, crypto.ErrKeyWasDeleted) && !y.holds("old") && !y.holds("new")
		}
		return kerr == nil && key == "new"
	}
	desc := fmt.Sprintf("after %s Get gives %q %s", sym.Err(err), key, sym.Err(kerr))
	switch op {
	case 0:
		if before == 0 {
			if err == nil {
				sym.Assert(is(3), "set", "Set succeeds, but "+desc)
			} else {
				sym.Assert(failed != 0, "set", "Set fails without a reason: "+sym.Err(err))
				sym.Assert(!errors.Is(err, crypto.ErrKeyExistsForSubjectID) && !errors.Is(err, crypto.ErrKeyAlreadyUsed), "set", "Set reports a failure as an existing key: "+sym.Err(err))
				sym.Assert(is(0) || (is(3) && failed == 2), "set", "Set fails, and "+desc)
			}
		} else {
			sym.Assert(err != nil, "overwrite", "Set of a subject that has had a key succeeds when the server fails")
			sym.Assert(is(before), "overwrite", "a failing Set changes something: "+desc)
		}
	case 1:
		if failed != 0 {
			sym.Assert(err != nil && got == "", "get", "Get hides a failure")
			sym.Assert(!errors.Is(err, crypto.ErrKeyNotFound) && !errors.Is(err, crypto.ErrKeyWasDeleted), "get", "Get reports a failure as an absent key: "+sym.Err(err))
		}
		sym.Assert(is(before), "get", "Get changes something: "+desc)
	case 2:
		if err == nil {
			sym.Assert(is(2), "delete", "Delete succeeds, but "+desc)
		} else {
			sym.Assert(failed != 0, "delete", "Delete fails without a reason: "+sym.Err(err))
			sym.Assert(is(before) || (is(2) && failed == 2), "delete", "Delete fails, and "+desc)
		}
		sym.Reach("delete")
	}
	y.idle()
}

// Race: concurrent operations of two clients on one subject.
func Race() {
	y := newSystem()
	a, b := y.connect(), y.connect()
	mode := sym.Choose("mode", 3)
	if mode > 0 {
		sym.Assert(a.Set("s", "k") == nil, "set", "Set fails")
	}
	var e1, e2 error
	var got string
	sym.SetSched("cfg")
	done := make(chan bool, 2)
	go func() {
		if mode == 0 {
			e1 = a.Set("s", "k1")
		} else {
			e1 = a.Delete("s")
		}
		done <- true
	}()
	go func() {
		switch mode {
		case 0:
			e2 = b.Set("s", "k2")
		case 1:
			e2 = b.Set("s", "k2")
		case 2:
			got, e2 = b.Get("s")
		}
		done <- true
	}()
	<-done
	<-done
	key, err := y.connect().Get("s")
	switch mode {
	case 0:
		sym.Assert((e1 == nil) != (e2 == nil), "winners", "not one of two concurrent Sets for one subject succeeds: "+sym.Err(e1)+", "+sym.Err(e2))
		want, lost := "k1", e2
		if e2 == nil {
			want, lost = "k2", e1
		}
		sym.Assert(errors.Is(lost, crypto.ErrKeyExistsForSubjectID), "loser", "the Set that loses does not report that the subject has a key: "+sym.Err(lost))
		sym.Assert(err == nil && key == want, "winner", "Get gives "+key+" "+sym.Err(err)+" instead of the key whose Set succeeded")
		sym.Reach("set")
	case 1:
		sym.Assert(errors.Is(e2, crypto.ErrKeyExistsForSubjectID), "exists", "Set during a deletion: "+sym.Err(e2))
		sym.Reach("delete-set")
	case 2:
		sym.Assert((e2 == nil && got == "k") || (errors.Is(e2, crypto.ErrKeyWasDeleted) && got == ""), "get", "Get during a deletion gives "+got+" "+sym.Err(e2))
		sym.Reach("delete-get")
	}
	if mode > 0 {
		sym.Assert(e1 == nil, "delete", "Delete fails: "+sym.Err(e1))
		sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted) && !y.holds("k"), "undead", "after Delete, Get gives "+key+" "+sym.Err(err))
	}
}
