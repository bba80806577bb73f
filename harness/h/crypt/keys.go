package crypt

import (
	"errors"
	"fmt"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"

	"verif/sym"
)

// faulty is a key store whose operations can fail without effect.
type faulty struct {
	crypto.KeyStore
	fail func(op string) bool
}

var errBackend = errors.New("backend failure")

func (f *faulty) Get(s string) (string, error) {
	if f.fail != nil && f.fail("get") {
		return "", errBackend
	}
	return f.KeyStore.Get(s)
}

func (f *faulty) Set(s, k string) error {
	if f.fail != nil && f.fail("set") {
		return errBackend
	}
	return f.KeyStore.Set(s, k)
}

func (f *faulty) Delete(s string) error {
	if f.fail != nil && f.fail("delete") {
		return errBackend
	}
	return f.KeyStore.Delete(s)
}

type keySys struct {
	kind  int // 0 in memory, 1 cache over two in-memory stores
	first crypto.KeyStore
	sec   crypto.KeyStore
	st    crypto.KeyStore
}

func newKeySys(kind int) *keySys {
	k := &keySys{kind: kind, sec: inmemorykeystore.New()}
	k.restart()
	return k
}

// restart empties the cache, and keeps the store behind it.
func (k *keySys) restart() {
	if k.kind == 0 {
		k.st = k.sec
		return
	}
	k.first = inmemorykeystore.New()
	k.st = cachekeystore.New(k.first, k.sec)
}

type keyState struct {
	subject, key string
	deleted      bool
}

// KeyStore: Set, Get and Delete of arbitrary subjects and keys behave as a map in which a subject is assigned a key
// at most once, and a deleted key never comes back.
func KeyStore() {
	k := newKeySys(sym.Choose("kind", 2))
	var state []*keyState
	find := func(s string) *keyState {
		for _, x := range state {
			if sym.StrEq(x.subject, s) {
				return x
			}
		}
		return nil
	}
	subject := func() string { return sym.Str("subject", sym.Choose("slen", 2)) }
	check := func(s, when string) {
		got, err := k.st.Get(s)
		x := find(s)
		switch {
		case x == nil:
			sym.Assert(errors.Is(err, crypto.ErrKeyNotFound) && got == "", "absent", "Get of a subject without a key "+when+": "+sym.Err(err))
		case x.deleted:
			sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted) && got == "", "deleted", "Get of a subject with a deleted key "+when+": "+sym.Err(err))
			sym.Reach("deleted")
		default:
			sym.Assert(err == nil, "present", "Get of a subject with a key "+when+": "+sym.Err(err))
			sym.Assert(sym.StrEq(got, x.key), "key", "Get gives another key than was set "+when)
			sym.Reach("present")
		}
	}
	n := sym.Param("ops", 3)
	for i := 0; i < n; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			s, key := subject(), sym.Str("key", sym.Choose("klen", 2))
			err := k.st.Set(s, key)
			x := find(s)
			used := false
			for _, y := range state {
				if y.key != "" && sym.StrEq(y.key, key) {
					used = true
				}
			}
			switch {
			case key == "":
				sym.Assert(errors.Is(err, crypto.ErrInvalidKey), "invalid", "Set accepts an empty key: "+sym.Err(err))
			case x != nil && used:
				sym.Assert(errors.Is(err, crypto.ErrKeyExistsForSubjectID) || errors.Is(err, crypto.ErrKeyAlreadyUsed), "exists", "Set replaces a key: "+sym.Err(err))
			case x != nil:
				sym.Assert(errors.Is(err, crypto.ErrKeyExistsForSubjectID), "exists", "Set replaces a key: "+sym.Err(err))
				sym.Reach("exists")
			case used:
				sym.Assert(errors.Is(err, crypto.ErrKeyAlreadyUsed), "used", "Set gives two subjects the same key: "+sym.Err(err))
				sym.Reach("used")
			default:
				sym.Assert(err == nil, "set", "Set of a new subject fails: "+sym.Err(err))
				state = append(state, &keyState{s, key, false})
			}
		case 1:
			s := subject()
			err := k.st.Delete(s)
			sym.Assert(err == nil, "delete", "Delete fails: "+sym.Err(err))
			if x := find(s); x != nil {
				x.deleted = true
			} else {
				state = append(state, &keyState{s, "", true})
			}
		case 2:
			check(subject(), "")
		case 3:
			k.restart()
			sym.Reach("restart")
		}
	}
	for _, x := range append([]*keyState(nil), state...) {
		check(x.subject, "at the end")
		check(x.subject, "at the end, again")
	}
	k.restart()
	for _, x := range append([]*keyState(nil), state...) {
		check(x.subject, "after a restart of the cache")
	}
}

// KeyFaults: when one of the stores behind a cache fails, no operation lies: a key that was set is not lost, a failed
// Set or Delete is reported, and after a Delete that succeeded the key is gone.
func KeyFaults() {
	first, sec := &faulty{KeyStore: inmemorykeystore.New()}, &faulty{KeyStore: inmemorykeystore.New()}
	st := cachekeystore.New(first, sec)
	budget := 1
	fail := func(op string) bool {
		if budget > 0 && sym.Choose("fail-"+op, 2) == 1 {
			budget--
			return true
		}
		return false
	}
	first.fail, sec.fail = fail, fail
	setErr := st.Set("s", "k")
	sym.Assert(setErr != nil || budget == 1, "set-error", "Set hides a failure")
	delErr := errors.New("none")
	if sym.Choose("delete", 2) == 1 {
		b := budget
		delErr = st.Delete("s")
		sym.Assert(delErr != nil || b == budget, "delete-error", "Delete hides a failure")
	}
	got, err := st.Get("s")
	if err == nil {
		sym.Assert(got == "k", "get", "Get gives a key that was not set")
		sym.Assert(delErr != nil, "undead", "Get gives a key whose deletion succeeded")
	}
	budget = 0
	got, err = st.Get("s")
	switch {
	case delErr == nil:
		sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted), "undead", "after a successful deletion Get does not report it: "+sym.Err(err))
		sym.Reach("deleted")
	case setErr == nil && delErr.Error() == "none":
		sym.Assert(err == nil && got == "k", "lost", "a key that was set is lost: "+sym.Err(err))
		sym.Reach("kept")
	}
	// what the store behind the cache says is final
	again := cachekeystore.New(inmemorykeystore.New(), sec)
	g2, e2 := again.Get("s")
	if delErr == nil {
		sym.Assert(errors.Is(e2, crypto.ErrKeyWasDeleted), "undead", "after a restart a deleted key is back: "+sym.Err(e2))
	}
	if setErr == nil && delErr != nil && delErr.Error() == "none" {
		sym.Assert(e2 == nil && g2 == "k", "lost", "after a restart a key is lost: "+sym.Err(e2))
	}
}

// KeyRace: concurrent first uses of the same or different subjects.
func KeyRace() {
	k := newKeySys(sym.Choose("kind", 2))
	mode := sym.Choose("mode", 3)
	if mode > 0 {
		if err := k.st.Set("s", "k0"); err != nil {
			sym.Fail("set", sym.Err(err))
		}
		if sym.Choose("restart", 2) == 1 {
			k.restart()
		}
	}
	n := sym.Param("n", 2)
	keys := make([]string, n)
	errs := make([]error, n)
	done := make(chan int, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			switch {
			case mode == 0: // set against set
				errs[i] = k.st.Set("s", fmt.Sprintf("k%d", i))
			case mode == 1 || i > 0: // get against get or delete
				keys[i], errs[i] = k.st.Get("s")
			default:
				errs[i] = k.st.Delete("s")
			}
			done <- i
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	got, err := k.st.Get("s")
	switch mode {
	case 0:
		won := -1
		for i := range errs {
			if errs[i] == nil {
				sym.Assert(won < 0, "two-winners", "two concurrent Sets for one subject succeed")
				won = i
			}
		}
		sym.Assert(won >= 0, "no-winner", "of concurrent Sets for one subject none succeeds")
		sym.Assert(err == nil && got == fmt.Sprintf("k%d", won), "winner", "Get does not give the key whose Set succeeded: "+sym.Err(err))
		sym.Reach("set")
	case 1:
		for i := range errs {
			sym.Assert(errs[i] == nil && keys[i] == "k0", "get", "one of concurrent Gets fails: "+sym.Err(errs[i]))
		}
		sym.Reach("get")
	case 2:
		sym.Assert(errs[0] == nil, "delete", "a Delete that runs concurrently with Gets fails: "+sym.Err(errs[0]))
		for i := 1; i < n; i++ {
			sym.Assert((errs[i] == nil && keys[i] == "k0") || (errs[i] != nil && keys[i] == ""), "get-delete", "a Get that runs concurrently with a Delete: "+keys[i]+" "+sym.Err(errs[i]))
		}
		sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted), "undead", "after Delete returned, Get gives "+got+" "+sym.Err(err))
		k.restart()
		_, err = k.st.Get("s")
		sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted), "undead", "after Delete and a restart, Get gives "+sym.Err(err))
		sym.Reach("delete")
	}
}

// selfEnc is an event with one personal field.
type selfEnc struct {
	id, secret, open string
	fail             int // 0 none, 1 encryption, 2 decryption of the field is skipped
}

func (e *selfEnc) AggregateID() string   { return e.id }
func (e *selfEnc) AggregateType() string { return "person" }
func (e *selfEnc) EventType() string     { return "selfEnc" }
func (e *selfEnc) Encrypt(x crypto.Encryptor) error {
	s, err := x.Encrypt(e.id, e.secret)
	if err == nil {
		e.secret = s
	} else if errors.Is(err, crypto.ErrKeyWasDeleted) {
		e.secret = ""
	}
	return err
}
func (e *selfEnc) Decrypt(x crypto.Encryptor) error {
	s, err := x.Decrypt(e.id, e.secret)
	if err == nil {
		e.secret = s
	} else if errors.Is(err, crypto.ErrKeyWasDeleted) {
		e.secret = ""
	}
	return err
}

// EventKeys: encryption creates one key per subject on first use and keeps to it; after deletion it never creates
// another; decryption never creates one.
func EventKeys() {
	k := newKeySys(sym.Choose("kind", 2))
	enc := eventencryptor.New(k.st, aes.NewGCM())
	var evs []*selfEnc  // encrypted
	var orig []*selfEnc // what they were
	deleted := map[string]bool{}
	seen := map[string]string{} // subject -> key
	ids := []string{"a", "b"}
	n := sym.Param("ops", 4)
	for i := 0; i < n; i++ {
		id := ids[sym.Choose("id", 2)]
		switch sym.Choose("op", 4) {
		case 0:
			e := &selfEnc{id: id, secret: plain(sym.Choose("len", 2) * 2), open: "o"}
			o := *e
			err := enc.Encrypt(e)
			if deleted[id] {
				sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted), "deleted", "encrypting for a subject with a deleted key: "+sym.Err(err))
				sym.Assert(e.secret == "", "redact", "an event of a subject with a deleted key keeps personal data")
				sym.Reach("deleted")
				break
			}
			sym.Assert(err == nil, "encrypt", "encrypting an event fails: "+sym.Err(err))
			sym.Assert(e.secret != o.secret && e.open == "o" && e.id == id, "fields", "encryption does not change exactly the personal data")
			key, err := k.st.Get(id)
			sym.Assert(err == nil && key != "", "key", "after encryption the key store has no key: "+sym.Err(err))
			b := unb64(key)
			sym.Assert(len(b) == 32, "key-size", "the key does not have 256 bits")
			if old, ok := seen[id]; ok {
				sym.Assert(old == key, "key-changed", "the key of a subject changes")
			}
			for s, o := range seen {
				sym.Assert(s == id || o != key, "key-shared", "two subjects have the same key")
			}
			seen[id] = key
			evs, orig = append(evs, e), append(orig, &o)
		case 1:
			if err := k.st.Delete(id); err != nil {
				sym.Fail("delete", sym.Err(err))
			}
			deleted[id] = true
		case 2:
			k.restart()
			enc = eventencryptor.New(k.st, aes.NewGCM())
		case 3:
			if !deleted[id] && seen[id] == "" {
				e := &selfEnc{id: id, secret: "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVo=", open: "o"}
				sym.Assert(errors.Is(enc.Decrypt(e), crypto.ErrKeyNotFound), "no-key", "decrypting without a key does not report that")
				_, err := k.st.Get(id)
				sym.Assert(errors.Is(err, crypto.ErrKeyNotFound), "no-key", "decrypting creates a key")
				sym.Reach("no-key")
			}
		}
	}
	for i, e := range evs {
		d := *e
		err := enc.Decrypt(&d)
		if deleted[d.id] {
			sym.Assert(errors.Is(err, crypto.ErrKeyWasDeleted), "shredded", "an event of a subject with a deleted key decrypts: "+sym.Err(err))
			sym.Assert(d.secret == "", "redact", "personal data is not redacted after deletion of the key")
			continue
		}
		sym.Assert(err == nil, "decrypt", "decrypting fails: "+sym.Err(err))
		sym.Assert(sym.StrEq(d.secret, orig[i].secret) && d.open == "o" && d.id == orig[i].id, "roundtrip", "decrypting gives another event")
		sym.Reach("roundtrip")
	}
}

// FirstUse: concurrent first encryptions for a subject succeed, use one key, and decrypt.
func FirstUse() {
	k := newKeySys(sym.Choose("kind", 2))
	enc := eventencryptor.New(k.st, aes.NewGCM())
	n := sym.Param("n", 2)
	evs := make([]*selfEnc, n)
	errs := make([]error, n)
	done := make(chan int, n)
	for i := range evs {
		evs[i] = &selfEnc{id: "s", secret: fmt.Sprintf("secret%d", i)}
	}
	for i := 0; i < n; i++ {
		i := i
		go func() {
			errs[i] = enc.Encrypt(evs[i])
			done <- i
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	for i := range evs {
		sym.Assert(errs[i] == nil, "first-use", "one of concurrent first encryptions for a subject fails: "+sym.Err(errs[i]))
		err := enc.Decrypt(evs[i])
		sym.Assert(err == nil && evs[i].secret == fmt.Sprintf("secret%d", i), "lost", "an event encrypted concurrently cannot be decrypted: "+sym.Err(err))
	}
	sym.Reach("encrypted")
}

// EncryptorFaults: a failing key store or random source is reported, the event stays as it was, and the key store
// never gets a weak key.
func EncryptorFaults() {
	ks := &faulty{KeyStore: inmemorykeystore.New()}
	enc := eventencryptor.New(ks, aes.NewGCM())
	which := sym.Choose("which", 3)
	after := sym.Choose("bytes", 32)
	switch which {
	case 0:
		enc.SetRandReader(&failReader{after})
	case 1:
		ks.fail = func(op string) bool { return op == "get" }
	case 2:
		ks.fail = func(op string) bool { return op == "set" }
	}
	e := &selfEnc{id: "s", secret: "secret", open: "o"}
	err := enc.Encrypt(e)
	sym.Assert(err != nil, "error", "encryption hides a failure")
	sym.Assert(e.secret == "secret" && e.open == "o", "changed", "a failed encryption changes the event")
	ks.fail = nil
	_, err = ks.KeyStore.Get("s")
	sym.Assert(errors.Is(err, crypto.ErrKeyNotFound), "weak", "a failed encryption leaves a key behind")
	enc = eventencryptor.New(ks, aes.NewGCM())
	err = enc.Encrypt(e)
	sym.Assert(err == nil && e.secret != "secret", "works", "encryption does not work after a failure: "+sym.Err(err))
	err = enc.Decrypt(e)
	sym.Assert(err == nil && e.secret == "secret", "works", "decryption does not work after a failure")
	sym.Reach("recovered")
}
