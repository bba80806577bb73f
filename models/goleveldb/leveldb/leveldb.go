// Package leveldb is a model of goleveldb: a sorted map with snapshot
// iterators, a single exclusive write transaction, atomic batches, and a
// disk that keeps synced units across a crash. Faults and crashes are
// decided by hooks that a harness installs.
package leveldb

import (
	"bytes"
	"errors"
	"sync"

	lerrors "github.com/syndtr/goleveldb/leveldb/errors"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
)

// Errors.
var (
	ErrNotFound         = lerrors.ErrNotFound
	ErrReadOnly         = errors.New("leveldb: read-only mode")
	ErrSnapshotReleased = errors.New("leveldb: snapshot released")
	ErrIterReleased     = errors.New("leveldb: iterator released")
	ErrClosed           = errors.New("leveldb: closed")

	errTransactionDone = errors.New("leveldb: transaction already closed")
	errLocked          = errors.New("resource temporarily unavailable")
)

// nlock is a lock that the symbolic executor ignores: there, the model is atomic.
type nlock struct{ mu sync.Mutex }

func (l *nlock) Lock()   { l.mu.Lock() }
func (l *nlock) Unlock() { l.mu.Unlock() }

type kv struct {
	k, v []byte
}

type op struct {
	del  bool
	k, v []byte
}

// state is an immutable sorted sequence of pairs.
type state []kv

func find(s state, k []byte) (int, bool) {
	lo := 0
	for hi := len(s); hi-lo > 32; { // keep long histories cheap
		m := (lo + hi) / 2
		if bytes.Compare(s[m].k, k) > 0 {
			hi = m
		} else {
			lo = m
		}
	}
	for i := lo; i < len(s); i++ {
		c := bytes.Compare(s[i].k, k)
		if c == 0 {
			return i, true
		}
		if c > 0 {
			return i, false
		}
	}
	return len(s), false
}

func apply(s state, ops []op) state {
	r := append(state(nil), s...)
	for _, o := range ops {
		i, ok := find(r, o.k)
		switch {
		case o.del && ok:
			r = append(r[:i], r[i+1:]...)
		case o.del:
		case ok:
			r[i] = kv{o.k, o.v}
		default:
			r = append(r, kv{})
			copy(r[i+1:], r[i:])
			r[i] = kv{o.k, o.v}
		}
	}
	return r
}

type unit struct {
	after state
}

// disk is what a file system keeps.
type disk struct {
	durable  state  // synced
	unsynced []unit // written since the last sync, oldest first
	open     bool
}

var (
	disks   = map[string]*disk{}
	disksMu nlock

	// Fault, when set, is asked before every operation; a non-nil error makes it fail.
	Fault func(op string) error
	// Crash, when set, is asked before and after every durable change; true ends the process here.
	Crash func(where string) bool

	// OpenIterators counts iterators not released.
	OpenIterators int
)

// CrashError is the panic value that ends the process.
type CrashError struct{}

// Reset forgets all disks and hooks.
func Reset() {
	disks = map[string]*disk{}
	Fault, Crash = nil, nil
	OpenIterators = 0
}

// PowerLoss keeps the durable state and a chosen prefix of the unsynced units.
func PowerLoss(path string, pick func(n int) int) {
	d := disks[path]
	if d == nil {
		return
	}
	n := pick(len(d.unsynced) + 1)
	if n > 0 {
		d.durable = d.unsynced[n-1].after
	}
	d.unsynced = nil
	d.open = false
	Crash, Fault = nil, nil
}

func fault(op string) error {
	if Fault != nil {
		return Fault(op)
	}
	return nil
}

func (db *DB) crash(where string) {
	if Crash != nil && !db.dead && Crash(where) {
		db.dead = true
		panic(CrashError{})
	}
}

// DB is a LevelDB database.
type DB struct {
	d      *disk
	mu     nlock
	cur    state
	write  chan struct{} // the write lock
	closed bool
	closeC chan struct{}
	tr     *Transaction
	dead   bool // after a crash: nothing has an effect
}

// OpenFile opens or creates a DB.
func OpenFile(path string, o *opt.Options) (*DB, error) {
	if err := fault("open"); err != nil {
		return nil, err
	}
	disksMu.Lock()
	defer disksMu.Unlock()
	d := disks[path]
	if d == nil {
		d = &disk{}
		disks[path] = d
	}
	if d.open {
		return nil, errLocked
	}
	d.open = true
	cur := d.durable
	if n := len(d.unsynced); n > 0 {
		cur = d.unsynced[n-1].after
	}
	return &DB{d: d, cur: cur, write: make(chan struct{}, 1), closeC: make(chan struct{})}, nil
}

func (db *DB) ok() error {
	if db.closed {
		return ErrClosed
	}
	return nil
}

// Close closes the DB. An open transaction is discarded.
func (db *DB) Close() error {
	db.mu.Lock()
	if db.closed {
		db.mu.Unlock()
		return ErrClosed
	}
	db.closed = true
	close(db.closeC)
	tr := db.tr
	db.mu.Unlock()
	if tr != nil {
		tr.Discard()
	}
	if !db.dead {
		db.d.open = false
		if n := len(db.d.unsynced); n > 0 {
			db.d.durable = db.d.unsynced[n-1].after
			db.d.unsynced = nil
		}
	}
	return nil
}

func get(s state, key []byte) ([]byte, error) {
	if i, ok := find(s, key); ok {
		return append([]byte{}, s[i].v...), nil
	}
	return nil, ErrNotFound
}

// Get gets a value.
func (db *DB) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if err := db.ok(); err != nil {
		return nil, err
	}
	if err := fault("get"); err != nil {
		return nil, err
	}
	db.mu.Lock()
	s := db.cur
	db.mu.Unlock()
	return get(s, key)
}

// Has tells whether a key exists.
func (db *DB) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	if err := db.ok(); err != nil {
		return false, err
	}
	if err := fault("get"); err != nil {
		return false, err
	}
	db.mu.Lock()
	s := db.cur
	db.mu.Unlock()
	_, ok := find(s, key)
	return ok, nil
}

// Write applies a batch atomically.
func (db *DB) Write(b *Batch, wo *opt.WriteOptions) error {
	if err := db.ok(); err != nil {
		return err
	}
	if b == nil || len(b.ops) == 0 {
		return nil
	}
	select {
	case db.write <- struct{}{}:
	case <-db.closeC:
		return ErrClosed
	}
	defer func() { <-db.write }()
	if err := fault("write"); err != nil {
		return err
	}
	db.commit(b.ops, wo != nil && wo.Sync)
	return nil
}

// Put sets a value.
func (db *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Put(key, value)
	return db.Write(b, wo)
}

// Delete deletes a key.
func (db *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Delete(key)
	return db.Write(b, wo)
}

func (db *DB) commit(ops []op, sync bool) {
	if db.dead {
		return
	}
	db.crash("before commit")
	db.mu.Lock()
	db.cur = apply(db.cur, ops)
	cur := db.cur
	db.mu.Unlock()
	if sync {
		db.d.durable = cur
		db.d.unsynced = nil
	} else {
		db.d.unsynced = append(db.d.unsynced, unit{cur})
	}
	db.crash("after commit")
}

// NewIterator iterates over a snapshot.
func (db *DB) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if err := db.ok(); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	if err := fault("iterator"); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	db.mu.Lock()
	s := db.cur
	db.mu.Unlock()
	return newIter(s, slice)
}

// Snapshot is a frozen view.
type Snapshot struct {
	s        state
	released bool
}

// GetSnapshot takes a snapshot.
func (db *DB) GetSnapshot() (*Snapshot, error) {
	if err := db.ok(); err != nil {
		return nil, err
	}
	db.mu.Lock()
	defer db.mu.Unlock()
	return &Snapshot{s: db.cur}, nil
}

// Get gets a value.
func (s *Snapshot) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if s.released {
		return nil, ErrSnapshotReleased
	}
	if err := fault("get"); err != nil {
		return nil, err
	}
	return get(s.s, key)
}

// Has tells whether a key exists.
func (s *Snapshot) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	if s.released {
		return false, ErrSnapshotReleased
	}
	if err := fault("get"); err != nil {
		return false, err
	}
	_, ok := find(s.s, key)
	return ok, nil
}

// NewIterator iterates over the snapshot.
func (s *Snapshot) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if s.released {
		return iterator.NewEmptyIterator(ErrSnapshotReleased)
	}
	if err := fault("iterator"); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	return newIter(s.s, slice)
}

// Release releases the snapshot.
func (s *Snapshot) Release() { s.released = true }

// Batch is a sequence of writes.
type Batch struct{ ops []op }

// Put appends a put.
func (b *Batch) Put(key, value []byte) {
	b.ops = append(b.ops, op{k: append([]byte{}, key...), v: append([]byte{}, value...)})
}

// Delete appends a delete.
func (b *Batch) Delete(key []byte) {
	b.ops = append(b.ops, op{del: true, k: append([]byte{}, key...)})
}

// Len is the number of records.
func (b *Batch) Len() int { return len(b.ops) }

// Reset empties the batch.
func (b *Batch) Reset() { b.ops = nil }

// Transaction is an exclusive write transaction.
type Transaction struct {
	db     *DB
	ops    []op
	cur    state
	closed bool
}

// OpenTransaction waits for any other writer.
func (db *DB) OpenTransaction() (*Transaction, error) {
	if err := db.ok(); err != nil {
		return nil, err
	}
	if err := fault("open-tx"); err != nil {
		return nil, err
	}
	select {
	case db.write <- struct{}{}:
	case <-db.closeC:
		return nil, ErrClosed
	}
	db.mu.Lock()
	defer db.mu.Unlock()
	tr := &Transaction{db: db, cur: db.cur}
	db.tr = tr
	return tr, nil
}

// Get gets a value.
func (tr *Transaction) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	if tr.closed {
		return nil, errTransactionDone
	}
	if err := fault("tx-get"); err != nil {
		return nil, err
	}
	return get(tr.cur, key)
}

// Has tells whether a key exists.
func (tr *Transaction) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	if tr.closed {
		return false, errTransactionDone
	}
	if err := fault("tx-get"); err != nil {
		return false, err
	}
	_, ok := find(tr.cur, key)
	return ok, nil
}

// NewIterator iterates over the current state of the transaction.
func (tr *Transaction) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if tr.closed {
		return iterator.NewEmptyIterator(errTransactionDone)
	}
	if err := fault("iterator"); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	return newIter(tr.cur, slice)
}

// Put sets a value.
func (tr *Transaction) Put(key, value []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Put(key, value)
	return tr.Write(b, wo)
}

// Delete deletes a key.
func (tr *Transaction) Delete(key []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Delete(key)
	return tr.Write(b, wo)
}

// Write applies a batch to the transaction.
func (tr *Transaction) Write(b *Batch, wo *opt.WriteOptions) error {
	if b == nil || len(b.ops) == 0 {
		return nil
	}
	if tr.closed {
		return errTransactionDone
	}
	tr.db.crash("tx-write")
	if err := fault("tx-write"); err != nil {
		return err
	}
	tr.ops = append(tr.ops, b.ops...)
	tr.cur = apply(tr.cur, b.ops)
	return nil
}

func (tr *Transaction) done() {
	tr.closed = true
	tr.db.mu.Lock()
	tr.db.tr = nil
	tr.db.mu.Unlock()
	<-tr.db.write
}

// Commit makes the transaction durable.
func (tr *Transaction) Commit() error {
	if err := tr.db.ok(); err != nil {
		return err
	}
	if tr.closed {
		return errTransactionDone
	}
	if err := fault("commit"); err != nil {
		return err
	}
	if len(tr.ops) > 0 {
		tr.db.commit(tr.ops, true)
	}
	tr.done()
	return nil
}

// Discard drops the transaction.
func (tr *Transaction) Discard() {
	if !tr.closed {
		tr.done()
	}
}

type iter struct {
	s        state
	lo, hi   int // [lo, hi)
	pos      int // lo-1: before the first, hi: after the last
	key, val []byte
	err      error
	released bool
	rel      util.Releaser
}

func newIter(s state, r *util.Range) iterator.Iterator {
	lo, hi := 0, len(s)
	if r != nil {
		if r.Start != nil {
			lo, _ = find(s, r.Start)
		}
		if r.Limit != nil {
			hi, _ = find(s, r.Limit)
		}
		if hi < lo {
			hi = lo
		}
	}
	OpenIterators++
	return &iter{s: s, lo: lo, hi: hi, pos: lo - 1}
}

func (i *iter) bad(op string) bool {
	if i.err != nil {
		return true
	}
	if i.released {
		i.err = ErrIterReleased
		return true
	}
	if err := fault("iter"); err != nil {
		i.err = err
		return true
	}
	return false
}

func (i *iter) set() bool {
	if i.pos >= i.lo && i.pos < i.hi {
		i.key = append(i.key[:0], i.s[i.pos].k...)
		i.val = append(i.val[:0], i.s[i.pos].v...)
		return true
	}
	return false
}

func (i *iter) First() bool {
	if i.bad("first") {
		return false
	}
	i.pos = i.lo
	return i.set()
}

func (i *iter) Last() bool {
	if i.bad("last") {
		return false
	}
	i.pos = i.hi - 1
	return i.set()
}

func (i *iter) Seek(key []byte) bool {
	if i.bad("seek") {
		return false
	}
	p, _ := find(i.s, key)
	if p < i.lo {
		p = i.lo
	}
	if p > i.hi {
		p = i.hi
	}
	i.pos = p
	return i.set()
}

func (i *iter) Next() bool {
	if i.bad("next") {
		return false
	}
	if i.pos >= i.hi {
		return false
	}
	i.pos++
	return i.set()
}

func (i *iter) Prev() bool {
	if i.bad("prev") {
		return false
	}
	if i.pos < i.lo {
		return false
	}
	i.pos--
	return i.set()
}

func (i *iter) Valid() bool {
	return i.err == nil && !i.released && i.pos >= i.lo && i.pos < i.hi
}

func (i *iter) Key() []byte {
	if !i.Valid() {
		return nil
	}
	return i.key
}

func (i *iter) Value() []byte {
	if !i.Valid() {
		return nil
	}
	return i.val
}

func (i *iter) Release() {
	if !i.released {
		i.released = true
		OpenIterators--
		i.key, i.val = nil, nil
		if i.rel != nil {
			i.rel.Release()
		}
	}
}

func (i *iter) SetReleaser(r util.Releaser) { i.rel = r }
func (i *iter) Error() error                { return i.err }
