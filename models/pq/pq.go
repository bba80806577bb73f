// Package pq is a model of the PostgreSQL driver and the server behind it:
// tables with row versions, READ COMMITTED statements, row and advisory
// locks, unique constraints, sequences that a rollback does not turn back,
// and LISTEN/NOTIFY. It is used through the real database/sql.
package pq

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// ErrorCode is an SQLSTATE.
type ErrorCode string

// Error is an error the server reports.
type Error struct {
	Severity, Message, Detail, Table, Column, Constraint string
	Code                                                 ErrorCode
}

// Error implements error.
func (e *Error) Error() string { return "pq: " + e.Message }

func fail(code, msg string) error {
	return &Error{Severity: "ERROR", Code: ErrorCode(code), Message: msg}
}

// unsupported reports SQL that the model does not know. (The executor stops: no verdict.)
func unsupported(what string) { panic("pq model: unsupported: " + what) }

// Fault is asked before an operation ("begin", "query", "exec", "row", "commit", "listen", "open"); an error it returns is the operation's.
var Fault func(op string) error

func fault(op string) error {
	if Fault == nil {
		return nil
	}
	return Fault(op)
}

type server struct {
	mu        sync.Mutex
	tables    map[string]*table
	advisory  map[int64]*txn
	funcs     map[string]string
	listeners []*Listener
	parsed    map[string]*stmt
	commits   int
	open      int
	down      bool
}

var srv = newServer()

func newServer() *server {
	return &server{tables: map[string]*table{}, advisory: map[int64]*txn{}, funcs: map[string]string{}, parsed: map[string]*stmt{}}
}

// Reset empties the server.
func Reset() { Register(); srv = newServer(); Fault = nil }

// OpenTransactions is the number of transactions neither committed nor rolled back.
func OpenTransactions() int {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	return srv.open
}

// Values are the texts in the rows of a table.
func Values(name string) []string {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	var r []string
	if t := srv.tables[name]; t != nil {
		for _, x := range t.rows {
			if visible(x, nil, srv.commits) {
				for _, v := range x.v {
					if s, ok := v.(string); ok {
						r = append(r, s)
					}
				}
			}
		}
	}
	return r
}

// Register makes the driver known.
func Register() {
	for _, d := range sql.Drivers() {
		if d == "postgres" {
			return
		}
	}
	sql.Register("postgres", Driver{})
}

func init() { Register() }

type column struct{ name, kind string }

type unique struct {
	name string
	cols []int
}

type table struct {
	name    string
	cols    []column
	rows    []*row
	seqs    map[int]int64
	uniques []unique
	notNull map[int]bool
	notify  string
}

func (t *table) col(name string) int {
	for i, c := range t.cols {
		if c.name == name {
			return i
		}
	}
	return -1
}

// row is a version of a row.
type row struct {
	v        []interface{}
	ins, del *txn
}

// txn is a transaction. commit is 0 while it is active, -1 when it was rolled back.
type txn struct {
	commit   int
	snap     int // of a repeatable read
	repeat   bool
	aborted  bool
	implicit bool
	done     chan struct{}
	locks    []int64
	notes    []Notification
}

func (s *server) begin(implicit bool) *txn {
	if !implicit {
		s.open++
	}
	return &txn{done: make(chan struct{}), snap: -1, implicit: implicit}
}

// end finishes a transaction.
func (s *server) end(t *txn, commit bool) {
	if t.commit != 0 {
		return
	}
	if !t.implicit {
		s.open--
	}
	if commit {
		s.commits++
		t.commit = s.commits
		for _, n := range t.notes {
			for _, l := range s.listeners {
				if l.channels[n.Channel] && !s.down {
					c := n
					l.put(&c)
				}
			}
		}
	} else {
		t.commit = -1
	}
	for _, k := range t.locks {
		if s.advisory[k] == t {
			delete(s.advisory, k)
		}
	}
	close(t.done)
}

func visible(r *row, t *txn, snap int) bool {
	if r.ins != t && (r.ins.commit <= 0 || r.ins.commit > snap) {
		return false
	}
	if r.del == nil || r.del.commit < 0 {
		return true
	}
	return r.del != t && (r.del.commit == 0 || r.del.commit > snap)
}

// Driver is the driver.
type Driver struct{}

// Open implements driver.Driver.
func (Driver) Open(name string) (driver.Conn, error) {
	if err := fault("open"); err != nil {
		return nil, err
	}
	return &conn{}, nil
}

type conn struct {
	tx      *txn
	rows    *rows
	session *txn // owner of the advisory locks of the session
}

// locks gives the session the locks that are left after one was released.
func (c *conn) relock(left []int64) {
	old := c.session
	c.session = &txn{done: make(chan struct{}), snap: -1, implicit: true, locks: left}
	for _, k := range left {
		srv.advisory[k] = c.session
	}
	if old != nil {
		close(old.done)
	}
}

func (c *conn) unlock(k int64) bool {
	if c.session == nil {
		return false
	}
	var left []int64
	found := false
	for _, l := range c.session.locks {
		if l == k && !found {
			found = true
			continue
		}
		left = append(left, l)
	}
	if found {
		delete(srv.advisory, k)
		c.relock(left)
	}
	return found
}

func (c *conn) Prepare(query string) (driver.Stmt, error) { return &prepared{c, query}, nil }

func (c *conn) Close() error {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if c.tx != nil {
		srv.end(c.tx, false)
		c.tx = nil
	}
	for c.session != nil && len(c.session.locks) > 0 {
		c.unlock(c.session.locks[0])
	}
	return nil
}

func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) Ping(ctx context.Context) error { return nil }

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := fault("begin"); err != nil {
		return nil, err
	}
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if c.tx != nil {
		return nil, errors.New("pq: unexpected transaction status")
	}
	t := srv.begin(false)
	switch sql.IsolationLevel(o.Isolation) {
	case sql.LevelDefault, sql.LevelReadUncommitted, sql.LevelReadCommitted:
	case sql.LevelRepeatableRead, sql.LevelSnapshot:
		t.repeat = true
	default:
		unsupported("isolation level")
	}
	c.tx = t
	return &tx{c}, nil
}

type tx struct{ c *conn }

func (t *tx) Commit() error {
	c := t.c
	err := fault("commit")
	srv.mu.Lock()
	defer srv.mu.Unlock()
	x := c.tx
	if x == nil {
		return errors.New("pq: unexpected transaction status")
	}
	c.tx = nil
	if err == nil && x.aborted {
		err = errors.New("pq: Could not complete operation in a failed transaction")
	}
	srv.end(x, err == nil)
	return err
}

func (t *tx) Rollback() error {
	c := t.c
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if c.tx == nil {
		return errors.New("pq: unexpected transaction status")
	}
	srv.end(c.tx, false)
	c.tx = nil
	return nil
}

type prepared struct {
	c *conn
	q string
}

func (p *prepared) Close() error  { return nil }
func (p *prepared) NumInput() int { return -1 }
func (p *prepared) Exec(args []driver.Value) (driver.Result, error) {
	r, err := p.c.run(context.Background(), "exec", p.q, args)
	return result(r), err
}
func (p *prepared) Query(args []driver.Value) (driver.Rows, error) {
	r, err := p.c.run(context.Background(), "query", p.q, args)
	if err != nil {
		return nil, err
	}
	return r, nil
}

func values(named []driver.NamedValue) []driver.Value {
	r := make([]driver.Value, len(named))
	for i := range named {
		r[i] = named[i].Value
	}
	return r
}

func (c *conn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.run(ctx, "query", query, values(args))
	if err != nil {
		return nil, err
	}
	c.rows = r
	r.c = c
	return r, nil
}

func (c *conn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	queries := []string{query}
	if len(args) == 0 {
		queries = split(query)
	}
	if len(queries) > 1 && c.tx == nil {
		for _, q := range queries {
			if low := strings.ToLower(strings.TrimSpace(q)); !strings.HasPrefix(low, "create") && !strings.HasPrefix(low, "drop") {
				unsupported("several statements in one implicit transaction")
			}
		}
	}
	var r *rows
	for _, q := range queries {
		var err error
		r, err = c.run(ctx, "exec", q, values(args))
		if err != nil {
			return nil, err
		}
	}
	return result(r), nil
}

func result(r *rows) driver.Result {
	if r == nil {
		return nil
	}
	return driver.RowsAffected(r.affected)
}

// rows is a result.
type rows struct {
	c        *conn
	names    []string
	vals     [][]interface{}
	affected int64
}

func (r *rows) Columns() []string { return r.names }

func (r *rows) Close() error {
	if r.c != nil && r.c.rows == r {
		r.c.rows = nil
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	if err := fault("row"); err != nil {
		if r.c != nil && r.c.tx != nil {
			r.c.tx.aborted = true
		}
		return err
	}
	if len(r.vals) == 0 {
		r.Close()
		return io.EOF
	}
	for i := range dest {
		dest[i] = r.vals[0][i]
	}
	r.vals = r.vals[1:]
	return nil
}

// run executes a statement, waiting for the transactions that are in its way.
func (c *conn) run(ctx context.Context, op, query string, args []driver.Value) (*rows, error) {
	if c.rows != nil {
		return nil, errors.New("pq: unexpected Parse response 'D'")
	}
	for _, a := range args {
		if s, ok := a.(string); ok && !validText(s) {
			return nil, c.abort(fail("22021", "invalid byte sequence for encoding \"UTF8\""))
		}
	}
	snap := -1
	t := c.tx
	for {
		srv.mu.Lock()
		if c.tx != nil && c.tx.aborted {
			srv.mu.Unlock()
			return nil, fail("25P02", "current transaction is aborted, commands ignored until end of transaction block")
		}
		if err := fault(op); err != nil {
			srv.mu.Unlock()
			return nil, c.abort(err)
		}
		st := srv.parsed[query]
		if st == nil {
			st = parse(query)
			srv.parsed[query] = st
		}
		if t == nil {
			t = srv.begin(true)
		}
		if snap < 0 {
			snap = srv.commits
			if t.repeat {
				if t.snap < 0 {
					t.snap = snap
				}
				snap = t.snap
			}
		}
		e := &exec{c: c, s: srv, t: t, snap: snap, args: args}
		r, wait, err := e.run(st)
		if wait != nil {
			srv.mu.Unlock()
			select {
			case <-wait.done:
				continue
			case <-ctx.Done():
				srv.mu.Lock()
				if t.implicit {
					srv.end(t, false)
				}
				srv.mu.Unlock()
				return nil, c.abort(fail("57014", "canceling statement due to user request"))
			}
		}
		if t.implicit {
			srv.end(t, err == nil)
		}
		srv.mu.Unlock()
		if err != nil {
			return nil, c.abort(err)
		}
		return r, nil
	}
}

func (c *conn) abort(err error) error {
	if c.tx != nil {
		c.tx.aborted = true
	}
	return err
}

func validText(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			return false
		}
	}
	return true
}

// StringArray is a text array.
type StringArray []string

const arrayMark = "\x01array:"

// Value implements driver.Valuer.
func (a StringArray) Value() (driver.Value, error) {
	if a == nil {
		return nil, nil
	}
	s := arrayMark
	for _, x := range a {
		s += strconv.Itoa(len(x)) + ":" + x
	}
	return s, nil
}

// Array wraps a slice of strings.
func Array(a interface{}) interface{ driver.Valuer } {
	switch a := a.(type) {
	case []string:
		return StringArray(a)
	case *[]string:
		return StringArray(*a)
	}
	unsupported("pq.Array")
	return nil
}

func elements(s string) []string {
	s = s[len(arrayMark):]
	var r []string
	for len(s) > 0 {
		i := strings.IndexByte(s, ':')
		n, _ := strconv.Atoi(s[:i])
		r = append(r, s[i+1:i+1+n])
		s = s[i+1+n:]
	}
	return r
}

// ListenerEventType is what happened to a listener's connection.
type ListenerEventType int

// Events of a listener.
const (
	ListenerEventConnected ListenerEventType = iota
	ListenerEventDisconnected
	ListenerEventReconnected
	ListenerEventConnectionAttemptFailed
)

// EventCallbackType is told about the connection.
type EventCallbackType func(event ListenerEventType, err error)

// Notification is a message. A nil one is sent after a lost connection was established again.
type Notification struct {
	BePid   int
	Channel string
	Extra   string
}

// Listener listens.
type Listener struct {
	Notify   chan *Notification
	channels map[string]bool
	queue    []*Notification
	more     chan struct{}
	stop     chan struct{}
}

// NewListener makes a listener.
func NewListener(name string, minReconnectInterval, maxReconnectInterval time.Duration, cb EventCallbackType) *Listener {
	l := &Listener{Notify: make(chan *Notification, 32), channels: map[string]bool{}, more: make(chan struct{}, 1), stop: make(chan struct{})}
	srv.mu.Lock()
	srv.listeners = append(srv.listeners, l)
	srv.mu.Unlock()
	go l.forward()
	return l
}

func (l *Listener) put(n *Notification) {
	l.queue = append(l.queue, n)
	select {
	case l.more <- struct{}{}:
	default:
	}
}

func (l *Listener) forward() {
	for {
		select {
		case <-l.more:
		case <-l.stop:
			return
		}
		for {
			srv.mu.Lock()
			var n *Notification
			any := len(l.queue) > 0
			if any {
				n = l.queue[0]
				l.queue = l.queue[1:]
			}
			srv.mu.Unlock()
			if !any {
				break
			}
			select {
			case l.Notify <- n:
			case <-l.stop:
				return
			}
		}
	}
}

// Listen starts listening on a channel.
func (l *Listener) Listen(channel string) error {
	if err := fault("listen"); err != nil {
		return err
	}
	srv.mu.Lock()
	defer srv.mu.Unlock()
	l.channels[channel] = true
	return nil
}

// NotificationChannel is the channel of notifications.
func (l *Listener) NotificationChannel() <-chan *Notification { return l.Notify }

// Ping pings.
func (l *Listener) Ping() error { return nil }

// Close closes.
func (l *Listener) Close() error { close(l.stop); return nil }

// Disconnect loses the connection of every listener: what is not delivered yet is lost, and what comes until Reconnect.
func Disconnect() {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	srv.down = true
	for _, l := range srv.listeners {
		l.queue = nil
	}
}

// Reconnect establishes the connections again.
func Reconnect() {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	srv.down = false
	for _, l := range srv.listeners {
		l.put(nil)
	}
}

// Listeners lists the listeners of the server.
func Listeners() []*Listener { return srv.listeners }

func rowJSON(t *table, r *row) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, c := range t.cols {
		if i > 0 {
			b.WriteByte(',')
		}
		v, _ := json.Marshal(r.v[i])
		b.WriteString(`"` + c.name + `":` + string(v))
	}
	b.WriteByte('}')
	return b.String()
}

// Notify is a notification by another client.
func Notify(channel, extra string) {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	for _, l := range srv.listeners {
		if l.channels[channel] && !srv.down {
			l.put(&Notification{Channel: channel, Extra: extra})
		}
	}
}

// Last is the last number that a sequence of the table gave.
func Last(table string) uint64 {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	n := uint64(0)
	if t := srv.tables[table]; t != nil {
		for _, v := range t.seqs {
			n = uint64(v)
		}
	}
	return n
}
