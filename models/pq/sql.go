package pq

import (
	"database/sql/driver"
	"sort"
	"strconv"
	"strings"
)

// The statements that the model knows.
type stmt struct {
	kind           string // select insert update delete createtable createindex createfunc createtrigger droptrigger none
	table          string
	exprs          []*expr
	names          []string
	where          *expr
	group          []string
	order          []orderBy
	limit          *expr
	cols           []string
	rows           [][]*expr
	set            []*expr
	returning      []*expr
	def            *table
	name           string
	unique         bool
	nothing        bool     // ON CONFLICT DO NOTHING
	upcols, target []string // ON CONFLICT (target) DO UPDATE SET upcols = set
}

type orderBy struct {
	e    *expr
	desc bool
}

type expr struct {
	op   string // col param lit call and or not = <> < <= > >= any isnull notnull in + - ||
	name string
	n    int
	val  interface{}
	args []*expr
	sub  *stmt // of a subquery
}

type parser struct {
	toks []string // an identifier is in lower case, a string begins with '
	i    int
	src  string
}

func isWord(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func tokens(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'':
			b := "'"
			for i++; i < len(s); i++ {
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						i++
					} else {
						break
					}
				}
				b += string(s[i])
			}
			i++
			r = append(r, b)
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				j++
			}
			r = append(r, s[i+1:j])
			i = j + 1
		case isWord(c) || c == '$':
			j := i + 1
			for j < len(s) && isWord(s[j]) {
				j++
			}
			r = append(r, strings.ToLower(s[i:j]))
			i = j
		default:
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "<=", ">=", "<>", "!=", "::", "||":
					r = append(r, s[i:i+2])
					i += 2
					continue
				}
			}
			r = append(r, s[i:i+1])
			i++
		}
	}
	return r
}

func (p *parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.i++; return t }
func (p *parser) accept(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.toks) || p.toks[p.i+k] != w {
			return false
		}
	}
	p.i += len(words)
	return true
}
func (p *parser) expect(words ...string) {
	if !p.accept(words...) {
		unsupported(p.src)
	}
}

func parse(src string) *stmt {
	low := strings.ToLower(strings.TrimSpace(src))
	if strings.HasPrefix(low, "create or replace function") || strings.HasPrefix(low, "create function") {
		f := strings.Fields(strings.ReplaceAll(low, "(", " ( "))
		name := ""
		for i := range f {
			if f[i] == "function" {
				name = f[i+1]
				break
			}
		}
		i := strings.Index(low, "pg_notify('")
		if i < 0 || !strings.Contains(low[i:], "row_to_json(new)::text") {
			unsupported(src)
		}
		ch := low[i+len("pg_notify('"):]
		ch = ch[:strings.IndexByte(ch, '\'')]
		return &stmt{kind: "createfunc", name: name, table: ch}
	}
	p := &parser{toks: tokens(src), src: src}
	st := p.statement()
	p.accept(";")
	if p.i < len(p.toks) {
		unsupported(src)
	}
	return st
}

// split gives the statements of a text of several, as the simple protocol allows them without parameters.
func split(src string) []string {
	var r []string
	first, body := 0, false
	for i := 0; i < len(src); i++ {
		switch {
		case strings.HasPrefix(src[i:], "$$"):
			body = !body
			i++
		case src[i] == '\'' && !body:
			for i++; i < len(src) && src[i] != '\''; i++ {
			}
		case src[i] == ';' && !body:
			r = append(r, src[first:i+1])
			first = i + 1
		}
	}
	if strings.TrimSpace(src[first:]) != "" || len(r) == 0 {
		r = append(r, src[first:])
	}
	return r
}

// a word that can follow the name of a table, and so is no alias of it
var reserved = map[string]bool{"where": true, "group": true, "order": true, "limit": true, "offset": true, "for": true, "set": true, "returning": true, "on": true,
	"using": true, "values": true, "join": true, "left": true, "inner": true, "cross": true, "union": true, "having": true, "window": true, "fetch": true}

// tableName is the name of a table, perhaps with its schema.
func (p *parser) tableName() string {
	p.accept("public", ".")
	return p.next()
}

// aliased is tableName with an alias: columns are qualified with one table only.
func (p *parser) aliased() string {
	t := p.tableName()
	if p.accept("as") {
		p.next()
	} else if a := p.peek(); a != "" && isWord(a[0]) && !reserved[a] {
		p.next()
	}
	return t
}

// column is a column, perhaps with its table.
func (p *parser) column() string {
	t := p.next()
	if p.accept(".") {
		t = p.next()
	}
	return t
}

func (p *parser) statement() *stmt {
	st := &stmt{}
	switch {
	case p.accept("select"):
		st.kind = "select"
		st.exprs, st.names = p.items()
		if p.accept("from") {
			st.table = p.aliased()
		}
		st.where = p.optWhere()
		if p.accept("group", "by") {
			for {
				st.group = append(st.group, p.column())
				if !p.accept(",") {
					break
				}
			}
		}
		if p.accept("order", "by") {
			for {
				o := orderBy{e: p.expr()}
				if n, ok := o.e.val.(int64); ok && o.e.op == "lit" {
					if n < 1 || int(n) > len(st.exprs) || st.exprs[n-1].op == "star" {
						unsupported(p.src)
					}
					o.e = st.exprs[n-1]
				} else if o.e.op == "col" {
					for i, name := range st.names {
						if name == o.e.name && st.exprs[i].op != "star" {
							o.e = st.exprs[i]
							break
						}
					}
				}
				if p.accept("desc") {
					o.desc = true
				} else {
					p.accept("asc")
				}
				st.order = append(st.order, o)
				if !p.accept(",") {
					break
				}
			}
		}
		if p.accept("limit") {
			st.limit = p.expr()
		}

	case p.accept("insert", "into"):
		st.kind = "insert"
		st.table = p.aliased()
		p.expect("(")
		for {
			st.cols = append(st.cols, p.next())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		p.expect("values")
		for {
			p.expect("(")
			st.rows = append(st.rows, p.list())
			p.expect(")")
			if !p.accept(",") {
				break
			}
		}
		if p.accept("on", "conflict") {
			if p.accept("(") {
				for !p.accept(")") {
					st.target = append(st.target, p.next())
					p.accept(",")
				}
			}
			if p.accept("do", "update", "set") {
				for {
					st.upcols = append(st.upcols, p.next())
					p.expect("=")
					st.set = append(st.set, p.sum())
					if !p.accept(",") {
						break
					}
				}
				st.where = p.optWhere()
			} else {
				p.expect("do", "nothing")
				st.nothing = true
			}
		}
		p.optReturning(st)

	case p.accept("update"):
		st.kind = "update"
		st.table = p.aliased()
		p.expect("set")
		for {
			st.cols = append(st.cols, p.next())
			p.expect("=")
			st.set = append(st.set, p.sum())
			if !p.accept(",") {
				break
			}
		}
		st.where = p.optWhere()
		p.optReturning(st)

	case p.accept("delete", "from"):
		st.kind = "delete"
		st.table = p.aliased()
		st.where = p.optWhere()
		p.optReturning(st)

	case p.accept("create", "table"):
		st.kind = "createtable"
		p.accept("if", "not", "exists")
		st.table = p.tableName()
		st.def = p.tableDef(st.table)

	case p.accept("create", "unique", "index"), p.accept("create", "index"):
		st.kind = "createindex"
		st.unique = p.toks[1] == "unique"
		p.accept("if", "not", "exists")
		st.name = p.next()
		p.expect("on")
		st.table = p.tableName()
		if p.accept("using") {
			p.next()
		}
		p.expect("(")
		for {
			st.cols = append(st.cols, p.next())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")

	case p.accept("drop", "trigger"):
		st.kind = "droptrigger"
		p.accept("if", "exists")
		st.name = p.next()
		p.expect("on")
		st.table = p.tableName()

	case p.accept("create", "trigger"):
		st.kind = "createtrigger"
		p.next()
		p.expect("after", "insert", "on")
		st.table = p.tableName()
		p.expect("for", "each", "row", "execute")
		if !p.accept("procedure") {
			p.expect("function")
		}
		st.name = p.next()
		p.expect("(", ")")

	default:
		unsupported(p.src)
	}
	return st
}

func (p *parser) optWhere() *expr {
	if p.accept("where") {
		return p.expr()
	}
	return nil
}

func (p *parser) optReturning(st *stmt) {
	if p.accept("returning") {
		st.returning, st.names = p.items()
	}
}

func (p *parser) items() ([]*expr, []string) {
	var es []*expr
	var ns []string
	for {
		if p.accept("*") {
			es = append(es, &expr{op: "star"})
			ns = append(ns, "*")
		} else {
			e := p.expr()
			n := e.name
			if p.accept("as") {
				n = p.next()
			}
			es = append(es, e)
			ns = append(ns, n)
		}
		if !p.accept(",") {
			return es, ns
		}
	}
}

func (p *parser) list() []*expr {
	var r []*expr
	for {
		r = append(r, p.expr())
		if !p.accept(",") {
			return r
		}
	}
}

func (p *parser) expr() *expr {
	e := p.and()
	for p.accept("or") {
		e = &expr{op: "or", args: []*expr{e, p.and()}}
	}
	return e
}

func (p *parser) and() *expr {
	e := p.not()
	for p.accept("and") {
		e = &expr{op: "and", args: []*expr{e, p.not()}}
	}
	return e
}

func (p *parser) not() *expr {
	if p.accept("not") {
		return &expr{op: "not", args: []*expr{p.not()}}
	}
	return p.cmp()
}

func (p *parser) cmp() *expr {
	e := p.sum()
	switch t := p.peek(); t {
	case "=", "<>", "!=", "<", "<=", ">", ">=":
		p.next()
		if t == "!=" {
			t = "<>"
		}
		if t == "=" && p.accept("any", "(") {
			a := p.expr()
			p.expect(")")
			return &expr{op: "any", args: []*expr{e, a}}
		}
		return &expr{op: t, args: []*expr{e, p.sum()}}
	case "is":
		p.next()
		if p.accept("not", "null") {
			return &expr{op: "notnull", args: []*expr{e}}
		}
		p.expect("null")
		return &expr{op: "isnull", args: []*expr{e}}
	case "in":
		p.next()
		p.expect("(")
		r := &expr{op: "in", args: append([]*expr{e}, p.list()...)}
		p.expect(")")
		return r
	case "between":
		p.next()
		lo := p.sum()
		p.expect("and")
		hi := p.sum()
		return &expr{op: "and", args: []*expr{{op: ">=", args: []*expr{e, lo}}, {op: "<=", args: []*expr{e, hi}}}}
	}
	return e
}

func (p *parser) sum() *expr {
	e := p.primary()
	for {
		switch t := p.peek(); t {
		case "+", "-", "||":
			p.next()
			e = &expr{op: t, args: []*expr{e, p.primary()}}
		default:
			return e
		}
	}
}

func (p *parser) primary() *expr {
	t := p.next()
	var e *expr
	switch {
	case t == "(" && p.peek() == "select":
		e = &expr{op: "subquery", sub: p.statement()}
		p.expect(")")
	case t == "exists" && p.accept("("):
		e = &expr{op: "exists", sub: p.statement()}
		p.expect(")")
	case t == "cast" && p.accept("("):
		e = p.expr()
		p.expect("as")
		p.next()
		p.expect(")")
	case t == "(":
		e = p.expr()
		p.expect(")")
	case t == "null":
		e = &expr{op: "lit"}
	case t == "true", t == "false":
		e = &expr{op: "lit", val: t == "true"}
	case t == "":
		unsupported(p.src)
	case t[0] == '\'':
		e = &expr{op: "lit", val: t[1:]}
	case t[0] == '$':
		n, err := strconv.Atoi(t[1:])
		if err != nil || n < 1 {
			unsupported(p.src)
		}
		e = &expr{op: "param", n: n - 1}
	case t[0] >= '0' && t[0] <= '9':
		n, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			unsupported(p.src)
		}
		e = &expr{op: "lit", val: n}
	case isWord(t[0]):
		if p.accept("(") {
			e = &expr{op: "call", name: t}
			p.accept("distinct") // MAX and MIN; COUNT(DISTINCT) is refused
			if p.toks[p.i-1] == "distinct" && t == "count" {
				unsupported(p.src)
			}
			if p.accept("*") {
				p.expect(")")
			} else if !p.accept(")") {
				e.args = p.list()
				p.expect(")")
			}
		} else {
			op := "col"
			if p.accept(".") {
				if t == "excluded" {
					op = "excluded"
				}
				t = p.next()
			}
			e = &expr{op: op, name: t}
		}
	default:
		unsupported(p.src)
	}
	if p.accept("::") {
		p.next()
	}
	return e
}

var kinds = map[string]string{"text": "text", "varchar": "text", "bigint": "int8", "int8": "int8", "integer": "int4", "int": "int4", "int4": "int4",
	"serial": "serial4", "bigserial": "serial8", "boolean": "bool", "bool": "bool"}

func (p *parser) tableDef(name string) *table {
	t := &table{name: name, seqs: map[int]int64{}, notNull: map[int]bool{}}
	p.expect("(")
	for {
		switch {
		case p.accept("primary", "key"):
			t.uniques = append(t.uniques, unique{name + "_pkey", p.cols(t)})
		case p.accept("unique"):
			c := p.cols(t)
			n := name
			for _, i := range c {
				n += "_" + t.cols[i].name
			}
			t.uniques = append(t.uniques, unique{n + "_key", c})
		default:
			c := column{name: p.next()}
			k, ok := kinds[p.next()]
			if !ok {
				unsupported(p.src)
			}
			i := len(t.cols)
			if strings.HasPrefix(k, "serial") {
				t.seqs[i] = 0
				t.notNull[i] = true
				k = "int" + k[6:]
			}
			c.kind = k
			t.cols = append(t.cols, c)
		constraints:
			for {
				switch {
				case p.accept("primary", "key"):
					t.uniques = append(t.uniques, unique{name + "_pkey", []int{i}})
					t.notNull[i] = true
				case p.accept("unique"):
					t.uniques = append(t.uniques, unique{name + "_" + c.name + "_key", []int{i}})
				case p.accept("not", "null"):
					t.notNull[i] = true
				case p.accept("null"):
				default:
					break constraints
				}
			}
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return t
}

func (p *parser) cols(t *table) []int {
	var r []int
	p.expect("(")
	for {
		i := t.col(p.next())
		if i < 0 {
			unsupported(p.src)
		}
		r = append(r, i)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return r
}

// exec is the execution of a statement.
type exec struct {
	c    *conn
	excl *row // the row an INSERT would have added
	s    *server
	t    *txn
	snap int
	args []driver.Value
	tab  *table
	err  error
	wait *txn
}

func (e *exec) failf(code, msg string) {
	if e.err == nil {
		e.err = fail(code, msg)
	}
}

func (e *exec) run(st *stmt) (*rows, *txn, error) {
	if st.table != "" && st.kind != "createtable" && st.kind != "createfunc" {
		e.tab = e.s.tables[st.table]
		if e.tab == nil {
			return nil, nil, fail("42P01", "relation \""+st.table+"\" does not exist")
		}
	}
	r := &rows{}
	switch st.kind {
	case "createtable":
		if e.s.tables[st.table] == nil {
			e.s.tables[st.table] = st.def
		}
	case "createindex":
		if st.unique {
			for _, u := range e.tab.uniques {
				if u.name == st.name {
					return r, nil, nil
				}
			}
			u := unique{name: st.name}
			for _, c := range st.cols {
				u.cols = append(u.cols, e.tab.col(c))
			}
			e.tab.uniques = append(e.tab.uniques, u)
		}
	case "createfunc":
		e.s.funcs[st.name] = st.table
	case "droptrigger":
		e.tab.notify = ""
	case "createtrigger":
		ch, ok := e.s.funcs[st.name]
		if !ok {
			return nil, nil, fail("42883", "function "+st.name+"() does not exist")
		}
		e.tab.notify = ch
	case "select":
		e.selectRows(st, r)
	case "insert":
		e.insert(st, r)
	case "delete", "update":
		e.change(st, r)
	}
	if e.wait != nil {
		return nil, e.wait, nil
	}
	return r, nil, e.err
}

func (e *exec) selectRows(st *stmt, r *rows) {
	var found []*row
	if e.tab == nil {
		found = []*row{nil}
	} else {
		// A result without ORDER BY has no order: the newest row comes first.
		for i := len(e.tab.rows) - 1; i >= 0; i-- {
			x := e.tab.rows[i]
			if visible(x, e.t, e.snap) && (st.where == nil || e.truth(st.where, x)) {
				found = append(found, x)
			}
		}
	}
	if e.err != nil {
		return
	}
	agg := st.group != nil
	for _, x := range st.exprs {
		agg = agg || hasAggregate(x)
	}
	r.names = e.columnNames(st)
	if agg {
		var groups [][]*row
		if st.group == nil {
			groups = [][]*row{found}
		} else {
			for _, x := range found {
				k := -1
				for i := range groups {
					same := true
					for _, c := range st.group {
						ci := e.mustCol(c)
						if ci < 0 {
							return
						}
						same = same && e.compare("=", groups[i][0].v[ci], x.v[ci], "") == 1
					}
					if same {
						k = i
						break
					}
				}
				if k < 0 {
					groups = append(groups, []*row{x})
				} else {
					groups[k] = append(groups[k], x)
				}
			}
		}
		for _, g := range groups {
			var vals []interface{}
			for _, x := range st.exprs {
				vals = append(vals, e.aggregate(x, g))
			}
			r.vals = append(r.vals, vals)
		}
		if len(r.vals) > 1 && (st.order != nil || st.limit != nil) {
			unsupported("ORDER BY with several groups")
		}
		if st.limit != nil {
			if n, ok := e.eval(st.limit, nil).(int64); ok && n < 1 {
				r.vals = nil
			}
		}
		return
	}
	if st.order != nil {
		sort.SliceStable(found, func(i, j int) bool {
			for _, o := range st.order {
				a, b := e.eval(o.e, found[i]), e.eval(o.e, found[j])
				if o.desc {
					a, b = b, a
				}
				if e.compare("<", a, b, "") == 1 {
					return true
				}
				if e.compare("<", b, a, "") == 1 {
					return false
				}
			}
			return false
		})
	}
	limit := -1
	if st.limit != nil {
		if n, ok := e.eval(st.limit, nil).(int64); ok {
			limit = int(n)
		}
	}
	for i, x := range found {
		if limit >= 0 && i >= limit {
			break
		}
		r.vals = append(r.vals, e.project(st.exprs, x))
		if e.wait != nil || e.err != nil {
			return
		}
	}
}

func (e *exec) columnNames(st *stmt) []string {
	var r []string
	for _, n := range st.names {
		if n == "*" {
			for _, c := range e.tab.cols {
				r = append(r, c.name)
			}
		} else {
			r = append(r, n)
		}
	}
	return r
}

func (e *exec) project(es []*expr, x *row) []interface{} {
	var vals []interface{}
	for _, y := range es {
		if y.op == "star" {
			vals = append(vals, x.v...)
		} else {
			vals = append(vals, e.eval(y, x))
		}
	}
	return vals
}

func (e *exec) mustCol(name string) int {
	if e.tab == nil {
		e.failf("42703", "column \""+name+"\" does not exist")
		return -1
	}
	i := e.tab.col(name)
	if i < 0 {
		e.failf("42703", "column \""+name+"\" does not exist")
	}
	return i
}

// conflict looks for a row that a unique constraint does not allow beside v. It may find one to wait for.
func (e *exec) conflict(v []interface{}, not *row, upto int) *unique {
	for k := range e.tab.uniques {
		u := &e.tab.uniques[k]
	rows:
		for _, x := range e.tab.rows[:upto] {
			if x == not || x.ins.commit < 0 || x.del == e.t || x.del != nil && x.del.commit > 0 {
				continue
			}
			for _, c := range u.cols {
				if v[c] == nil || x.v[c] == nil || e.compare("=", v[c], x.v[c], "") != 1 {
					continue rows
				}
			}
			if x.ins != e.t && x.ins.commit == 0 {
				e.wait = x.ins
				return nil
			}
			if x.del != nil && x.del.commit == 0 {
				e.wait = x.del
				return nil
			}
			return u
		}
	}
	return nil
}

func (e *exec) duplicate(u *unique) {
	if e.err == nil {
		e.err = &Error{Severity: "ERROR", Code: "23505", Table: e.tab.name, Constraint: u.name, Message: "duplicate key value violates unique constraint \"" + u.name + "\""}
	}
}

func (e *exec) insert(st *stmt, r *rows) {
	if len(e.args) > 65535 {
		e.failf("08P01", "got "+strconv.Itoa(len(e.args))+" parameters but PostgreSQL only supports 65535 parameters")
		return
	}
	var news []*row
	for _, vals := range st.rows {
		x := &row{v: make([]interface{}, len(e.tab.cols)), ins: e.t}
		given := make([]bool, len(e.tab.cols))
		if len(vals) != len(st.cols) {
			e.failf("42601", "INSERT has a wrong number of expressions")
			return
		}
		for i, c := range st.cols {
			k := e.mustCol(c)
			if k < 0 {
				return
			}
			x.v[k] = e.coerce(e.eval(vals[i], nil), e.tab.cols[k].kind)
			given[k] = true
		}
		for k := range e.tab.cols {
			if _, ok := e.tab.seqs[k]; ok && !given[k] {
				x.v[k] = nil // a fresh number cannot collide
			} else if e.tab.notNull[k] && x.v[k] == nil {
				e.failf("23502", "null value in column \""+e.tab.cols[k].name+"\" violates not-null constraint")
			}
		}
		if e.err != nil {
			return
		}
		news = append(news, x)
	}
	for i, x := range news {
		u := e.conflict(x.v, nil, len(e.tab.rows))
		if e.wait != nil {
			return
		}
		for _, y := range news[:i] {
			for k := range e.tab.uniques {
				same := true
				for _, c := range e.tab.uniques[k].cols {
					same = same && x.v[c] != nil && y.v[c] != nil && e.compare("=", x.v[c], y.v[c], "") == 1
				}
				if same {
					u = &e.tab.uniques[k]
				}
			}
		}
		if u != nil {
			if st.nothing {
				news[i] = nil
				continue
			}
			if st.upcols != nil && e.targets(st, u) {
				if !e.update(st, u, x, r) {
					return
				}
				news[i] = nil
				continue
			}
			// numbers that were drawn stay drawn
			for k := range e.tab.seqs {
				e.tab.seqs[k] += int64(i + 1)
			}
			e.duplicate(u)
			return
		}
	}
	for _, x := range news {
		if x == nil {
			continue
		}
		for k := range e.tab.cols {
			if _, ok := e.tab.seqs[k]; ok && x.v[k] == nil {
				e.tab.seqs[k]++
				x.v[k] = e.tab.seqs[k]
			}
		}
		if e.tab.notify != "" {
			n := Notification{Channel: e.tab.notify, Extra: rowJSON(e.tab, x)}
			if len(n.Extra) >= 8000 {
				e.failf("22023", "payload string too long")
				return
			}
			e.t.notes = append(e.t.notes, n)
		}
		e.tab.rows = append(e.tab.rows, x)
		r.affected++
		if st.returning != nil {
			r.vals = append(r.vals, e.project(st.returning, x))
		}
	}
	r.names = e.columnNames(st)
}

// targets reports whether ON CONFLICT is about a constraint.
func (e *exec) targets(st *stmt, u *unique) bool {
	if len(st.target) != len(u.cols) {
		return false
	}
	for i, c := range u.cols {
		if e.tab.col(st.target[i]) != c {
			return false
		}
	}
	return true
}

// update changes the row that conflicts with x, as ON CONFLICT DO UPDATE says.
func (e *exec) update(st *stmt, u *unique, x *row, r *rows) bool {
	var z *row
rows:
	for _, y := range e.tab.rows {
		if y.ins.commit < 0 || y.del == e.t || y.del != nil && y.del.commit > 0 {
			continue
		}
		for _, c := range u.cols {
			if y.v[c] == nil || x.v[c] == nil || e.compare("=", y.v[c], x.v[c], "") != 1 {
				continue rows
			}
		}
		z = y
	}
	if z == nil {
		e.failf("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time")
		return false
	}
	e.excl = x
	defer func() { e.excl = nil }()
	if st.where != nil && !e.truth(st.where, z) {
		return e.err == nil
	}
	y := &row{v: append([]interface{}(nil), z.v...), ins: e.t}
	for i, c := range st.upcols {
		k := e.mustCol(c)
		if k < 0 {
			return false
		}
		y.v[k] = e.coerce(e.eval(st.set[i], z), e.tab.cols[k].kind)
		if e.tab.notNull[k] && y.v[k] == nil {
			e.failf("23502", "null value in column \""+e.tab.cols[k].name+"\" violates not-null constraint")
		}
	}
	if w := e.conflict(y.v, z, len(e.tab.rows)); w != nil {
		e.duplicate(w)
	}
	if e.wait != nil || e.err != nil {
		return false
	}
	z.del = e.t
	e.tab.rows = append(e.tab.rows, y)
	r.affected++
	if st.returning != nil {
		r.vals = append(r.vals, e.project(st.returning, y))
	}
	return true
}

func (e *exec) change(st *stmt, r *rows) {
	var found []*row
	for _, x := range e.tab.rows {
		if !visible(x, e.t, e.snap) || st.where != nil && !e.truth(st.where, x) {
			continue
		}
		if x.del != nil && x.del != e.t {
			if x.del.commit == 0 {
				e.wait = x.del
				return
			}
			if x.del.commit > 0 {
				if e.t.repeat {
					e.failf("40001", "could not serialize access due to concurrent update")
					return
				}
				continue // gone, or changed: a statement of this model only changes rows it does not look at again
			}
		}
		found = append(found, x)
	}
	if e.err != nil {
		return
	}
	var news []*row
	if st.kind == "update" {
		for _, x := range found {
			y := &row{v: append([]interface{}(nil), x.v...), ins: e.t}
			for i, c := range st.cols {
				k := e.mustCol(c)
				if k < 0 {
					return
				}
				y.v[k] = e.coerce(e.eval(st.set[i], x), e.tab.cols[k].kind)
				if e.tab.notNull[k] && y.v[k] == nil {
					e.failf("23502", "null value in column \""+e.tab.cols[k].name+"\" violates not-null constraint")
				}
			}
			if u := e.conflict(y.v, x, len(e.tab.rows)); u != nil {
				e.duplicate(u)
			}
			if e.wait != nil || e.err != nil {
				return
			}
			news = append(news, y)
		}
	}
	for _, x := range found {
		x.del = e.t
		r.affected++
		if st.returning != nil && st.kind == "delete" {
			r.vals = append(r.vals, e.project(st.returning, x))
		}
	}
	for _, y := range news {
		e.tab.rows = append(e.tab.rows, y)
		if st.returning != nil {
			r.vals = append(r.vals, e.project(st.returning, y))
		}
	}
	r.names = e.columnNames(st)
}

// coerce converts a value to the type of a column.
func (e *exec) coerce(v interface{}, kind string) interface{} {
	switch x := v.(type) {
	case []byte:
		return e.coerce(string(x), kind)
	case string:
		if kind == "int4" || kind == "int8" {
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				e.failf("22P02", "invalid input syntax for type integer: \""+x+"\"")
				return nil
			}
			return e.coerce(n, kind)
		}
	case int64:
		switch kind {
		case "text":
			return strconv.FormatInt(x, 10)
		case "int4":
			if x < -1<<31 || x >= 1<<31 {
				e.failf("22003", "value is out of range for type integer")
				return nil
			}
		}
	}
	return v
}

func (e *exec) kind(x *expr) string {
	switch {
	case x.op == "col" && e.tab != nil && e.tab.col(x.name) >= 0:
		return e.tab.cols[e.tab.col(x.name)].kind
	case x.op == "call" && (x.name == "max" || x.name == "min" || x.name == "coalesce") && len(x.args) > 0:
		return e.kind(x.args[0])
	case x.op == "call" && x.name == "count":
		return "int8"
	}
	return ""
}

// compare gives 1 for true, 0 for false, -1 for unknown.
func (e *exec) compare(op string, a, b interface{}, kind string) int {
	if a == nil || b == nil {
		return -1
	}
	if kind != "" {
		a, b = e.coerce(a, kind), e.coerce(b, kind)
		if e.err != nil {
			return -1
		}
	}
	r := false
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			unsupported("comparison of values of different types")
		}
		switch op {
		case "=":
			r = x == y
		case "<>":
			r = x != y
		case "<":
			r = x < y
		case "<=":
			r = x <= y
		case ">":
			r = x > y
		case ">=":
			r = x >= y
		}
	case string:
		y, ok := b.(string)
		if !ok {
			unsupported("comparison of values of different types")
		}
		switch op {
		case "=":
			r = x == y
		case "<>":
			r = x != y
		case "<":
			r = x < y
		case "<=":
			r = x <= y
		case ">":
			r = x > y
		case ">=":
			r = x >= y
		}
	default:
		unsupported("comparison")
	}
	if r {
		return 1
	}
	return 0
}

func (e *exec) truth(x *expr, r *row) bool {
	b, ok := e.eval(x, r).(bool)
	return ok && b
}

func tri(n int) interface{} {
	switch n {
	case 1:
		return true
	case 0:
		return false
	}
	return nil
}

func hasAggregate(x *expr) bool {
	if x.op == "call" && (x.name == "max" || x.name == "min" || x.name == "count") {
		return true
	}
	for _, a := range x.args {
		if hasAggregate(a) {
			return true
		}
	}
	return false
}

func (e *exec) aggregate(x *expr, g []*row) interface{} {
	if x.op == "call" {
		switch x.name {
		case "count":
			n := int64(0)
			for _, r := range g {
				if len(x.args) == 0 || e.eval(x.args[0], r) != nil {
					n++
				}
			}
			return n
		case "max", "min":
			var m interface{}
			for _, r := range g {
				v := e.eval(x.args[0], r)
				if v == nil {
					continue
				}
				if m == nil || e.compare(">", v, m, "") == 1 == (x.name == "max") && e.compare("=", v, m, "") != 1 {
					m = v
				}
			}
			return m
		case "coalesce":
			for _, a := range x.args {
				if v := e.aggregate(a, g); v != nil {
					return v
				}
			}
			return nil
		}
	}
	if len(x.args) > 0 && hasAggregate(x) {
		y := *x
		y.args = nil
		for _, a := range x.args {
			y.args = append(y.args, &expr{op: "lit", val: e.aggregate(a, g)})
		}
		return e.eval(&y, nil)
	}
	if len(g) == 0 {
		return e.eval(x, nil)
	}
	return e.eval(x, g[0])
}

// subquery gives the rows of a subquery, which does not refer to the outer row.
func (e *exec) subquery(st *stmt) [][]interface{} {
	f := &exec{c: e.c, s: e.s, t: e.t, snap: e.snap, args: e.args}
	r, wait, err := f.run(st)
	if wait != nil {
		e.wait = wait
		return nil
	}
	if err != nil {
		if e.err == nil {
			e.err = err
		}
		return nil
	}
	return r.vals
}

func (e *exec) eval(x *expr, r *row) interface{} {
	switch x.op {
	case "lit":
		return x.val
	case "param":
		if x.n >= len(e.args) {
			e.failf("08P01", "a parameter is missing")
			return nil
		}
		switch v := e.args[x.n].(type) {
		case nil:
			return nil
		case []byte:
			return string(v)
		default:
			return v
		}
	case "excluded":
		i := e.mustCol(x.name)
		if i < 0 || e.excl == nil {
			return nil
		}
		return e.excl.v[i]
	case "col":
		i := e.mustCol(x.name)
		if i < 0 || r == nil {
			return nil
		}
		return r.v[i]
	case "exists":
		return len(e.subquery(x.sub)) > 0
	case "subquery":
		rows := e.subquery(x.sub)
		if len(rows) == 0 {
			return nil
		}
		if len(rows) > 1 {
			e.failf("21000", "more than one row returned by a subquery used as an expression")
		}
		return rows[0][0]
	case "and", "or":
		stop := x.op == "or"
		a, aok := e.eval(x.args[0], r).(bool)
		if aok && a == stop {
			return stop
		}
		b, bok := e.eval(x.args[1], r).(bool)
		if bok && b == stop {
			return stop
		}
		if !aok || !bok {
			return nil
		}
		return !stop
	case "not":
		a, ok := e.eval(x.args[0], r).(bool)
		if !ok {
			return nil
		}
		return !a
	case "=", "<>", "<", "<=", ">", ">=":
		k := e.kind(x.args[0])
		if k == "" {
			k = e.kind(x.args[1])
		}
		return tri(e.compare(x.op, e.eval(x.args[0], r), e.eval(x.args[1], r), k))
	case "in":
		v := e.eval(x.args[0], r)
		k := e.kind(x.args[0])
		for _, a := range x.args[1:] {
			if e.compare("=", v, e.eval(a, r), k) == 1 {
				return true
			}
		}
		return false
	case "any":
		v := e.eval(x.args[0], r)
		a, ok := e.eval(x.args[1], r).(string)
		if !ok {
			return nil
		}
		for _, s := range elements(a) {
			if !validText(s) {
				e.failf("22021", "invalid byte sequence for encoding \"UTF8\"")
				return nil
			}
			if e.compare("=", v, s, e.kind(x.args[0])) == 1 {
				return true
			}
		}
		return false
	case "isnull":
		return e.eval(x.args[0], r) == nil
	case "notnull":
		return e.eval(x.args[0], r) != nil
	case "+", "-":
		a, aok := e.eval(x.args[0], r).(int64)
		b, bok := e.eval(x.args[1], r).(int64)
		if !aok || !bok {
			return nil
		}
		if x.op == "-" {
			b = -b
		}
		return a + b
	case "call":
		switch x.name {
		case "pg_advisory_xact_lock", "pg_advisory_lock", "pg_advisory_unlock":
			k, ok := e.coerce(e.eval(x.args[0], r), "int8").(int64)
			if !ok {
				return nil
			}
			if len(x.args) > 1 {
				k2, _ := e.coerce(e.eval(x.args[1], r), "int4").(int64)
				k = k<<32 | k2&0xffffffff
			}
			if x.name == "pg_advisory_unlock" {
				return e.c.unlock(k)
			}
			if h := e.s.advisory[k]; h != nil && h != e.t && h != e.c.session {
				e.wait = h
				return nil
			}
			if x.name == "pg_advisory_lock" {
				var left []int64
				if e.c.session != nil {
					left = e.c.session.locks
				}
				e.c.relock(append(left, k))
				return ""
			}
			if e.s.advisory[k] == nil {
				e.s.advisory[k] = e.t
				e.t.locks = append(e.t.locks, k)
			}
			return ""
		case "hashtext":
			s, _ := e.eval(x.args[0], r).(string)
			h := uint32(2166136261)
			for i := 0; i < len(s); i++ {
				h = (h ^ uint32(s[i])) * 16777619
			}
			return int64(int32(h))
		case "coalesce":
			for _, a := range x.args {
				if v := e.eval(a, r); v != nil {
					return v
				}
			}
			return nil
		case "now":
			unsupported("now()")
		}
	}
	unsupported("expression " + x.op + " " + x.name)
	return nil
}
