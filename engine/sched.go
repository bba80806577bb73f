package main

// Goroutines, channels, locks, timers: the interpreted program's scheduler.
// One interpreted goroutine runs at a time; every scheduling decision is a
// decision variable of the path.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

type objRef struct {
	p     any
	write bool
}

type footprint struct {
	objs []objRef
	wild bool
	what string
}

func fpW(what string, ps ...any) footprint {
	f := footprint{what: what}
	for _, p := range ps {
		f.objs = append(f.objs, objRef{p, true})
	}
	return f
}
func fpR(what string, ps ...any) footprint {
	f := footprint{what: what}
	for _, p := range ps {
		f.objs = append(f.objs, objRef{p, false})
	}
	return f
}

func indep(a, b footprint) bool {
	if a.wild || b.wild {
		return false
	}
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x.p == y.p && (x.write || y.write) {
				return false
			}
		}
	}
	return true
}

const (
	gRunnable = iota
	gParked
	gDone
)

type G struct {
	id      int
	resume  chan struct{}
	exited  chan struct{}
	top     *Frame
	state   int
	fresh   bool
	ready   func() bool
	pend    footprint
	desc    string
	quiet   int
	isMain  bool
	quiesce bool
	name    string
	vc      vclock
	low     bool // parked: runs when no other can
	lowSeq  int
}

type timer struct {
	when  int64
	seq   int
	fire  func()
	dead  bool
	owner any
}

type Sched struct {
	in         *Interp
	mode       string
	gs         []*G
	cur        *G
	dead       bool
	done       chan struct{}
	sleep      map[*G]bool
	preempts   int
	bound      int
	timerMode  string
	timers     []*timer
	now        int64
	tseq       int
	mutexes    map[Ptr]*mutexState
	wgs        map[Ptr]*wgState
	conds      map[Ptr][]*waiter
	trace      []string
	switches   int
	wg         sync.WaitGroup
	steps      int
	timerFires int
}

type mutexState struct {
	locked  bool
	owner   *G
	wpend   bool // RW: writer announced
	wlocked bool // RW: writer holds
	readers int
	rwait   []*waiter
}

type wgState struct{ n int }

type waiter struct {
	g    *G
	ch   *Chan
	sel  *selState
	idx  int
	val  Value
	ok   bool
	done bool
	send bool
}

type selState struct {
	fired bool
	w     *waiter
}

type Chan struct {
	id     int
	cap    int
	buf    []Value
	bufVC  []vclock // what the sender of each buffered value knew
	freeVC vclock   // what the receivers of buffered values knew
	clVC   vclock
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

func (in *Interp) newChan(n int) *Chan {
	in.path.nchan++
	return &Chan{id: in.path.nchan, cap: n}
}

func (s *Sched) newG(name string) *G {
	g := &G{id: len(s.gs), resume: make(chan struct{}), exited: make(chan struct{}), state: gRunnable, fresh: true, name: name}
	s.gs = append(s.gs, g)
	return g
}

// startG launches the native goroutine carrying g.
func (s *Sched) startG(g *G, body func()) {
	in := s.in
	go func() {
		defer close(g.exited)
		<-g.resume
		if s.dead {
			g.state = gDone
			return
		}
		end, tp := in.guard(body)
		g.state = gDone
		if s.dead {
			return
		}
		if tp != nil {
			in.path.finish(pathEnd{"panic", in.panicString(*tp)})
			return
		}
		if end != nil {
			in.path.finish(*end)
			return
		}
		if g.isMain {
			in.path.finish(pathEnd{"done", ""})
			return
		}
		// goroutine finished normally: hand over
		end, _ = in.guard(func() { in.pick(g) })
		if end != nil && !s.dead {
			in.path.finish(*end)
		}
	}()
}

func (in *Interp) spawn(fr *Frame, fv Value, args []Value) *G {
	s := in.path.sched
	if in.initDep > 0 {
		panic(unsupported("go statement during package initialisation"))
	}
	g := s.newG(funcName(fv))
	if len(s.gs) > 64 {
		panic(pathEnd{"bound", "goroutine bound exceeded"})
	}
	g.vc = in.snapCur()
	s.startG(g, func() {
		in.callValue(nil, fv, args)
	})
	return g
}

func funcName(fv Value) string {
	switch fv := fv.(type) {
	case *Closure:
		if fv != nil && fv.fn != nil {
			return fv.fn.name
		}
	case *Func:
		return fv.name
	}
	return "?"
}

// visible is a scheduling point before a visible operation.
func (in *Interp) visible(g *G, fp footprint) {
	s := in.path.sched
	if s.mode == "det" || in.quiet > 0 || g.quiet > 0 {
		return
	}
	if g.top != nil && g.top.fn.pkgPath == "database/sql" {
		return // no scheduling points inside (statements reach the model server, which has some)
	}
	g.pend = fp
	in.pick(g)
}

func (in *Interp) park(g *G, ready func() bool, fp footprint, desc string) {
	g.state = gParked
	g.ready = ready
	g.pend = fp
	g.desc = desc
	in.pick(g)
	g.desc = ""
}

func (s *Sched) wake(g *G) {
	if g.state == gParked {
		g.state = gRunnable
		g.ready = nil
		g.fresh = true
	}
}

// pick chooses who runs next and switches to it; returns when g runs again.
func (in *Interp) pick(g *G) {
	s := in.path.sched
	s.steps++
	if s.steps > 200000 {
		panic(pathEnd{"bound", "scheduling step bound exceeded"})
	}
	var next *G
	for {
		if s.mode != "det" {
			for _, x := range s.gs {
				if x.state == gRunnable && x.fresh {
					x.fresh = false
					next = x
					break
				}
			}
			if next != nil {
				break
			}
		}
		cands := s.candidates(g)
		if len(cands) == 0 || (s.timerMode == "any" && s.liveTimer() != nil) {
			if s.timerMode == "any" && len(cands) > 0 && s.timerFires < 4 {
				// a pending timer may fire at any scheduling point
				t := s.liveTimer()
				if in.choose(2, "timer") == 1 {
					s.fireTimer(t)
					continue
				}
			} else if len(cands) == 0 {
				q := s.quiescing()
				if q != nil {
					q.quiesce = false
					q.state = gRunnable
					q.fresh = false
					next = q
					break
				}
				if t := s.liveTimer(); t != nil {
					s.fireTimer(t)
					continue
				}
				panic(pathEnd{"deadlock", s.describe()})
			}
		}
		next = in.decide(g, cands)
		break
	}
	next.state = gRunnable
	next.ready = nil
	next.fresh = false
	if next == g {
		s.cur = g
		return
	}
	s.switches++
	s.cur = next
	if len(s.trace) < 4000 {
		s.trace = append(s.trace, fmt.Sprintf("G%d %s", next.id, next.pend.what))
	}
	next.resume <- struct{}{}
	if g.state == gDone {
		return
	}
	<-g.resume
	if s.dead {
		panic(pathEnd{"killed", ""})
	}
}

func (s *Sched) candidates(cur *G) []*G {
	var r []*G
	add := func(x *G) {
		if x.state == gRunnable || (x.state == gParked && !x.quiesce && x.ready != nil && x.ready()) {
			r = append(r, x)
		}
	}
	if s.mode == "det" {
		n := len(s.gs)
		for i := 1; i <= n; i++ {
			add(s.gs[(cur.id+i)%n])
		}
		return r
	}
	add(cur)
	n := len(s.gs)
	for i := 1; i < n; i++ {
		add(s.gs[(cur.id+i)%n])
	}
	return r
}

func (in *Interp) decide(g *G, cands []*G) *G {
	s := in.path.sched
	switch s.mode {
	case "det":
		return cands[0]
	case "full":
		var awake []*G
		for _, c := range cands {
			if !s.sleep[c] {
				awake = append(awake, c)
			}
		}
		if len(awake) == 0 {
			panic(pathEnd{"redundant", "sleep set"})
		}
		k := 0
		if len(awake) > 1 {
			k = in.choose(len(awake), "sched")
		}
		ch := awake[k]
		ns := map[*G]bool{}
		for x := range s.sleep {
			if indep(x.pend, ch.pend) {
				ns[x] = true
			}
		}
		for _, x := range awake[:k] {
			if indep(x.pend, ch.pend) {
				ns[x] = true
			}
		}
		delete(ns, ch)
		s.sleep = ns
		return ch
	case "pb":
		if len(cands) == 1 {
			return cands[0]
		}
		if cands[0] == g && g.state == gRunnable {
			if s.preempts >= s.bound {
				return g
			}
			k := in.choose(len(cands), "sched")
			if k != 0 {
				s.preempts++
			}
			return cands[k]
		}
		return cands[in.choose(len(cands), "sched")]
	case "delay":
		n := len(cands)
		if left := s.bound - s.preempts; n > left+1 {
			n = left + 1
		}
		if n <= 1 {
			return cands[0]
		}
		k := in.choose(n, "sched")
		s.preempts += k
		return cands[k]
	case "park":
		// a parked goroutine waits until no other can run
		for {
			var un []*G
			for _, c := range cands {
				if !c.low {
					un = append(un, c)
				}
			}
			if len(un) == 0 {
				best := cands[0]
				for _, c := range cands {
					if c.lowSeq < best.lowSeq {
						best = c
					}
				}
				best.low = false
				return best
			}
			if len(cands) == 1 || s.preempts >= s.bound {
				return un[0]
			}
			if in.choose(2, "sched") == 0 {
				return un[0]
			}
			s.preempts++
			un[0].low, un[0].lowSeq = true, s.preempts
		}
	}
	panic("sched mode")
}

func (s *Sched) quiescing() *G {
	for _, g := range s.gs {
		if g.quiesce && g.state == gParked {
			return g
		}
	}
	return nil
}

func (s *Sched) liveTimer() *timer {
	var best *timer
	for _, t := range s.timers {
		if t.dead {
			continue
		}
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

func (s *Sched) fireTimer(t *timer) {
	t.dead = true
	s.timerFires++
	if t.when > s.now {
		s.now = t.when
	}
	live := s.timers[:0]
	for _, x := range s.timers {
		if !x.dead {
			live = append(live, x)
		}
	}
	s.timers = live
	if s.timerFires > 2000 {
		panic(pathEnd{"bound", "timer bound exceeded"})
	}
	t.fire()
}

func (s *Sched) addTimer(d int64, fire func(), owner any) *timer {
	s.tseq++
	if d < 0 {
		d = 0
	}
	t := &timer{when: s.now + d, seq: s.tseq, fire: fire, owner: owner}
	s.timers = append(s.timers, t)
	return t
}

func (s *Sched) describe() string {
	var sb strings.Builder
	sb.WriteString("all goroutines are blocked:")
	for _, g := range s.gs {
		if g.state == gDone {
			continue
		}
		st := strings.Split(s.in.stackOf(g), "\n")
		var keep []string
		for _, l := range st {
			if l != "" && len(keep) < 6 {
				keep = append(keep, l)
			}
		}
		fmt.Fprintf(&sb, "\n  G%d %s: %s\n    %s", g.id, g.name, g.desc, strings.Join(keep, "\n    "))
	}
	return sb.String()
}

func (s *Sched) blockedOthers() []string {
	var r []string
	for _, g := range s.gs {
		if g.state != gDone && !g.isMain {
			r = append(r, fmt.Sprintf("G%d %s: %s", g.id, g.name, g.desc))
		}
	}
	sort.Strings(r)
	return r
}

// killAll unwinds every remaining goroutine of the path.
func (s *Sched) killAll() {
	s.dead = true
	for _, g := range s.gs {
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.resume <- struct{}{}:
			<-g.exited
		case <-g.exited:
		}
	}
}

// ---- channels ----

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel != nil && w.sel.fired {
			continue
		}
		return true
	}
	return false
}

func (s *Sched) complete(w *waiter, v Value, ok bool) {
	w.val, w.ok, w.done = v, ok, true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.w = w
	}
	s.wake(w.g)
}

func (in *Interp) curG() *G { return in.path.sched.cur }

func (in *Interp) forever(what string) {
	g := in.curG()
	in.park(g, func() bool { return false }, footprint{what: what}, what)
}

// trySend attempts the send; reports whether it completed.
func (in *Interp) trySend(ch *Chan, v Value) bool {
	if ch.closed {
		panic(targetPanic{v: Iface{in.eng.errStrT, "send on closed channel"}, trace: in.stack()})
	}
	if w := popWaiter(&ch.recvq); w != nil {
		if ch.cap == 0 {
			in.handOver(w.g, in.curG())
		}
		in.handOver(in.curG(), w.g)
		in.path.sched.complete(w, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		in.joinCur(ch.freeVC)
		ch.buf = append(ch.buf, v)
		ch.bufVC = append(ch.bufVC, in.snapCur())
		return true
	}
	return false
}

func (in *Interp) tryRecv(ch *Chan) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		in.joinCur(ch.bufVC[0])
		ch.bufVC = append([]vclock(nil), ch.bufVC[1:]...)
		if in.racing() != nil {
			ch.freeVC.join(in.snapCur())
		}
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			if in.racing() != nil {
				ch.bufVC = append(ch.bufVC, w.g.snap())
				w.g.clock().join(ch.freeVC)
			} else {
				ch.bufVC = append(ch.bufVC, nil)
			}
			in.path.sched.complete(w, nil, true)
		}
		return v, true, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		v := w.val
		in.handOver(w.g, in.curG())
		in.handOver(in.curG(), w.g)
		in.path.sched.complete(w, nil, true)
		return v, true, true
	}
	if ch.closed {
		in.joinCur(ch.clVC)
		return nil, false, true
	}
	return nil, false, false
}

func (in *Interp) chanSend(fr *Frame, ch *Chan, v Value) {
	g := in.curG()
	if ch == nil {
		in.forever("send on nil channel")
	}
	in.visible(g, fpW(fmt.Sprintf("send c%d", ch.id), ch))
	if in.trySend(ch, v) {
		return
	}
	w := &waiter{g: g, ch: ch, val: v, send: true}
	ch.sendq = append(ch.sendq, w)
	in.park(g, func() bool { return w.done }, footprint{what: "sent"}, "chan send")
	if !w.ok {
		panic(targetPanic{v: Iface{in.eng.errStrT, "send on closed channel"}, trace: in.stack()})
	}
}

func (in *Interp) chanRecv(fr *Frame, ch *Chan) (Value, bool) {
	g := in.curG()
	if ch == nil {
		in.forever("receive from nil channel")
	}
	in.visible(g, fpW(fmt.Sprintf("recv c%d", ch.id), ch))
	if v, ok, done := in.tryRecv(ch); done {
		return v, ok
	}
	w := &waiter{g: g, ch: ch}
	ch.recvq = append(ch.recvq, w)
	in.park(g, func() bool { return w.done }, footprint{what: "received"}, "chan receive")
	return w.val, w.ok
}

func (in *Interp) chanClose(ch *Chan) {
	g := in.curG()
	if ch == nil {
		panic(targetPanic{v: Iface{in.eng.errStrT, "close of nil channel"}, trace: in.stack()})
	}
	in.visible(g, fpW(fmt.Sprintf("close c%d", ch.id), ch))
	if ch.closed {
		panic(targetPanic{v: Iface{in.eng.errStrT, "close of closed channel"}, trace: in.stack()})
	}
	ch.closed = true
	ch.clVC = in.snapCur()
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		in.handOver(g, w.g)
		in.path.sched.complete(w, nil, false)
	}
	for {
		w := popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		in.path.sched.complete(w, nil, false)
	}
}

func (in *Interp) chanSelect(fr *Frame, cases []selCase, blocking bool) (int, Value, bool) {
	g := in.curG()
	fp := footprint{what: "select"}
	for _, c := range cases {
		if c.ch != nil {
			fp.objs = append(fp.objs, objRef{c.ch, true})
			fp.what += fmt.Sprintf(" c%d", c.ch.id)
		}
	}
	in.visible(g, fp)
	var ready []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || hasWaiter(c.ch.recvq) || len(c.ch.buf) < c.ch.cap {
				ready = append(ready, i)
			}
		} else if len(c.ch.buf) > 0 || c.ch.closed || hasWaiter(c.ch.sendq) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			if selDebug {
				fmt.Fprintln(os.Stderr, "SEL", in.stack())
			}
			if fr.fn.pkgPath != "database/sql" {
				k = in.choose(len(ready), "select")
			}
		}
		i := ready[k]
		c := cases[i]
		if c.send {
			in.trySend(c.ch, c.val)
			return i, nil, false
		}
		v, ok, _ := in.tryRecv(c.ch)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	sel := &selState{}
	n := 0
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		n++
		w := &waiter{g: g, ch: c.ch, sel: sel, idx: i, val: c.val, send: c.send}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	in.park(g, func() bool { return sel.fired }, footprint{what: "selected"}, "select")
	w := sel.w
	if w.send {
		if !w.ok {
			panic(targetPanic{v: Iface{in.eng.errStrT, "send on closed channel"}, trace: in.stack()})
		}
		return w.idx, nil, false
	}
	return w.idx, w.val, w.ok
}

// ---- locks ----

func (s *Sched) mutex(p Ptr) *mutexState {
	m := s.mutexes[p]
	if m == nil {
		m = &mutexState{}
		s.mutexes[p] = m
	}
	return m
}

func (in *Interp) fatal(msg string) {
	panic(pathEnd{"panic", "fatal error: " + msg + "\n" + in.stack()})
}

func (in *Interp) lock(p Ptr) {
	if in.path == nil {
		return
	}
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := in.path.sched
	g := s.cur
	m := s.mutex(p)
	in.visible(g, fpW("lock", p))
	if m.locked {
		in.park(g, func() bool { return !m.locked }, fpW("lock", p), "sync.Mutex.Lock")
	}
	m.locked = true
	m.owner = g
	in.acq(p, "")
}

func (in *Interp) tryLock(p Ptr) bool {
	s := in.path.sched
	m := s.mutex(p)
	in.visible(s.cur, fpW("trylock", p))
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = s.cur
	in.acq(p, "")
	return true
}

func (in *Interp) unlock(p Ptr) {
	if in.path == nil {
		return
	}
	s := in.path.sched
	m := s.mutex(p)
	if s.mode == "full" {
		in.visible(s.cur, fpW("unlock", p))
	}
	if !m.locked {
		in.fatal("sync: unlock of unlocked mutex")
	}
	in.rel(p, "")
	m.locked = false
	m.owner = nil
}

// RWMutex, following sync.RWMutex: a writer that has announced itself blocks
// new readers; on Unlock the readers that arrived meanwhile get in first.
func (in *Interp) rwLock(p Ptr) {
	if in.path == nil {
		return
	}
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := in.path.sched
	g := s.cur
	m := s.mutex(p)
	in.visible(g, fpW("rwlock", p))
	if m.locked {
		in.park(g, func() bool { return !m.locked }, fpW("rwlock", p), "sync.RWMutex.Lock")
	}
	m.locked = true // holds rw.w
	m.owner = g
	m.wpend = true // announced
	if m.readers > 0 {
		in.park(g, func() bool { return m.readers == 0 }, fpW("rwlock-acq", p), "sync.RWMutex.Lock (waiting for readers)")
	}
	m.wlocked = true
	in.acq(p, "")
	in.acq(p, "readers")
}

func (in *Interp) rwUnlock(p Ptr) {
	if in.path == nil {
		return
	}
	s := in.path.sched
	m := s.mutex(p)
	if s.mode == "full" {
		in.visible(s.cur, fpW("rwunlock", p))
	}
	if !m.wlocked {
		in.fatal("sync: Unlock of unlocked RWMutex")
	}
	in.rel(p, "")
	m.wlocked, m.wpend, m.locked = false, false, false
	m.owner = nil
	for _, w := range m.rwait {
		m.readers++
		w.done = true
		s.wake(w.g)
	}
	m.rwait = nil
}

func (in *Interp) rwRLock(p Ptr) {
	if in.path == nil {
		return
	}
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := in.path.sched
	g := s.cur
	m := s.mutex(p)
	in.visible(g, fpR("rlock", p))
	if m.wpend {
		w := &waiter{g: g}
		m.rwait = append(m.rwait, w)
		in.park(g, func() bool { return w.done }, footprint{what: "rlocked"}, "sync.RWMutex.RLock")
		in.acq(p, "")
		return
	}
	m.readers++
	in.acq(p, "")
}

func (in *Interp) rwRUnlock(p Ptr) {
	if in.path == nil {
		return
	}
	s := in.path.sched
	m := s.mutex(p)
	if s.mode == "full" {
		in.visible(s.cur, fpW("runlock", p))
	}
	if m.readers == 0 {
		in.fatal("sync: RUnlock of unlocked RWMutex")
	}
	in.rel(p, "readers")
	m.readers--
}

var selDebug = os.Getenv("SYMGO_SEL") != ""
