package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a, b vclock) vclock {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	for i := range r {
		r[i] = a.at(i)
		if b.at(i) > r[i] {
			r[i] = b.at(i)
		}
	}
	return r
}

type goroutine struct {
	id      int
	name    string
	top     *frame
	wake    chan struct{}
	exited  chan struct{}
	done    bool
	ready   func() bool // nil when runnable
	why     string
	settle  bool
	vc      vclock
	timerWk bool
	inTimer bool
}

// ChanV is a channel.
type ChanV struct {
	cap     int
	et      types.Type
	buf     []chanItem
	recvq   []*waiter
	sendq   []*waiter
	closed  bool
	closeVC vclock
	rvcs    []vclock
	nsent   int
	id      int
}

type chanItem struct {
	v  Value
	vc vclock
}

type waiter struct {
	g     *goroutine
	ch    *ChanV
	idx   int
	val   Value
	vc    vclock
	sel   *selState
	recvd Value
	ok    bool
}

type selState struct {
	fired *waiter
	panic bool
}

type timer struct {
	seq    int
	when   Value
	period Value // nil unless a ticker
	ch     *ChanV
	fn     Value
	g      *goroutine // sleeping goroutine
	live   bool
	vc     vclock
	obj    *Value
}

type mutexState struct {
	locked   bool
	readers  int
	wwait    int
	vc, rvc  vclock
	lockedBy int
}

type wgState struct {
	n       int64
	vc      vclock
	waiters int
}

type onceState struct {
	done, running bool
	vc            vclock
}

type uncaught struct{ v Value }

func (st *State) logChan(c *ChanV) {
	if st.logging {
		old := *c
		st.logF(func() { *c = old })
	}
}

// schedPoint lets the scheduler preempt the running goroutine.
func (st *State) schedPoint(what string) {
	if len(st.gs) < 2 || st.initDep > 0 || st.preempt >= st.preemptMax {
		return
	}
	if g := st.cur; g.top != nil {
		if p := pkgOf(g.top.fn); p != nil {
			switch p.Path() {
			case "context", "time", "sync", "sync/atomic", "errors", "internal/sync":
				return
			}
		}
	}
	var others []*goroutine
	for _, g := range st.gs {
		if g != st.cur && !g.done && !g.settle && (g.ready == nil || g.ready()) {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return
	}
	st.schedChoices++
	k := st.choose("sched", len(others)+1)
	if k == 0 {
		return
	}
	st.preempt++
	st.switchTo(others[k-1])
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	return nil
}

// switchTo hands the token to g and waits for it back.
func (st *State) switchTo(g *goroutine) {
	me := st.cur
	if g == me {
		return
	}
	st.cur = g
	g.wake <- struct{}{}
	st.await(me)
}

func (st *State) await(me *goroutine) {
	<-me.wake
	if st.killing {
		panic(killed{})
	}
	if me.id == 0 && st.abortPan != nil {
		r := st.abortPan
		st.abortPan = nil
		panic(r)
	}
}

// block suspends the running goroutine until ready() holds.
func (st *State) block(why string, ready func() bool) {
	g := st.cur
	if st.initDep > 0 {
		unsup("blocking operation during package initialisation")
	}
	g.ready, g.why = ready, why
	next := st.pick()
	if next != g {
		st.switchTo(next)
	}
	g.ready, g.why = nil, ""
}

// pick chooses the goroutine that runs next when the current one cannot continue.
func (st *State) pick() *goroutine {
	for {
		var run []*goroutine
		var settle *goroutine
		for _, g := range st.gs {
			if g.done {
				continue
			}
			if g.settle {
				settle = g
				continue
			}
			if g.ready == nil || g.ready() {
				run = append(run, g)
			}
		}
		if len(run) > 0 {
			if len(run) > 1 {
				st.schedChoices++
			}
			return run[st.choose("sched", len(run))]
		}
		if settle != nil {
			settle.settle = false
			settle.ready = nil
			return settle
		}
		if !st.advance() {
			st.deadlock()
		}
	}
}

func (st *State) deadlock() {
	var ss []string
	for _, g := range st.gs {
		if !g.done {
			ss = append(ss, fmt.Sprintf("%s: %s", g.name, g.why))
		}
	}
	panic(deadlocked{strings.Join(ss, "; ")})
}

type deadlocked struct{ msg string }

// advance moves virtual time to the next timer and fires it.
func (st *State) advance() bool {
	var live []*timer
	for _, t := range st.timers {
		if t.live {
			live = append(live, t)
		}
	}
	st.timers = live
	if len(live) == 0 {
		return false
	}
	st.advances++
	if st.advances > st.unit.maxAdvances {
		// an endless ticker with nobody else able to run
		main := st.gs[0]
		if !main.done {
			panic(deadlocked{fmt.Sprintf("no progress after %d timer events; main: %s", st.unit.maxAdvances, main.why)})
		}
		panic(pathEnd{"bound"})
	}
	tm := st.tm
	var cand []*timer
	allC := true
	for _, t := range live {
		if _, ok := t.when.(C); !ok {
			allC = false
		}
	}
	if allC {
		min := live[0].when.(C)
		for _, t := range live {
			if int64(t.when.(C)) < int64(min) {
				min = t.when.(C)
			}
		}
		for _, t := range live {
			if t.when.(C) == min {
				cand = append(cand, t)
			}
		}
	} else {
		cand = live
	}
	if len(cand) > 1 {
		st.schedChoices++
	}
	t := cand[st.choose("timer", len(cand))]
	if !allC {
		w := st.term(t.when, 64)
		for _, o := range live {
			if o != t {
				st.assume(st.val(tm.Not(tm.Slt(st.term(o.when, 64), w))))
			}
		}
	}
	// now = max(now, when)
	n, w := st.term(st.now, 64), st.term(t.when, 64)
	if st.must(tm.Not(tm.Slt(w, n))) {
		st.now = t.when
	} else {
		st.now = st.val(tm.Ite(tm.Slt(n, w), w, n))
	}
	st.fire(t)
	return true
}

// must tells whether c holds on every execution of this path.
func (st *State) must(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	if st.pcSet[c] {
		return true
	}
	if st.model.eval(c) != 1 {
		return false
	}
	r, _ := st.feasible(st.tm.Not(c))
	return r == resUnsat
}

func (st *State) fire(t *timer) {
	if t.period != nil {
		t.when = st.val(st.tm.Bin(OAdd, st.term(t.when, 64), st.term(t.period, 64)))
	} else {
		t.live = false
	}
	switch {
	case t.g != nil:
		t.g.timerWk = true
		if st.hb != nil {
			t.g.vc = joinVC(t.g.vc, t.vc)
		}
	case t.ch != nil:
		st.timerSend(t)
	case t.fn != nil:
		g := st.newG("timer", t.vc)
		fn := t.fn
		st.startG(g, func() { st.call(nil, fn, nil, nil) })
	}
}

func (st *State) timerSend(t *timer) {
	c := t.ch
	st.logChan(c)
	v := timeVal(st.now)
	if w := popWaiter(&c.recvq); w != nil {
		w.recvd, w.ok, w.vc = v, true, t.vc
		w.sel.fired = w
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], chanItem{v, t.vc})
	}
}

func (st *State) addTimer(d Value, t *timer) *timer {
	tm := st.tm
	dd := st.term(d, 64)
	zero := tm.Const(64, 0)
	dd = tm.Ite(tm.Slt(dd, zero), zero, dd)
	t.when = st.val(tm.Bin(OAdd, st.term(st.now, 64), dd))
	st.timerSeq++
	t.seq = st.timerSeq
	t.live = true
	st.release(&t.vc)
	st.timers = append(st.timers, t)
	return t
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.fired == nil {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter, me *goroutine) bool {
	for _, w := range q {
		if w.sel.fired == nil && w.g != me {
			return true
		}
	}
	return false
}

func (st *State) newG(name string, vc vclock) *goroutine {
	g := &goroutine{id: len(st.gs), name: fmt.Sprintf("%s#%d", name, len(st.gs)), wake: make(chan struct{}), exited: make(chan struct{})}
	if g.id >= st.unit.maxGoroutines {
		st.unit.noteIncomplete(fmt.Sprintf("goroutine bound %d reached", st.unit.maxGoroutines))
		panic(pathEnd{"bound"})
	}
	if st.hb == nil {
		st.hb = newHB()
		if len(st.gs[0].vc) == 0 {
			st.gs[0].vc = vclock{1}
		}
	}
	p := st.cur
	if vc == nil {
		vc = p.vc
		st.tick(p)
	}
	g.vc = make(vclock, g.id+1)
	copy(g.vc, vc)
	if len(vc) > len(g.vc) {
		g.vc = append(vclock(nil), vc...)
	}
	g.vc[g.id] = 1
	st.gs = append(st.gs, g)
	return g
}

func (st *State) tick(g *goroutine) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	nv := append(vclock(nil), g.vc...)
	nv[g.id]++
	g.vc = nv
}

func (st *State) startG(g *goroutine, body func()) {
	go func() {
		<-g.wake
		defer close(g.exited)
		if st.killing {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killed); ok {
				return
			}
			g.done = true
			if r == nil {
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							r = r2
						}
					}()
					next := st.pick()
					st.cur = next
					next.wake <- struct{}{}
				}()
				if r == nil {
					return
				}
			}
			if tp, ok := r.(targetPanic); ok {
				r = uncaught{tp.v}
			}
			st.abortPan = r
			st.abortG = g
			st.cur = st.gs[0]
			st.gs[0].wake <- struct{}{}
		}()
		body()
	}()
}

func (st *State) spawn(fr *frame, fn Value, args []Value, site ssa.Instruction) {
	name := "go"
	if c, ok := fn.(*Closure); ok && c != nil && c.fn != nil {
		name = c.fn.Name()
	}
	if c, ok := fn.(*Closure); ok && c == nil {
		st.rtPanic("go of nil func value")
	}
	g := st.newG(name, nil)
	st.startG(g, func() { st.call(nil, fn, args, site) })
	st.schedPoint("go")
}

// killAll ends every goroutine of the path except the main one.
func (st *State) killAll() {
	st.killing = true
	for _, g := range st.gs {
		if g.id == 0 {
			continue
		}
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.wake <- struct{}{}:
			<-g.exited
		case <-g.exited:
		}
	}
	st.killing = false
}

// acquire/release maintain happens-before.
func (st *State) acquire(vc vclock) {
	if st.hb == nil || st.cur == nil {
		return
	}
	st.cur.vc = joinVC(st.cur.vc, vc)
}

func (st *State) release(vc *vclock) {
	if st.hb == nil || st.cur == nil {
		return
	}
	*vc = joinVC(*vc, st.cur.vc)
	st.tick(st.cur)
}

func (st *State) myVC() vclock {
	if st.hb == nil {
		return nil
	}
	v := st.cur.vc
	st.tick(st.cur)
	return v
}

func (st *State) chanSend(c *ChanV, v Value) {
	st.schedPoint("send")
	if c == nil {
		st.block("send on nil channel", func() bool { return false })
		return
	}
	if st.trySend(c, v) {
		return
	}
	s := &selState{}
	w := &waiter{g: st.cur, ch: c, val: v, vc: st.myVC(), sel: s}
	st.logChan(c)
	c.sendq = append(c.sendq[:len(c.sendq):len(c.sendq)], w)
	st.block("chan send", func() bool { return s.fired != nil })
	if s.panic {
		st.rtPanic("send on closed channel")
	}
	st.acquire(w.vc)
}

func (st *State) trySend(c *ChanV, v Value) bool {
	if c.closed {
		st.rtPanic("send on closed channel")
	}
	if !(len(c.buf) < c.cap) && !hasWaiter(c.recvq, nil) {
		return false
	}
	st.logChan(c)
	if w := popWaiter(&c.recvq); w != nil {
		w.recvd, w.ok = v, true
		w.vc = st.myVC()
		if c.cap == 0 && st.hb != nil {
			st.acquire(w.g.vc)
		}
		if c.cap > 0 {
			c.rvcs = append(c.rvcs[:len(c.rvcs):len(c.rvcs)], w.g.vc)
			c.nsent++
		}
		w.sel.fired = w
		return true
	}
	if st.hb != nil && c.nsent >= c.cap && c.nsent-c.cap < len(c.rvcs) {
		st.acquire(c.rvcs[c.nsent-c.cap])
	}
	c.nsent++
	c.buf = append(c.buf[:len(c.buf):len(c.buf)], chanItem{v, st.myVC()})
	return true
}

func (st *State) tryRecv(c *ChanV, et types.Type) (Value, bool, bool) {
	if len(c.buf) > 0 {
		st.logChan(c)
		it := c.buf[0]
		c.buf = c.buf[1:]
		st.acquire(it.vc)
		if st.hb != nil {
			c.rvcs = append(c.rvcs[:len(c.rvcs):len(c.rvcs)], st.myVC())
		}
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], chanItem{w.val, w.vc})
			c.nsent++
			w.vc = nil
			if st.hb != nil {
				w.vc = c.rvcs[len(c.rvcs)-1]
			}
			w.sel.fired = w
		}
		return it.v, true, true
	}
	if hasWaiter(c.sendq, nil) {
		st.logChan(c)
		w := popWaiter(&c.sendq)
		st.acquire(w.vc)
		w.vc = st.myVC()
		w.sel.fired = w
		return w.val, true, true
	}
	if c.closed {
		st.acquire(c.closeVC)
		return zero(et), false, true
	}
	return nil, false, false
}

func (st *State) chanRecv(c *ChanV, et types.Type) (Value, bool) {
	st.schedPoint("recv")
	if c == nil {
		st.block("receive on nil channel", func() bool { return false })
		return zero(et), false
	}
	if v, ok, done := st.tryRecv(c, et); done {
		return v, ok
	}
	s := &selState{}
	w := &waiter{g: st.cur, ch: c, sel: s}
	st.logChan(c)
	c.recvq = append(c.recvq[:len(c.recvq):len(c.recvq)], w)
	st.block("chan receive", func() bool { return s.fired != nil })
	st.acquire(w.vc)
	if !w.ok {
		return zero(et), false
	}
	return w.recvd, true
}

func (st *State) chanClose(c *ChanV) {
	st.schedPoint("close")
	if c == nil {
		st.rtPanic("close of nil channel")
	}
	if c.closed {
		st.rtPanic("close of closed channel")
	}
	st.logChan(c)
	c.closed = true
	st.release(&c.closeVC)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.ok = false
		w.vc = c.closeVC
		w.sel.fired = w
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.sel.panic = true
		w.sel.fired = w
	}
}

func (st *State) sel(fr *frame, x *ssa.Select) Value {
	type cs struct {
		ch   *ChanV
		send Value
		dir  types.ChanDir
		et   types.Type
	}
	st.schedPoint("select")
	cases := make([]cs, len(x.States))
	for i, s := range x.States {
		cv := fr.get(s.Chan)
		ch, ok := cv.(*ChanV)
		if !ok {
			checkPoison(cv)
		}
		cases[i] = cs{ch: ch, dir: s.Dir, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Dir == types.SendOnly {
			cases[i].send = fr.get(s.Send)
		}
	}
	result := func(idx int, v Value, ok bool) Value {
		r := Tuple{C(uint64(int64(idx))), ok}
		for i, c := range cases {
			if c.dir == types.RecvOnly {
				if i == idx && v != nil {
					r = append(r, v)
				} else {
					r = append(r, zero(c.et))
				}
			}
		}
		return r
	}
	var ready []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.dir == types.SendOnly {
			if c.ch.closed || len(c.ch.buf) < c.ch.cap || hasWaiter(c.ch.recvq, nil) {
				ready = append(ready, i)
			}
		} else if len(c.ch.buf) > 0 || hasWaiter(c.ch.sendq, nil) || c.ch.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		if len(ready) > 1 {
			st.schedChoices++
		}
		i := ready[st.choose("select", len(ready))]
		c := cases[i]
		if c.dir == types.SendOnly {
			st.trySend(c.ch, c.send)
			return result(i, nil, false)
		}
		v, ok, _ := st.tryRecv(c.ch, c.et)
		return result(i, v, ok)
	}
	if !x.Blocking {
		return result(-1, nil, false)
	}
	s := &selState{}
	vc := st.myVC()
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: st.cur, ch: c.ch, idx: i, val: c.send, sel: s}
		st.logChan(c.ch)
		if c.dir == types.SendOnly {
			w.vc = vc
			c.ch.sendq = append(c.ch.sendq[:len(c.ch.sendq):len(c.ch.sendq)], w)
		} else {
			c.ch.recvq = append(c.ch.recvq[:len(c.ch.recvq):len(c.ch.recvq)], w)
		}
	}
	st.block("select", func() bool { return s.fired != nil })
	w := s.fired
	if s.panic {
		st.rtPanic("send on closed channel")
	}
	st.acquire(w.vc)
	c := cases[w.idx]
	if c.dir == types.SendOnly {
		return result(w.idx, nil, false)
	}
	if !w.ok {
		return result(w.idx, zero(c.et), false)
	}
	return result(w.idx, w.recvd, true)
}

// ---- data race detection ----

type shadow struct {
	wg    int
	wc    uint32
	wpos  string
	reads map[int]uint32
}

type hbState struct {
	cells map[any]*shadow
	raced bool
}

func newHB() *hbState { return &hbState{cells: map[any]*shadow{}} }

func (st *State) hbAccess(p *Value, write bool) {
	switch x := (*p).(type) {
	case Struct:
		if len(x) > 0 && len(x) <= 32 {
			for i := range x {
				st.hbAccess(&x[i], write)
			}
			return
		}
	case Array:
		if len(x) > 0 && len(x) <= 32 {
			for i := range x {
				st.hbAccess(&x[i], write)
			}
			return
		}
	}
	st.hbObj(p, write)
}

func (st *State) hbObj(p any, write bool) {
	if st.initDep > 0 || st.cur == nil {
		return
	}
	g := st.cur
	s := st.hb.cells[p]
	if s == nil {
		s = &shadow{wg: -1}
		st.hb.cells[p] = s
	}
	race := ""
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		race = "write at " + s.wpos
	}
	if write {
		for r, c := range s.reads {
			if r != g.id && c > g.vc.at(r) {
				race = "earlier read"
			}
		}
		s.wg, s.wc = g.id, g.vc.at(g.id)
		if race == "" {
			s.wpos = st.pos1()
		}
		s.reads = nil
	} else {
		if s.reads == nil {
			s.reads = map[int]uint32{}
		}
		s.reads[g.id] = g.vc.at(g.id)
	}
	if race != "" && !st.hb.raced {
		st.hb.raced = true
		kind := "read"
		if write {
			kind = "write"
		}
		st.unit.report(st, st.model, "data race: unsynchronised "+kind+" at "+st.pos1()+" and "+race, "")
	}
}

func (st *State) pos1() string {
	if st.cur == nil {
		return "?"
	}
	for f := st.cur.top; f != nil; f = f.caller {
		if f.cur != nil && f.cur.Pos().IsValid() {
			ps := st.eng.fset.Position(f.cur.Pos())
			return fmt.Sprintf("%s:%d", shortPath(ps.Filename), ps.Line)
		}
	}
	return "?"
}

// ---- sync primitives ----

func (st *State) mutex(p Value) *mutexState {
	a := asPtr(p)
	if a == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := st.mutexes[a]
	if m == nil {
		m = &mutexState{}
		st.mutexes[a] = m
	}
	return m
}

func (st *State) fatal(msg string) {
	panic(uncaught{Iface{st.eng.rtErrType, msg}})
}

func (st *State) lock(p Value) {
	m := st.mutex(p)
	if st.initDep > 0 {
		return
	}
	st.schedPoint("lock")
	if m.locked || m.readers > 0 {
		m.wwait++
		st.block("mutex lock", func() bool { return !m.locked && m.readers == 0 })
		m.wwait--
	}
	m.locked = true
	st.acquire(m.vc)
	st.acquire(m.rvc)
}

func (st *State) tryLock(p Value) bool {
	m := st.mutex(p)
	if st.initDep > 0 {
		return true
	}
	st.schedPoint("lock")
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	st.acquire(m.vc)
	st.acquire(m.rvc)
	return true
}

func (st *State) unlock(p Value) {
	m := st.mutex(p)
	if st.initDep > 0 {
		return
	}
	if !m.locked {
		st.fatal("fatal error: sync: unlock of unlocked mutex")
	}
	st.release(&m.vc)
	m.locked = false
	st.schedPoint("unlock")
}

func (st *State) rlock(p Value) {
	m := st.mutex(p)
	if st.initDep > 0 {
		return
	}
	st.schedPoint("rlock")
	if m.locked || m.wwait > 0 {
		st.block("mutex rlock", func() bool { return !m.locked && m.wwait == 0 })
	}
	m.readers++
	st.acquire(m.vc)
}

func (st *State) runlock(p Value) {
	m := st.mutex(p)
	if st.initDep > 0 {
		return
	}
	if m.readers <= 0 {
		st.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	st.release(&m.rvc)
	m.readers--
	st.schedPoint("runlock")
}
