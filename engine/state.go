package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Task is one path to explore, given by its decisions so far and a model satisfying them.
type Task struct {
	prefix []uint16
	model  Model
	wid    int // worker that owns the terms of model
}

// NondetRec is one nondeterministic input drawn on the path.
type NondetRec struct {
	Label string
	Kind  string
	Val   Value // C, bool, *Term
}

type pathEnd struct{ why string }
type killed struct{}

type undoEnt struct {
	p   *Value
	old Value
	f   func()
}

// State belongs to one worker. Per-path fields are reset by runPath.
type State struct {
	id   int
	eng  *Engine
	unit *Unit
	tm   *TermMgr
	sol  *Solver
	xsol *Solver // cross-check solver, may be nil

	consts  map[*ssa.Const]Value
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	initDep int

	// per path
	logging   bool
	undo      []undoEnt
	prefix    []uint16
	pos       int
	decs      []uint16
	model     Model
	pc        []*Term
	pcSet     map[*Term]bool
	varCons   map[*Term][]int
	dom       map[*Term]*[4]uint64
	multi     map[*Term]bool
	nondets   []NondetRec
	nvar      map[string]int
	observes  []obsRec
	steps     int
	branches  int
	reached   map[string]bool
	nondetMap bool
	mapOrders int // iterations that may still deviate from insertion order
	incompl   string

	// scheduler
	gs           []*goroutine
	cur          *goroutine
	abort        *pathEnd
	abortPan     any
	abortG       *goroutine
	killing      bool
	schedChoices int
	atomVC       map[*Value]*vclock
	preempt      int
	preemptMax   int
	maxSteps     int
	nativeSkip   bool
	now          Value
	timers       []*timer
	timerSeq     int
	advances     int
	hb           *hbState
	mutexes      map[*Value]*mutexState
	wgs          map[*Value]*wgState
	onces        map[*Value]*onceState
	side         map[any]any

	funcs map[*ssa.Function]bool // functions executed (evidence)
}

type obsRec struct {
	Label string
	Val   Value
}

func (st *State) log(p *Value) {
	if st.logging {
		st.undo = append(st.undo, undoEnt{p: p, old: *p})
	}
}

func (st *State) logF(f func()) {
	if st.logging {
		st.undo = append(st.undo, undoEnt{f: f})
	}
}

func (st *State) rollback() {
	for i := len(st.undo) - 1; i >= 0; i-- {
		u := &st.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undoEnt{}
	}
	st.undo = st.undo[:0]
}

func (st *State) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case C:
		return st.tm.Const(w, uint64(x))
	case bool:
		return st.tm.Bool(x)
	}
	checkPoison(v)
	panic(fmt.Sprintf("term of %T", v))
}

func (st *State) val(t *Term) Value {
	if t.isConst() {
		if t.w == 0 {
			return t.k == 1
		}
		return C(t.k)
	}
	return t
}

func (st *State) addPC(c *Term) {
	if c.isTrue() || st.pcSet[c] {
		return
	}
	if c.op == OAnd {
		st.addPC(c.a[0])
		st.addPC(c.a[1])
		return
	}
	st.pcSet[c] = true
	i := len(st.pc)
	st.pc = append(st.pc, c)
	for _, v := range c.vars {
		st.varCons[v] = append(st.varCons[v], i)
	}
	if len(c.vars) == 1 && c.vars[0].w == 8 {
		v := c.vars[0]
		m := c.truthMask()
		d := st.dom[v]
		if d == nil {
			d = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
			st.dom[v] = d
		}
		for k := range d {
			d[k] &= m[k]
		}
	} else if len(c.vars) > 1 {
		for _, v := range c.vars {
			st.multi[v] = true
		}
	}
}

// slice returns the path constraints that share variables, transitively, with c.
func (st *State) slice(c *Term) []*Term {
	if len(st.pc) == 0 {
		return nil
	}
	seenV := map[*Term]bool{}
	seenC := map[int]bool{}
	work := append([]*Term(nil), c.vars...)
	for _, v := range work {
		seenV[v] = true
	}
	var out []*Term
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ci := range st.varCons[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			out = append(out, st.pc[ci])
			for _, u := range st.pc[ci].vars {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	return out
}

// feasible decides whether pc ∧ c has a solution and returns a model of the whole pc ∧ c.
func (st *State) feasible(c *Term) (result, Model) {
	if c.isFalse() || st.pcSet[st.tm.Not(c)] {
		return resUnsat, nil
	}
	if c.isTrue() {
		return resSat, st.model
	}
	if len(c.vars) == 1 && c.vars[0].w == 8 {
		v := c.vars[0]
		m := c.truthMask()
		d := st.dom[v]
		var r [4]uint64
		any := false
		for k := range r {
			r[k] = m[k]
			if d != nil {
				r[k] &= d[k]
			}
			any = any || r[k] != 0
		}
		if !any {
			st.sol.stats.DomainDec++
			return resUnsat, nil
		}
		if !st.multi[v] {
			st.sol.stats.DomainDec++
			nm := make(Model, len(st.model)+1)
			for k, x := range st.model {
				nm[k] = x
			}
			nm[v] = pickByte(&r)
			return resSat, nm
		}
	}
	r, m := st.sol.check(append(st.slice(c), c), true)
	if r != resSat {
		return r, nil
	}
	nm := make(Model, len(st.model)+len(m))
	for k, x := range st.model {
		nm[k] = x
	}
	for k, x := range m {
		nm[k] = x
	}
	return resSat, nm
}

func pickByte(r *[4]uint64) uint64 {
	// prefer readable characters
	for _, rg := range [][2]int{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {32, 126}, {0, 255}} {
		for c := rg[0]; c <= rg[1]; c++ {
			if r[c/64]>>(c%64)&1 == 1 {
				return uint64(c)
			}
		}
	}
	return 0
}

func (st *State) push(d uint16, m Model) {
	p := make([]uint16, len(st.decs)+1)
	copy(p, st.decs)
	p[len(st.decs)] = d
	st.unit.pushTask(&Task{prefix: p, model: m, wid: st.id})
}

const (
	dTrue   = 1
	dForced = 2
)

// decide resolves a branch condition, forking the path when both outcomes are possible.
func (st *State) decide(v Value) bool {
	c, ok := v.(*Term)
	if !ok {
		b, ok := v.(bool)
		if !ok {
			checkPoison(v)
			panic(fmt.Sprintf("decide on %T", v))
		}
		return b
	}
	if c.isConst() {
		return c.k == 1
	}
	if st.initDep > 0 {
		unsup("symbolic branch during package initialisation")
	}
	if st.pcSet[c] {
		return true
	}
	nc := st.tm.Not(c)
	if st.pcSet[nc] {
		return false
	}
	st.branches++
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		st.decs = append(st.decs, d)
		if d&dForced == 0 {
			if d&dTrue != 0 {
				st.addPC(c)
			} else {
				st.addPC(nc)
			}
		}
		return d&dTrue != 0
	}
	b := st.model.eval(c) == 1
	st.sol.stats.ModelHits++
	other := c
	if b {
		other = nc
	}
	r, m := st.feasible(other)
	var d uint16
	if b {
		d = dTrue
	}
	switch r {
	case resUnsat:
		d |= dForced
	case resSat:
		st.push(d^dTrue, m)
	case resUnknown:
		st.unit.noteIncomplete("solver answered unknown on a branch")
	}
	st.pos++
	st.decs = append(st.decs, d)
	if d&dForced == 0 {
		if b {
			st.addPC(c)
		} else {
			st.addPC(nc)
		}
	}
	return b
}

// choose forks n ways; the choice is a fresh symbolic variable constrained to 0..n-1.
func (st *State) choose(kind string, n int) int {
	if n <= 1 {
		return 0
	}
	if st.initDep > 0 {
		unsup("choice during package initialisation")
	}
	v := st.freshVar(kind, 8)
	st.branches++
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		st.decs = append(st.decs, d)
		st.addPC(st.tm.Eq(v, st.tm.Const(8, uint64(d))))
		return int(d)
	}
	for k := n - 1; k >= 1; k-- {
		m := make(Model, len(st.model)+1)
		for a, x := range st.model {
			m[a] = x
		}
		m[v] = uint64(k)
		st.push(uint16(k), m)
	}
	st.pos++
	st.decs = append(st.decs, 0)
	st.addPC(st.tm.Eq(v, st.tm.Const(8, 0)))
	return 0
}

func (st *State) freshVar(label string, w uint8) *Term {
	n := st.nvar[label]
	st.nvar[label] = n + 1
	name := fmt.Sprintf("%s#%d:%d", strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, label), n, w)
	return st.tm.Var(name, w)
}

// assume restricts the path; it ends silently when no input satisfies the condition.
func (st *State) assume(v Value) {
	c, ok := v.(*Term)
	if !ok {
		if b, ok := v.(bool); ok {
			if !b {
				panic(pathEnd{"assume"})
			}
			return
		}
		checkPoison(v)
	}
	if c.isTrue() || st.pcSet[c] {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if st.model.eval(c) != 1 {
		r, m := st.feasible(c)
		switch r {
		case resUnsat:
			panic(pathEnd{"assume"})
		case resUnknown:
			st.unit.noteIncomplete("solver answered unknown on an assumption")
			panic(pathEnd{"unknown"})
		}
		st.model = m
	}
	st.addPC(c)
}

// concretize turns a symbolic integer into a concrete one, forking over its feasible values.
func (st *State) concretize(v Value) C {
	for i := 0; ; i++ {
		t, ok := v.(*Term)
		if !ok {
			if c, ok := v.(C); ok {
				return c
			}
			checkPoison(v)
			panic(fmt.Sprintf("concretize %T", v))
		}
		if t.isConst() {
			return C(t.k)
		}
		if i > 300 {
			st.unit.noteIncomplete("more than 300 values for a concretised integer")
			panic(pathEnd{"bound"})
		}
		var k uint64
		// the candidate must be the same when the prefix is replayed: take the smallest one compatible with known facts
		if st.pos < len(st.prefix) {
			// value recorded in two decisions: low/high halves
			k = st.replayVal()
		} else {
			k = st.model.eval(t)
			st.recordVal(k)
		}
		if st.decide(st.val(st.tm.Eq(t, st.tm.Const(t.w, k)))) {
			return C(k)
		}
	}
}

func (st *State) recordVal(k uint64) {
	for i := 0; i < 4; i++ {
		st.decs = append(st.decs, uint16(k>>(16*i)))
		st.pos++
	}
}

func (st *State) replayVal() uint64 {
	var k uint64
	for i := 0; i < 4; i++ {
		d := st.prefix[st.pos]
		st.pos++
		st.decs = append(st.decs, d)
		k |= uint64(d) << (16 * i)
	}
	return k
}

// Violation is a failed assertion with the inputs that fail it.
type Violation struct {
	Unit       string
	Entry      string
	Msg        string
	Where      string
	Known      string // id of the known finding when it only fails inside one
	Inputs     []InputVal
	Sched      []string
	Replay     string
	Native     string // outcome of the native replay
	Confirm    bool
	concurrent bool
	noNative   bool
}

type InputVal struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Val   uint64 `json:"val"`
}

func (st *State) inputsUnder(m Model) []InputVal {
	var r []InputVal
	for _, n := range st.nondets {
		var x uint64
		switch v := n.Val.(type) {
		case C:
			x = uint64(v)
		case bool:
			if v {
				x = 1
			}
		case *Term:
			x = m.eval(v)
		}
		r = append(r, InputVal{n.Label, n.Kind, x})
	}
	return r
}

// assert discharges cond on the current path. known/pred: failures with pred true belong to the known finding.
func (st *State) assert(v Value, msg, known string, pred Value) {
	u := st.unit
	inPrefix := st.pos < len(st.prefix)
	c := st.term(v, 0)
	if !inPrefix {
		u.countAssert(msg)
	}
	if c.isTrue() {
		if !inPrefix {
			u.countFolded()
		}
		return
	}
	if inPrefix { // the path that forked this one examined it under the same path condition
		st.assume(st.val(c))
		return
	}
	nc := st.tm.Not(c)
	if known != "" {
		p := st.term(pred, 0)
		in := st.tm.And(nc, p)
		if r, m := st.assertQuery(in); r == resSat {
			u.report(st, m, msg, known)
		}
		nc = st.tm.And(nc, st.tm.Not(p))
	}
	if !nc.isFalse() {
		r, m := st.assertQuery(nc)
		switch r {
		case resSat:
			u.report(st, m, msg, "")
		case resUnknown:
			u.noteIncomplete("solver answered unknown on an assertion: " + msg)
		case resUnsat:
			u.countDischarged()
		}
	}
	// continue with the executions that satisfy it
	st.assume(st.val(c))
}

// assertQuery always goes to the SMT solver unless the formula is constant.
func (st *State) assertQuery(c *Term) (result, Model) {
	if c.isFalse() {
		return resUnsat, nil
	}
	cs := append(st.slice(c), c)
	hits := st.sol.stats.CacheHits
	r, m := st.sol.check(cs, true)
	if st.xsol != nil && st.sol.stats.CacheHits == hits {
		r2, _ := st.xsol.check(cs, true)
		if r2 != resUnknown && r != resUnknown {
			if r2 == r {
				st.sol.stats.CrossOK++
			} else {
				st.sol.stats.CrossBad++
			}
		}
	}
	if r != resSat {
		return r, nil
	}
	nm := make(Model, len(st.model)+len(m))
	for k, x := range st.model {
		nm[k] = x
	}
	for k, x := range m {
		nm[k] = x
	}
	return resSat, nm
}

func (st *State) resetPath(t *Task) {
	st.prefix = t.prefix
	st.pos = 0
	st.decs = st.decs[:0]
	st.model = Model{}
	for k, v := range t.model {
		if t.wid != st.id {
			k = st.tm.Var(k.name, k.w)
		}
		st.model[k] = v
	}
	st.pc = st.pc[:0]
	st.pcSet = map[*Term]bool{}
	st.varCons = map[*Term][]int{}
	st.dom = map[*Term]*[4]uint64{}
	st.multi = map[*Term]bool{}
	st.nondets = nil
	st.nvar = map[string]int{}
	st.observes = nil
	st.steps = 0
	st.branches = 0
	st.reached = map[string]bool{}
	st.nondetMap = false
	st.mapOrders = st.unit.mapOrders
	st.incompl = ""
	st.gs = nil
	st.abort = nil
	st.abortPan = nil
	st.abortG = nil
	st.killing = false
	st.schedChoices = 0
	st.atomVC = map[*Value]*vclock{}
	st.preempt = 0
	st.preemptMax = st.unit.preemptBound
	st.maxSteps = st.unit.maxSteps
	st.nativeSkip = false
	st.now = C(1_000_000_000)
	st.timers = nil
	st.timerSeq = 0
	st.advances = 0
	st.hb = nil
	st.mutexes = map[*Value]*mutexState{}
	st.wgs = map[*Value]*wgState{}
	st.onces = map[*Value]*onceState{}
	st.side = map[any]any{}
	st.logging = true
}

// render gives a readable form of a value under a model.
func (st *State) render(v Value, t types.Type, m Model) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case C:
		if t != nil {
			if k, ok := intInfo(t); ok && k.signed {
				return fmt.Sprint(sx(uint64(x), k.w))
			}
		}
		return fmt.Sprint(uint64(x))
	case *Term:
		k := m.eval(x)
		if x.w == 0 {
			return fmt.Sprint(k == 1)
		}
		return st.render(C(k), t, m)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			switch y := e.(type) {
			case C:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(m.eval(y))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case float64:
		return fmt.Sprint(x)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return st.render(x.v, x.t, m)
	case Slice:
		var el types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				el = s.Elem()
			}
		}
		var ss []string
		for _, e := range x.v {
			ss = append(ss, st.render(e, el, m))
		}
		return "[" + strings.Join(ss, " ") + "]"
	}
	return fmt.Sprintf("<%T>", v)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
