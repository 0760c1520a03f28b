package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errNew builds an error the way errors.New does.
func (st *State) errNew(fr *frame, msg Value) Value {
	return st.callFn(fr, st.eng.mustFunc("errors", "New"), []Value{msg}, nil)
}

// timeVal is a time.Time of the virtual clock: nanoseconds since the engine's epoch kept in ext.
func timeVal(ns Value) Value { return Struct{C(0), ns, (*Value)(nil)} }

func timeNS(v Value) Value {
	s, ok := v.(Struct)
	if !ok {
		checkPoison(v)
		panic("time value expected")
	}
	return s[1]
}

func (st *State) add64(a, b Value) Value {
	return st.intop(nil, tokADD, intKind{64, true}, a, b, nil)
}

func label(st *State, fr *frame, v Value) string { return st.concStr(fr, v) }

func (st *State) nondet(lb, kind string, v Value) Value {
	st.nondets = append(st.nondets, NondetRec{lb, kind, v})
	return v
}

func variadic(v Value) []Value {
	s, ok := v.(Slice)
	if !ok {
		checkPoison(v)
		return nil
	}
	r := make([]Value, len(s.v))
	copy(r, s.v)
	return r
}

func vIntr(m map[string]intrinsic) {
	v := func(name string, f intrinsic) { m[vPath+"."+name] = f }
	v("Symbolic", func(st *State, fr *frame, a []Value) Value { return true })
	v("Bool", func(st *State, fr *frame, a []Value) Value {
		lb := label(st, fr, a[0])
		return st.nondet(lb, "bool", st.freshVar(lb, 0))
	})
	v("I64", func(st *State, fr *frame, a []Value) Value {
		lb := label(st, fr, a[0])
		t := st.freshVar(lb, 64)
		st.nondet(lb, "i64", t)
		lo, hi := st.term(a[1], 64), st.term(a[2], 64)
		st.assume(st.val(st.tm.And(st.tm.Not(st.tm.Slt(t, lo)), st.tm.Not(st.tm.Slt(hi, t)))))
		return t
	})
	v("Byte", func(st *State, fr *frame, a []Value) Value {
		lb := label(st, fr, a[0])
		return st.nondet(lb, "byte", st.freshVar(lb, 8))
	})
	v("Choice", func(st *State, fr *frame, a []Value) Value {
		lb := label(st, fr, a[0])
		n := int(a[1].(C))
		if n <= 1 {
			return C(0)
		}
		k := st.choose(lb, n)
		st.nondet(lb, "choice", C(uint64(k)))
		return C(uint64(k))
	})
	v("Assume", func(st *State, fr *frame, a []Value) Value { st.assume(a[0]); return nil })
	v("Assert", func(st *State, fr *frame, a []Value) Value {
		st.assert(a[0], st.msgStr(fr, a[1]), "", nil)
		return nil
	})
	v("AssertKnown", func(st *State, fr *frame, a []Value) Value {
		st.assert(a[0], st.msgStr(fr, a[1]), st.msgStr(fr, a[2]), a[3])
		return nil
	})
	v("Reach", func(st *State, fr *frame, a []Value) Value { st.reached[st.msgStr(fr, a[0])] = true; return nil })
	v("Observe", func(st *State, fr *frame, a []Value) Value {
		st.observes = append(st.observes, obsRec{st.msgStr(fr, a[0]), snapshot(a[1])})
		return nil
	})
	v("Settle", func(st *State, fr *frame, a []Value) Value {
		g := st.cur
		if g.id != 0 {
			unsup("Settle outside the main goroutine")
		}
		if len(st.gs) < 2 {
			return nil
		}
		g.settle = true
		g.why = "settle"
		next := st.pick()
		if next != g {
			st.switchTo(next)
		}
		g.settle = false
		g.why = ""
		return nil
	})
	v("Goroutines", func(st *State, fr *frame, a []Value) Value {
		n := 0
		for _, g := range st.gs[1:] {
			if !g.done {
				n++
			}
		}
		return C(uint64(n))
	})
	v("NondetMaps", func(st *State, fr *frame, a []Value) Value { st.nondetMap = true; return nil })
	v("Sched", func(st *State, fr *frame, a []Value) Value { st.preemptMax = int(a[0].(C)); return nil })
	v("Thorough", func(st *State, fr *frame, a []Value) Value { return st.unit.tier == "thorough" })
	v("Steps", func(st *State, fr *frame, a []Value) Value { st.maxSteps = int(a[0].(C)); return nil })
	v("NativeSkip", func(st *State, fr *frame, a []Value) Value { st.nativeSkip = true; return nil })
	v("And", func(st *State, fr *frame, a []Value) Value {
		return st.val(st.tm.And(st.term(a[0], 0), st.term(a[1], 0)))
	})
	v("Or", func(st *State, fr *frame, a []Value) Value {
		return st.val(st.tm.Or(st.term(a[0], 0), st.term(a[1], 0)))
	})
	v("Implies", func(st *State, fr *frame, a []Value) Value {
		return st.val(st.tm.Or(st.tm.Not(st.term(a[0], 0)), st.term(a[1], 0)))
	})
	v("Eq", func(st *State, fr *frame, a []Value) Value { return st.equal(fr, types.Typ[types.String], a[0], a[1]) })
	// Contains reports, as one term, whether s has sub somewhere
	v("Contains", func(st *State, fr *frame, a []Value) Value {
		s, sub := strBytes(a[0]), strBytes(a[1])
		r := st.tm.tFalse
		for i := 0; i+len(sub) <= len(s); i++ {
			m := st.tm.tTrue
			for j := range sub {
				m = st.tm.And(m, st.tm.Eq(st.term(s[i+j], 8), st.term(sub[j], 8)))
				if m.isFalse() {
					break
				}
			}
			r = st.tm.Or(r, m)
		}
		return st.val(r)
	})
	// Conc forces a string to concrete bytes, forking over its values
	v("Conc", func(st *State, fr *frame, a []Value) Value { return st.concStr(fr, a[0]) })
}

// msgStr renders a message without forking: symbolic bytes show as '?'.
func (st *State) msgStr(fr *frame, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		if c, ok := b[i].(C); ok {
			r[i] = byte(c)
		} else {
			r[i] = '?'
		}
	}
	return string(r)
}

// snapshot copies a value so later mutation does not show in the observation.
func snapshot(v Value) Value {
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, snapshot(x.v)}
	case Slice:
		r := make([]Value, len(x.v))
		for i := range x.v {
			r[i] = snapshot(x.v[i])
		}
		return Slice{r}
	case Struct, Array:
		return copyVal(x)
	}
	return v
}

func (st *State) sig0(name string) string { return name }

// writeTo calls w.Write(p).
func (st *State) writeTo(fr *frame, w Value, data Value) Value {
	i := w.(Iface)
	if i.t == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := st.eng.findMethod(i.t, nil, "Write")
	if f == nil {
		unsup("no Write on %s", i.t)
	}
	b := strBytes(data)
	r := make([]Value, len(b))
	copy(r, b)
	return st.callFn(fr, f, []Value{i.v, Slice{r}}, nil)
}

func fmtIntr(m map[string]intrinsic) {
	m["fmt.Sprintf"] = func(st *State, fr *frame, a []Value) Value { return st.sprintfV(fr, a[0], variadic(a[1])) }
	m["fmt.Sprint"] = func(st *State, fr *frame, a []Value) Value { return st.sprint(fr, variadic(a[0]), false) }
	m["fmt.Sprintln"] = func(st *State, fr *frame, a []Value) Value { return st.sprint(fr, variadic(a[0]), true) }
	m["fmt.Fprintf"] = func(st *State, fr *frame, a []Value) Value {
		return st.writeTo(fr, a[0], st.sprintfV(fr, a[1], variadic(a[2])))
	}
	m["fmt.Fprint"] = func(st *State, fr *frame, a []Value) Value {
		return st.writeTo(fr, a[0], st.sprint(fr, variadic(a[1]), false))
	}
	m["fmt.Fprintln"] = func(st *State, fr *frame, a []Value) Value {
		return st.writeTo(fr, a[0], st.sprint(fr, variadic(a[1]), true))
	}
	app := func(st *State, b Value, s Value) Value {
		x := b.(Slice).v
		r := append(x[:len(x):len(x)], strBytes(s)...)
		return Slice{r}
	}
	m["fmt.Appendf"] = func(st *State, fr *frame, a []Value) Value {
		return app(st, a[0], st.sprintfV(fr, a[1], variadic(a[2])))
	}
	m["fmt.Append"] = func(st *State, fr *frame, a []Value) Value {
		return app(st, a[0], st.sprint(fr, variadic(a[1]), false))
	}
	m["fmt.Appendln"] = func(st *State, fr *frame, a []Value) Value { return app(st, a[0], st.sprint(fr, variadic(a[1]), true)) }
	nop := func(st *State, fr *frame, a []Value) Value { return Tuple{C(0), Iface{}} }
	m["fmt.Printf"] = nop
	m["fmt.Println"] = nop
	m["fmt.Print"] = nop
	m["fmt.Errorf"] = func(st *State, fr *frame, a []Value) Value {
		args := variadic(a[1])
		msg := st.sprintfV(fr, a[0], args)
		f, ok := a[0].(string)
		if !ok {
			return st.errNew(fr, msg)
		}
		var wrapped []Value
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && n < len(args) {
				wrapped = append(wrapped, args[n])
			}
			n++
		}
		switch len(wrapped) {
		case 0:
			return st.errNew(fr, msg)
		case 1:
			w := wrapped[0].(Iface)
			p := new(Value)
			*p = Struct{msg, w}
			return Iface{types.NewPointer(st.eng.namedType("fmt", "wrapError")), p}
		}
		p := new(Value)
		*p = Struct{msg, Slice{wrapped}}
		return Iface{types.NewPointer(st.eng.namedType("fmt", "wrapErrors")), p}
	}
}

func errorsIntr(m map[string]intrinsic) {
	m["errors.Is"] = func(st *State, fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil
		}
		return st.errIs(fr, e, t)
	}
	m["errors.As"] = func(st *State, fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if t.t == nil {
			st.rtPanic("errors: target cannot be nil")
		}
		p := asPtr(t.v)
		el := t.t.Underlying().(*types.Pointer).Elem()
		return st.errAs(fr, e, p, el)
	}
}

func (st *State) unwrapErr(fr *frame, e Iface) []Iface {
	f := st.eng.findMethod(e.t, nil, "Unwrap")
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	r := st.callFn(fr, f, []Value{e.v}, nil)
	if i, ok := r.(Iface); ok {
		if i.t == nil {
			return nil
		}
		return []Iface{i}
	}
	var out []Iface
	for _, x := range r.(Slice).v {
		if i := x.(Iface); i.t != nil {
			out = append(out, i)
		}
	}
	return out
}

func (st *State) errIs(fr *frame, e, t Iface) bool {
	if types.Comparable(t.t) && types.Identical(e.t, t.t) && st.decide(st.equal(fr, e.t, e.v, t.v)) {
		return true
	}
	if f := st.eng.findMethod(e.t, nil, "Is"); f != nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
		if st.decide(st.callFn(fr, f, []Value{e.v, t}, nil)) {
			return true
		}
	}
	for _, u := range st.unwrapErr(fr, e) {
		if st.errIs(fr, u, t) {
			return true
		}
	}
	return false
}

func (st *State) errAs(fr *frame, e Iface, p *Value, el types.Type) bool {
	if e.t == nil {
		return false
	}
	if it, ok := el.Underlying().(*types.Interface); ok {
		if st.eng.implements(e.t, it) {
			st.store(p, e)
			return true
		}
	} else if types.Identical(e.t, el) {
		st.store(p, copyVal(e.v))
		return true
	}
	for _, u := range st.unwrapErr(fr, e) {
		if st.errAs(fr, u, p, el) {
			return true
		}
	}
	return false
}

// ---- atomics ----

func (st *State) atomicOp(p *Value, f func(old Value) (Value, Value)) Value {
	if p == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	if st.initDep == 0 {
		st.schedPoint("atomic")
		if st.hb != nil {
			vc := st.atomVC[p]
			if vc == nil {
				vc = &vclock{}
				st.atomVC[p] = vc
			}
			st.acquire(*vc)
			st.release(vc)
		}
	}
	nv, res := f(*p)
	if nv != nil {
		st.storeRaw(p, nv)
	}
	return res
}

// fieldOf returns the address of the named field of the struct p points to.
func fieldOf(p *Value, i int) *Value {
	if p == nil {
		return nil
	}
	s, ok := (*p).(Struct)
	if !ok {
		checkPoison(*p)
	}
	return &s[i]
}

func atomicIntr(m map[string]intrinsic) {
	type acc func(p Value) *Value
	direct := func(v Value) *Value { return asPtr(v) }
	reg := func(load, store, add, swap, cas, and, or string, w uint8, ac acc) {
		k := intKind{w, true}
		if load != "" {
			m[load] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) { return nil, o })
			}
		}
		if store != "" {
			m[store] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) { return a[1], nil })
			}
		}
		if add != "" {
			m[add] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) {
					n := st.intop(fr, tokADD, k, o, a[1], nil)
					return n, n
				})
			}
		}
		if swap != "" {
			m[swap] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) { return a[1], o })
			}
		}
		if cas != "" {
			m[cas] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) {
					if st.decide(st.equal(fr, types.Typ[types.Int64], o, a[1])) {
						return a[2], true
					}
					return nil, false
				})
			}
		}
		if and != "" {
			m[and] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) { return st.intop(fr, tokAND, k, o, a[1], nil), o })
			}
			m[or] = func(st *State, fr *frame, a []Value) Value {
				return st.atomicOp(ac(a[0]), func(o Value) (Value, Value) { return st.intop(fr, tokOR, k, o, a[1], nil), o })
			}
		}
	}
	for n, w := range map[string]uint8{"Int32": 32, "Uint32": 32, "Int64": 64, "Uint64": 64, "Uintptr": 64} {
		p := "sync/atomic."
		reg(p+"Load"+n, p+"Store"+n, p+"Add"+n, p+"Swap"+n, p+"CompareAndSwap"+n, p+"And"+n, p+"Or"+n, w, direct)
		// struct types: the value is the last field
		q := "(*sync/atomic." + n + ")."
		last := func(v Value) *Value {
			p := asPtr(v)
			if p == nil {
				return nil
			}
			s := (*p).(Struct)
			return &s[len(s)-1]
		}
		reg(q+"Load", q+"Store", q+"Add", q+"Swap", q+"CompareAndSwap", q+"And", q+"Or", w, last)
		r := "internal/runtime/atomic."
		_ = r
	}
	bl := func(v Value) *Value {
		p := asPtr(v)
		if p == nil {
			return nil
		}
		s := (*p).(Struct)
		return &s[len(s)-1]
	}
	toB := func(st *State, v Value) Value {
		return st.not(st.equal(nil, types.Typ[types.Uint32], v, C(0)))
	}
	fromB := func(st *State, v Value) Value {
		if t, ok := v.(*Term); ok {
			return st.val(st.tm.Ite(t, st.tm.Const(32, 1), st.tm.Const(32, 0)))
		}
		if v.(bool) {
			return C(1)
		}
		return C(0)
	}
	m["(*sync/atomic.Bool).Load"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) { return nil, toB(st, o) })
	}
	m["(*sync/atomic.Bool).Store"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) { return fromB(st, a[1]), nil })
	}
	m["(*sync/atomic.Bool).Swap"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) { return fromB(st, a[1]), toB(st, o) })
	}
	m["(*sync/atomic.Bool).CompareAndSwap"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) {
			if st.decide(st.equal(fr, types.Typ[types.Bool], toB(st, o), a[1])) {
				return fromB(st, a[2]), true
			}
			return nil, false
		})
	}
	// pointers
	ptr := func(v Value) *Value { return bl(v) }
	norm := func(v Value) Value {
		if v == nil {
			return (*Value)(nil)
		}
		return v
	}
	for _, n := range []string{"(*sync/atomic.Pointer[T])."} {
		m[n+"Load"] = func(st *State, fr *frame, a []Value) Value {
			return st.atomicOp(ptr(a[0]), func(o Value) (Value, Value) { return nil, norm(o) })
		}
		m[n+"Store"] = func(st *State, fr *frame, a []Value) Value {
			return st.atomicOp(ptr(a[0]), func(o Value) (Value, Value) { return a[1], nil })
		}
		m[n+"Swap"] = func(st *State, fr *frame, a []Value) Value {
			return st.atomicOp(ptr(a[0]), func(o Value) (Value, Value) { return a[1], norm(o) })
		}
		m[n+"CompareAndSwap"] = func(st *State, fr *frame, a []Value) Value {
			return st.atomicOp(ptr(a[0]), func(o Value) (Value, Value) {
				if norm(o) == norm(a[1]) {
					return a[2], true
				}
				return nil, false
			})
		}
	}
	// atomic.Value{v any}
	m["(*sync/atomic.Value).Load"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) { return nil, o })
	}
	m["(*sync/atomic.Value).Store"] = func(st *State, fr *frame, a []Value) Value {
		if a[1].(Iface).t == nil {
			st.rtPanic("sync/atomic: store of nil value into Value")
		}
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) { return a[1], nil })
	}
	m["(*sync/atomic.Value).Swap"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) { return a[1], o })
	}
	m["(*sync/atomic.Value).CompareAndSwap"] = func(st *State, fr *frame, a []Value) Value {
		return st.atomicOp(bl(a[0]), func(o Value) (Value, Value) {
			if st.decide(st.equal(fr, types.NewInterfaceType(nil, nil), o, a[1])) {
				return a[2], true
			}
			return nil, false
		})
	}
}

// ---- sync ----

type poolState struct{ items []Value }
type condState struct{ waiters []*condW }
type condW struct{ woken bool }

func (st *State) wg(p Value) *wgState {
	a := asPtr(p)
	if a == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	w := st.wgs[a]
	if w == nil {
		w = &wgState{}
		st.wgs[a] = w
	}
	return w
}

func (st *State) wgAdd(w *wgState, d int64) {
	st.schedPoint("wg")
	w.n += d
	if d < 0 {
		st.release(&w.vc)
	}
	if w.n < 0 {
		st.rtPanic("sync: negative WaitGroup counter")
	}
}

func syncIntr(m map[string]intrinsic) {
	for _, t := range []string{"Mutex", "RWMutex"} {
		p := "(*sync." + t + ")."
		m[p+"Lock"] = func(st *State, fr *frame, a []Value) Value { st.lock(a[0]); return nil }
		m[p+"Unlock"] = func(st *State, fr *frame, a []Value) Value { st.unlock(a[0]); return nil }
		m[p+"TryLock"] = func(st *State, fr *frame, a []Value) Value { return st.tryLock(a[0]) }
	}
	m["(*internal/sync.Mutex).Lock"] = m["(*sync.Mutex).Lock"]
	m["(*internal/sync.Mutex).Unlock"] = m["(*sync.Mutex).Unlock"]
	m["(*internal/sync.Mutex).TryLock"] = m["(*sync.Mutex).TryLock"]
	m["(*sync.RWMutex).RLock"] = func(st *State, fr *frame, a []Value) Value { st.rlock(a[0]); return nil }
	m["(*sync.RWMutex).RUnlock"] = func(st *State, fr *frame, a []Value) Value { st.runlock(a[0]); return nil }
	m["(*sync.RWMutex).TryRLock"] = func(st *State, fr *frame, a []Value) Value {
		mu := st.mutex(a[0])
		if mu.locked || mu.wwait > 0 {
			return false
		}
		st.rlock(a[0])
		return true
	}
	m["(*sync.WaitGroup).Add"] = func(st *State, fr *frame, a []Value) Value {
		st.wgAdd(st.wg(a[0]), int64(st.concretize(a[1])))
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(st *State, fr *frame, a []Value) Value { st.wgAdd(st.wg(a[0]), -1); return nil }
	m["(*sync.WaitGroup).Wait"] = func(st *State, fr *frame, a []Value) Value {
		w := st.wg(a[0])
		st.schedPoint("wgwait")
		if w.n > 0 {
			st.block("WaitGroup.Wait", func() bool { return w.n == 0 })
		}
		st.acquire(w.vc)
		return nil
	}
	m["(*sync.WaitGroup).Go"] = func(st *State, fr *frame, a []Value) Value {
		w := st.wg(a[0])
		st.wgAdd(w, 1)
		f := a[1]
		st.spawn(fr, &Closure{native: func(st *State, fr *frame, _ []Value) Value {
			defer st.wgAdd(w, -1)
			return st.call(nil, f, nil, nil)
		}}, nil, nil)
		return nil
	}
	m["(*sync.Once).Do"] = func(st *State, fr *frame, a []Value) Value {
		p := asPtr(a[0])
		o := st.onces[p]
		if o == nil {
			o = &onceState{}
			st.onces[p] = o
		}
		if st.initDep > 0 {
			if !o.done {
				o.done = true
				return st.call(fr, a[1], nil, nil)
			}
			return nil
		}
		st.schedPoint("once")
		if o.running {
			st.block("Once.Do", func() bool { return !o.running })
		}
		if o.done {
			st.acquire(o.vc)
			return nil
		}
		o.running = true
		func() {
			defer func() {
				o.running, o.done = false, true
				if !st.killing {
					st.release(&o.vc)
				}
			}()
			st.call(fr, a[1], nil, nil)
		}()
		return nil
	}
	m["(*sync.Pool).Get"] = func(st *State, fr *frame, a []Value) Value {
		p := asPtr(a[0])
		ps, _ := st.side[p].(*poolState)
		st.schedPoint("pool")
		n := 0
		if ps != nil {
			n = len(ps.items)
		}
		if n > 0 && st.initDep == 0 {
			k := st.choose("pool", n+1)
			if k < n {
				st.schedChoices++
				it := ps.items[k]
				ps.items = append(append([]Value(nil), ps.items[:k]...), ps.items[k+1:]...)
				return it
			}
		}
		s := (*p).(Struct)
		f, _ := s[len(s)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return st.call(fr, f, nil, nil)
	}
	m["(*sync.Pool).Put"] = func(st *State, fr *frame, a []Value) Value {
		p := asPtr(a[0])
		if a[1].(Iface).t == nil {
			return nil
		}
		if fr != nil && fr.fn != nil {
			if pk := pkgOf(fr.fn); pk != nil && !st.eng.isSubject(pk.Path()) && !strings.HasPrefix(pk.Path(), "verif.local") {
				return nil // buffers recycled inside the standard library are not observable
			}
		}
		ps, _ := st.side[p].(*poolState)
		if ps == nil {
			ps = &poolState{}
			st.side[p] = ps
		}
		st.schedPoint("pool")
		ps.items = append(ps.items, a[1])
		return nil
	}
	m["sync.NewCond"] = func(st *State, fr *frame, a []Value) Value {
		t := st.eng.namedType("sync", "Cond")
		p := new(Value)
		*p = zero(t)
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "L" {
				(*p).(Struct)[i] = a[0]
			}
		}
		return p
	}
	cond := func(st *State, v Value) *condState {
		p := asPtr(v)
		c, _ := st.side[p].(*condState)
		if c == nil {
			c = &condState{}
			st.side[p] = c
		}
		return c
	}
	m["(*sync.Cond).Wait"] = func(st *State, fr *frame, a []Value) Value {
		p := asPtr(a[0])
		c := cond(st, a[0])
		u := st.eng.namedType("sync", "Cond").Underlying().(*types.Struct)
		var l Iface
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "L" {
				l = (*p).(Struct)[i].(Iface)
			}
		}
		w := &condW{}
		c.waiters = append(c.waiters, w)
		st.callFn(fr, st.eng.findMethod(l.t, nil, "Unlock"), []Value{l.v}, nil)
		st.block("Cond.Wait", func() bool { return w.woken })
		st.callFn(fr, st.eng.findMethod(l.t, nil, "Lock"), []Value{l.v}, nil)
		return nil
	}
	m["(*sync.Cond).Signal"] = func(st *State, fr *frame, a []Value) Value {
		c := cond(st, a[0])
		if len(c.waiters) > 0 {
			c.waiters[0].woken = true
			c.waiters = c.waiters[1:]
		}
		return nil
	}
	m["(*sync.Cond).Broadcast"] = func(st *State, fr *frame, a []Value) Value {
		c := cond(st, a[0])
		for _, w := range c.waiters {
			w.woken = true
		}
		c.waiters = nil
		return nil
	}
	// sync.Map as a plain map guarded by its own synchronisation
	m["sync.runtime_registerPoolCleanup"] = func(st *State, fr *frame, a []Value) Value { return nil }
	m["sync.throw"] = func(st *State, fr *frame, a []Value) Value { st.fatal(st.msgStr(fr, a[0])); return nil }
	m["sync.fatal"] = m["sync.throw"]
}

// ---- time ----

func (st *State) newTimerObj(tname string, c *ChanV) *Value {
	t := st.eng.namedType("time", tname)
	p := new(Value)
	*p = zero(t)
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "C":
			if c != nil {
				(*p).(Struct)[i] = c
			}
		case "initTimer", "initTicker":
			(*p).(Struct)[i] = true
		}
	}
	return p
}

func (st *State) timeChan() *ChanV {
	return &ChanV{cap: 1, et: st.eng.namedType("time", "Time")}
}

func timeIntr(m map[string]intrinsic) {
	m["time.Now"] = func(st *State, fr *frame, a []Value) Value {
		if st.initDep > 0 {
			return timeVal(C(1_000_000_000))
		}
		return timeVal(st.now)
	}
	cmp := func(f func(st *State, x, y *Term) *Term) intrinsic {
		return func(st *State, fr *frame, a []Value) Value {
			return st.val(f(st, st.term(timeNS(a[0]), 64), st.term(timeNS(a[1]), 64)))
		}
	}
	m["(time.Time).Before"] = cmp(func(st *State, x, y *Term) *Term { return st.tm.Slt(x, y) })
	m["(time.Time).After"] = cmp(func(st *State, x, y *Term) *Term { return st.tm.Slt(y, x) })
	m["(time.Time).Equal"] = cmp(func(st *State, x, y *Term) *Term { return st.tm.Eq(x, y) })
	m["(time.Time).Compare"] = cmp(func(st *State, x, y *Term) *Term {
		one, mone, z := st.tm.Const(64, 1), st.tm.Const(64, ^uint64(0)), st.tm.Const(64, 0)
		return st.tm.Ite(st.tm.Slt(x, y), mone, st.tm.Ite(st.tm.Eq(x, y), z, one))
	})
	m["(time.Time).Add"] = func(st *State, fr *frame, a []Value) Value { return timeVal(st.add64(timeNS(a[0]), a[1])) }
	sub := func(st *State, x, y Value) Value { return st.intop(nil, tokSUB, intKind{64, true}, x, y, nil) }
	m["(time.Time).Sub"] = func(st *State, fr *frame, a []Value) Value { return sub(st, timeNS(a[0]), timeNS(a[1])) }
	m["time.Since"] = func(st *State, fr *frame, a []Value) Value { return sub(st, st.now, timeNS(a[0])) }
	m["time.Until"] = func(st *State, fr *frame, a []Value) Value { return sub(st, timeNS(a[0]), st.now) }
	m["(time.Time).IsZero"] = func(st *State, fr *frame, a []Value) Value {
		return st.equal(fr, types.Typ[types.Int64], timeNS(a[0]), C(0))
	}
	m["(time.Time).UnixNano"] = func(st *State, fr *frame, a []Value) Value { return timeNS(a[0]) }
	div := func(n int64) intrinsic {
		return func(st *State, fr *frame, a []Value) Value {
			return st.intop(fr, tokQUO, intKind{64, true}, timeNS(a[0]), C(uint64(n)), nil)
		}
	}
	m["(time.Time).Unix"] = div(1e9)
	m["(time.Time).UnixMilli"] = div(1e6)
	m["(time.Time).UnixMicro"] = div(1e3)
	same := func(st *State, fr *frame, a []Value) Value { return a[0] }
	m["(time.Time).UTC"] = same
	m["(time.Time).Local"] = same
	m["(time.Time).Round"] = same
	m["(time.Time).Truncate"] = same
	m["(time.Time).Format"] = func(st *State, fr *frame, a []Value) Value { return "<time>" }
	m["(time.Time).String"] = func(st *State, fr *frame, a []Value) Value { return "<time>" }

	m["time.Sleep"] = func(st *State, fr *frame, a []Value) Value {
		if st.initDep > 0 {
			return nil
		}
		if d, ok := a[0].(C); ok && int64(d) <= 0 {
			return nil
		}
		g := st.cur
		g.timerWk = false
		st.addTimer(a[0], &timer{g: g})
		st.block("sleep", func() bool { return g.timerWk })
		g.timerWk = false
		return nil
	}
	m["time.NewTimer"] = func(st *State, fr *frame, a []Value) Value {
		c := st.timeChan()
		p := st.newTimerObj("Timer", c)
		t := st.addTimer(a[0], &timer{ch: c, obj: p})
		st.side[p] = t
		return p
	}
	m["time.After"] = func(st *State, fr *frame, a []Value) Value {
		c := st.timeChan()
		st.addTimer(a[0], &timer{ch: c})
		return c
	}
	m["time.AfterFunc"] = func(st *State, fr *frame, a []Value) Value {
		p := st.newTimerObj("Timer", nil)
		t := st.addTimer(a[0], &timer{fn: a[1], obj: p})
		st.side[p] = t
		return p
	}
	newTicker := func(st *State, d Value, what string) *Value {
		dt := st.term(d, 64)
		if !st.decide(st.val(st.tm.Slt(st.tm.Const(64, 0), dt))) {
			if what == "Tick" {
				return nil
			}
			panic(targetPanic{Iface{st.eng.rtErrType, "non-positive interval for NewTicker"}})
		}
		c := st.timeChan()
		p := st.newTimerObj("Ticker", c)
		t := st.addTimer(d, &timer{ch: c, obj: p, period: d})
		st.side[p] = t
		return p
	}
	m["time.NewTicker"] = func(st *State, fr *frame, a []Value) Value { return newTicker(st, a[0], "NewTicker") }
	m["time.Tick"] = func(st *State, fr *frame, a []Value) Value {
		p := newTicker(st, a[0], "Tick")
		if p == nil {
			return (*ChanV)(nil)
		}
		return st.side[p].(*timer).ch
	}
	get := func(st *State, v Value) *timer {
		p := asPtr(v)
		if p == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		t, _ := st.side[p].(*timer)
		if t == nil {
			panic(targetPanic{Iface{st.eng.rtErrType, "time: Stop called on uninitialized Timer"}})
		}
		return t
	}
	drain := func(st *State, t *timer) bool {
		had := t.live
		t.live = false
		if t.ch != nil && len(t.ch.buf) > 0 {
			st.logChan(t.ch)
			t.ch.buf = nil
			had = true
		}
		return had
	}
	stop := func(st *State, fr *frame, a []Value) Value { return drain(st, get(st, a[0])) }
	m["(*time.Timer).Stop"] = stop
	m["(*time.Ticker).Stop"] = func(st *State, fr *frame, a []Value) Value { drain(st, get(st, a[0])); return nil }
	m["(*time.Timer).Reset"] = func(st *State, fr *frame, a []Value) Value {
		t := get(st, a[0])
		had := drain(st, t)
		nt := *t
		// a dead entry may still be listed
		for i, x := range st.timers {
			if x == t {
				st.timers = append(append([]*timer(nil), st.timers[:i]...), st.timers[i+1:]...)
				break
			}
		}
		*t = nt
		st.addTimer(a[1], t)
		return had
	}
	m["(*time.Ticker).Reset"] = func(st *State, fr *frame, a []Value) Value {
		t := get(st, a[0])
		dt := st.term(a[1], 64)
		if !st.decide(st.val(st.tm.Slt(st.tm.Const(64, 0), dt))) {
			panic(targetPanic{Iface{st.eng.rtErrType, "non-positive interval for Ticker.Reset"}})
		}
		drain(st, t)
		for i, x := range st.timers {
			if x == t {
				st.timers = append(append([]*timer(nil), st.timers[:i]...), st.timers[i+1:]...)
				break
			}
		}
		t.period = a[1]
		st.addTimer(a[1], t)
		return nil
	}
	sec := func(unit float64) intrinsic {
		return func(st *State, fr *frame, a []Value) Value {
			if c, ok := a[0].(C); ok {
				return float64(int64(c)) / unit
			}
			// durations that depend on symbolic inputs become opaque once converted to floating point
			return float64(1)
		}
	}
	m["(time.Duration).Seconds"] = sec(1e9)
	m["(time.Duration).Minutes"] = sec(60e9)
	m["(time.Duration).Hours"] = sec(3600e9)
}

// ---- misc runtime ----

func miscIntr(m map[string]intrinsic) {
	nop := func(st *State, fr *frame, a []Value) Value { return nil }
	m["runtime.GC"] = nop
	typeOf := func(st *State, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		p := new(Value)
		*p = Struct{typeName(i.t), types.Comparable(i.t)}
		return Iface{types.NewPointer(st.eng.namedType(modelPath, "RType")), p}
	}
	m["internal/reflectlite.TypeOf"] = typeOf
	m["reflect.TypeOf"] = typeOf
	m["runtime.KeepAlive"] = nop
	m["runtime.SetFinalizer"] = nop
	m["runtime/debug.SetGCPercent"] = func(st *State, fr *frame, a []Value) Value { return C(100) }
	m["runtime.Gosched"] = func(st *State, fr *frame, a []Value) Value { st.schedPoint("gosched"); return nil }
	m["runtime.Callers"] = func(st *State, fr *frame, a []Value) Value { return C(0) }
	m["runtime.Caller"] = func(st *State, fr *frame, a []Value) Value { return Tuple{C(0), "", C(0), false} }
	m["runtime.NumGoroutine"] = func(st *State, fr *frame, a []Value) Value {
		n := 0
		for _, g := range st.gs {
			if !g.done {
				n++
			}
		}
		return C(uint64(n))
	}
	m["runtime.GOMAXPROCS"] = func(st *State, fr *frame, a []Value) Value { return C(4) }
	m["runtime.NumCPU"] = func(st *State, fr *frame, a []Value) Value { return C(4) }
	m["internal/race.Enable"] = nop
	m["internal/race.Disable"] = nop
	m["internal/race.Acquire"] = nop
	m["internal/race.Release"] = nop
	m["internal/race.ReleaseMerge"] = nop
	m["internal/race.Read"] = nop
	m["internal/race.Write"] = nop
	m["internal/testlog.Open"] = nop
	m["internal/testlog.Getenv"] = nop
	m["internal/testlog.Stat"] = nop
	m["internal/godebug.New"] = func(st *State, fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(st.eng.namedType("internal/godebug", "Setting"))
		return p
	}
	m["(*internal/godebug.Setting).Value"] = func(st *State, fr *frame, a []Value) Value { return "" }
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
	m["(*internal/godebug.Setting).Name"] = func(st *State, fr *frame, a []Value) Value { return "" }
	m["log.formatHeader"] = nop
	m["internal/runtime/maps.fatal"] = nop
	m["internal/abi.NoEscape"] = func(st *State, fr *frame, a []Value) Value { return a[0] }
	m["internal/abi.Escape"] = func(st *State, fr *frame, a []Value) Value { return a[0] }
	m["(*strings.Builder).copyCheck"] = nop
	m["(*strings.Builder).String"] = func(st *State, fr *frame, a []Value) Value {
		s := (*asPtr(a[0])).(Struct)
		for _, f := range s {
			if sl, ok := f.(Slice); ok {
				r := make([]Value, len(sl.v))
				copy(r, sl.v)
				return mkStr(r)
			}
		}
		return ""
	}
	id := func(st *State, fr *frame, a []Value) Value { return a[0] }
	m["strings.Clone"] = id
	m["internal/stringslite.Clone"] = id
	m["internal/bytealg.MakeNoZero"] = func(st *State, fr *frame, a []Value) Value {
		n := int(st.concretize(a[0]))
		if n > 1<<22 {
			unsup("very large buffer")
		}
		r := make([]Value, n)
		for i := range r {
			r[i] = C(0)
		}
		return Slice{r}
	}
	bytesOf := func(v Value) []Value {
		if s, ok := v.(Slice); ok {
			return s.v
		}
		return strBytes(v)
	}
	idxByte := func(st *State, fr *frame, a []Value) Value {
		for i, b := range bytesOf(a[0]) {
			if st.decide(st.equal(fr, types.Typ[types.Uint8], b, a[1])) {
				return C(uint64(i))
			}
		}
		return C(^uint64(0))
	}
	m["internal/bytealg.IndexByte"] = idxByte
	m["internal/bytealg.IndexByteString"] = idxByte
	m["strings.IndexByte"] = idxByte
	m["bytes.IndexByte"] = idxByte
	m["internal/stringslite.IndexByte"] = idxByte
	lastIdx := func(st *State, fr *frame, a []Value) Value {
		bs := bytesOf(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if st.decide(st.equal(fr, types.Typ[types.Uint8], bs[i], a[1])) {
				return C(uint64(i))
			}
		}
		return C(^uint64(0))
	}
	m["internal/bytealg.LastIndexByte"] = lastIdx
	m["internal/bytealg.LastIndexByteString"] = lastIdx
	count := func(st *State, fr *frame, a []Value) Value {
		n := 0
		for _, b := range bytesOf(a[0]) {
			if st.decide(st.equal(fr, types.Typ[types.Uint8], b, a[1])) {
				n++
			}
		}
		return C(uint64(n))
	}
	m["internal/bytealg.Count"] = count
	m["internal/bytealg.CountString"] = count
	eqB := func(st *State, fr *frame, a []Value) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(x) != len(y) {
			return false
		}
		return st.equal(fr, types.Typ[types.String], mkStr(append([]Value(nil), x...)), mkStr(append([]Value(nil), y...)))
	}
	m["internal/bytealg.Equal"] = eqB
	m["bytes.Equal"] = eqB
	cmp := func(st *State, fr *frame, a []Value) Value {
		x, y := mkStr(append([]Value(nil), bytesOf(a[0])...)), mkStr(append([]Value(nil), bytesOf(a[1])...))
		if st.decide(st.strLess(x, y)) {
			return C(^uint64(0))
		}
		if st.decide(st.strLess(y, x)) {
			return C(1)
		}
		return C(0)
	}
	m["internal/bytealg.Compare"] = cmp
	m["internal/bytealg.CompareString"] = cmp
	m["strings.Compare"] = cmp
	m["bytes.Compare"] = cmp
	m["cmp.Compare[string]"] = cmp
	index := func(st *State, fr *frame, a []Value) Value {
		s, sub := bytesOf(a[0]), bytesOf(a[1])
		for i := 0; i+len(sub) <= len(s); i++ {
			if st.decide(st.equal(fr, types.Typ[types.String], mkStr(append([]Value(nil), s[i:i+len(sub)]...)), mkStr(append([]Value(nil), sub...)))) {
				return C(uint64(i))
			}
		}
		return C(^uint64(0))
	}
	m["internal/bytealg.Index"] = index
	m["internal/bytealg.IndexString"] = index
	m["strings.Index"] = index
	m["bytes.Index"] = index
	m["internal/stringslite.Index"] = index
	m["sort.Slice"] = func(st *State, fr *frame, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			unsup("sort.Slice of %T", a[0].(Iface).v)
		}
		less := func(i, j int) bool {
			return st.decide(st.call(fr, a[1], []Value{C(uint64(i)), C(uint64(j))}, nil))
		}
		for i := 1; i < len(s.v); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				x, y := copyVal(s.v[j]), copyVal(s.v[j-1])
				st.store(&s.v[j], y)
				st.store(&s.v[j-1], x)
			}
		}
		return nil
	}
	m["sort.SliceStable"] = m["sort.Slice"]
	m["os.Getenv"] = func(st *State, fr *frame, a []Value) Value { return "" }
	// the standard streams are told apart by their identity only
	m["os.NewFile"] = func(st *State, fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(st.eng.pkgs["os"].Pkg.Scope().Lookup("File").Type())
		return p
	}
	m["os.LookupEnv"] = func(st *State, fr *frame, a []Value) Value { return Tuple{"", false} }
	m["math.Float64bits"] = func(st *State, fr *frame, a []Value) Value { return C(f64bits(a[0].(float64))) }
	m["math.Float64frombits"] = func(st *State, fr *frame, a []Value) Value {
		return f64frombits(uint64(st.concretize(a[0])))
	}
	m["unicode.IsLetter"] = nil
	delete(m, "unicode.IsLetter")
}

func tmplIntr(m map[string]intrinsic) {
	obj := func(v Value) *tmplObj {
		n, ok := v.(*NativeObj)
		if !ok {
			checkPoison(v)
			unsup("template receiver %T", v)
		}
		return n.x.(*tmplObj)
	}
	m["text/template.New"] = func(st *State, fr *frame, a []Value) Value {
		return &NativeObj{&tmplObj{name: st.concStr(fr, a[0]), funcs: map[string]Iface{}}}
	}
	m["(*text/template.Template).Funcs"] = func(st *State, fr *frame, a []Value) Value {
		o := obj(a[0])
		mv := a[1].(*MapV)
		if mv != nil {
			for _, e := range mv.ents {
				if !e.dead {
					o.funcs[st.concStr(fr, e.k)] = e.v.(Iface)
				}
			}
		}
		return a[0]
	}
	m["(*text/template.Template).Parse"] = func(st *State, fr *frame, a []Value) Value {
		o := obj(a[0])
		if err := o.parse(st.concStr(fr, a[1])); err != nil {
			return Tuple{(*Value)(nil), st.errNew(fr, err.Error())}
		}
		return Tuple{a[0], Iface{}}
	}
	exec := func(st *State, fr *frame, o *tmplObj, w Value, data Iface) Value {
		out, msg, failed := st.tmplExec(fr, o, data)
		if strLen(out) > 0 {
			r := st.writeTo(fr, w, out).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return e
			}
		}
		if failed {
			return st.errNew(fr, msg)
		}
		return Iface{}
	}
	m["(*text/template.Template).Execute"] = func(st *State, fr *frame, a []Value) Value {
		return exec(st, fr, obj(a[0]), a[1], a[2].(Iface))
	}
	m["(*text/template.Template).Lookup"] = func(st *State, fr *frame, a []Value) Value {
		o := *obj(a[0])
		o.name = st.concStr(fr, a[1])
		if o.trees[o.name] == nil {
			return (*Value)(nil)
		}
		return &NativeObj{&o}
	}
	m["(*text/template.Template).ExecuteTemplate"] = func(st *State, fr *frame, a []Value) Value {
		o := *obj(a[0])
		name := st.concStr(fr, a[2])
		if o.trees[name] == nil {
			return st.errNew(fr, fmt.Sprintf("template: no template %q associated with template %q", name, o.name))
		}
		o.name = name
		return exec(st, fr, &o, a[1], a[3].(Iface))
	}
	m["(*text/template.Template).Option"] = func(st *State, fr *frame, a []Value) Value {
		for _, x := range a[1].(Slice).v {
			if s := st.concStr(fr, x); s != "missingkey=default" && s != "missingkey=invalid" {
				unsup("template option %s", s)
			}
		}
		return a[0]
	}
	m["(*text/template.Template).Name"] = func(st *State, fr *frame, a []Value) Value { return obj(a[0]).name }
}

var intrinsics = map[string]intrinsic{}

// fastpaths run natively when every argument is concrete.
var fastpaths = map[string]func(a []Value) (Value, bool){}

func init() {
	for _, f := range []func(map[string]intrinsic){vIntr, fmtIntr, errorsIntr, atomicIntr, syncIntr, timeIntr, miscIntr, tmplIntr, jsonIntr, moreIntr} {
		f(intrinsics)
	}
	s1 := func(name string, f func(string) Value) {
		fastpaths[name] = func(a []Value) (Value, bool) {
			x, ok := a[0].(string)
			if !ok {
				return nil, false
			}
			return f(x), true
		}
	}
	s2 := func(name string, f func(x, y string) Value) {
		fastpaths[name] = func(a []Value) (Value, bool) {
			x, ok := a[0].(string)
			y, ok2 := a[1].(string)
			if !ok || !ok2 {
				return nil, false
			}
			return f(x, y), true
		}
	}
	ci := func(i int) Value { return C(uint64(int64(i))) }
	strs := func(ss []string) Value {
		r := make([]Value, len(ss))
		for i := range ss {
			r[i] = ss[i]
		}
		return Slice{r}
	}
	s2("strings.Contains", func(x, y string) Value { return strings.Contains(x, y) })
	s2("strings.HasPrefix", func(x, y string) Value { return strings.HasPrefix(x, y) })
	s2("strings.HasSuffix", func(x, y string) Value { return strings.HasSuffix(x, y) })
	s2("strings.LastIndex", func(x, y string) Value { return ci(strings.LastIndex(x, y)) })
	s2("strings.Count", func(x, y string) Value { return ci(strings.Count(x, y)) })
	s2("strings.Split", func(x, y string) Value { return strs(strings.Split(x, y)) })
	s2("strings.Trim", func(x, y string) Value { return strings.Trim(x, y) })
	s2("strings.TrimPrefix", func(x, y string) Value { return strings.TrimPrefix(x, y) })
	s2("strings.TrimSuffix", func(x, y string) Value { return strings.TrimSuffix(x, y) })
	s1("strings.TrimSpace", func(x string) Value { return strings.TrimSpace(x) })
	s1("strings.ToLower", func(x string) Value { return strings.ToLower(x) })
	s1("strings.ToUpper", func(x string) Value { return strings.ToUpper(x) })
	s1("strings.Fields", func(x string) Value { return strs(strings.Fields(x)) })
	fastpaths["strings.Join"] = func(a []Value) (Value, bool) {
		s, ok := a[0].(Slice)
		sep, ok2 := a[1].(string)
		if !ok || !ok2 {
			return nil, false
		}
		if len(s.v) == 0 {
			return "", true
		}
		r := s.v[0]
		if _, ok := r.(Poison); ok {
			return nil, false
		}
		for _, e := range s.v[1:] {
			if _, ok := e.(Poison); ok {
				return nil, false
			}
			r = strConcat(strConcat(r, sep), e)
		}
		return r, true
	}
	fastpaths["strings.Repeat"] = func(a []Value) (Value, bool) {
		n, ok := a[1].(C)
		if !ok || n > 10000 {
			return nil, false
		}
		var r Value = ""
		for i := 0; i < int(n); i++ {
			r = strConcat(r, a[0])
		}
		return r, true
	}
	fastpaths["strings.Replace"] = func(a []Value) (Value, bool) {
		x, ok := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		n, ok4 := a[3].(C)
		if !ok || !ok2 || !ok3 || !ok4 {
			return nil, false
		}
		return strings.Replace(x, y, z, int(int64(n))), true
	}
	fastpaths["strings.ReplaceAll"] = func(a []Value) (Value, bool) {
		x, ok := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		if !ok || !ok2 || !ok3 {
			return nil, false
		}
		return strings.ReplaceAll(x, y, z), true
	}
	_ = fmt.Sprint
	_ = (*ssa.Function)(nil)
}

// jsonIntr stores JSON values into Go values (see rt/netmodel).
func jsonIntr(m map[string]intrinsic) {
	m["verif.local/zv/netmodel.assign"] = func(st *State, fr *frame, a []Value) Value {
		dst, ok := a[0].(Iface)
		if !ok || dst.t == nil {
			return "json: Unmarshal(nil)"
		}
		pt, ok := dst.t.Underlying().(*types.Pointer)
		p, _ := dst.v.(*Value)
		if !ok || p == nil {
			return "json: Unmarshal(non-pointer or nil)"
		}
		msg := ""
		st.store(p, st.jsonAssign(fr, pt.Elem(), st.load(p), a[1].(Struct), &msg))
		return msg
	}
}

func (st *State) jsonAssign(fr *frame, t types.Type, old Value, n Struct, msg *string) Value {
	kind := byte(n[0].(C))
	bad := func() Value {
		if *msg == "" {
			*msg = "json: cannot unmarshal value into Go value of type " + t.String()
		}
		return old
	}
	if types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "UnmarshalJSON") != nil {
		unsup("json: UnmarshalJSON method")
	}
	u := t.Underlying()
	if kind == 'n' {
		switch u.(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Interface:
			return zero(t)
		}
		return old
	}
	switch u := u.(type) {
	case *types.Pointer:
		p := new(Value)
		*p = zero(u.Elem())
		*p = st.jsonAssign(fr, u.Elem(), *p, n, msg)
		return p
	case *types.Basic:
		switch {
		case isString(u) && kind == '"':
			return n[1]
		case isBool(u) && (kind == 't' || kind == 'f'):
			return kind == 't'
		}
		if _, ok := intInfo(u); ok && kind == '0' {
			i, err := strconv.ParseInt(st.concStr(fr, n[1]), 10, 64)
			if err != nil {
				return bad()
			}
			return C(uint64(i))
		}
		if isFloat(u) && kind == '0' {
			f, err := strconv.ParseFloat(st.concStr(fr, n[1]), 64)
			if err != nil {
				return bad()
			}
			return f
		}
		return bad()
	case *types.Slice:
		if kind != '[' {
			return bad()
		}
		r := []Value{}
		for _, k := range n[3].(Slice).v {
			r = append(r, st.jsonAssign(fr, u.Elem(), zero(u.Elem()), k.(Struct), msg))
		}
		return Slice{r}
	case *types.Struct:
		if kind != '{' {
			return bad()
		}
		r := copyVal(old).(Struct)
		keys := n[2].(Slice).v
		for i, k := range n[3].(Slice).v {
			name := st.concStr(fr, keys[i])
			best := -1
			for f := 0; f < u.NumFields(); f++ {
				fl := u.Field(f)
				if fl.Embedded() {
					unsup("json: embedded field")
				}
				fn := fl.Name()
				tag, _, _ := strings.Cut(reflect.StructTag(u.Tag(f)).Get("json"), ",")
				if !fl.Exported() || tag == "-" {
					continue
				}
				if tag != "" {
					fn = tag
				}
				if fn == name {
					best = f
					break
				}
				if best < 0 && strings.EqualFold(fn, name) {
					best = f
				}
			}
			if best >= 0 {
				r[best] = st.jsonAssign(fr, u.Field(best).Type(), r[best], k.(Struct), msg)
			}
		}
		return r
	}
	unsup("json: decoding into %s", t)
	return nil
}
