package main

import (
	"go/types"
)

// Library code that refactored programs may use and the interpreter does not execute.

type smapState struct {
	m  *MapV
	vc vclock
}

func moreIntr(m map[string]intrinsic) {
	m["maps.clone"] = func(st *State, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		src, _ := i.v.(*MapV)
		if src == nil {
			return i
		}
		dst := &MapV{kt: src.kt, vt: src.vt, idx: map[string]*mapEnt{}}
		for _, e := range src.ents {
			if !e.dead {
				st.mapSet(fr, dst, e.k, e.v)
			}
		}
		return Iface{i.t, dst}
	}

	// sync.Map
	empty := types.NewInterfaceType(nil, nil)
	smap := func(st *State, p Value) *smapState {
		a := asPtr(p)
		if a == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, _ := st.side[a].(*smapState)
		if s == nil {
			s = &smapState{m: &MapV{kt: empty, vt: empty, idx: map[string]*mapEnt{}}}
			st.side[a] = s
		}
		return s
	}
	type smapOp func(st *State, fr *frame, s *smapState, a []Value) Value
	op := func(name string, f smapOp) {
		m["(*sync.Map)."+name] = func(st *State, fr *frame, a []Value) Value {
			s := smap(st, a[0])
			if st.initDep > 0 {
				return f(st, fr, s, a)
			}
			st.schedPoint("sync.Map")
			st.acquire(s.vc)
			r := f(st, fr, s, a)
			st.release(&s.vc)
			return r
		}
	}
	get := func(st *State, fr *frame, s *smapState, k Value) (Value, bool) {
		if e := st.mapFind(fr, s.m, k); e != nil {
			return copyVal(e.v), true
		}
		return Iface{}, false
	}
	op("Load", func(st *State, fr *frame, s *smapState, a []Value) Value {
		v, ok := get(st, fr, s, a[1])
		return Tuple{v, ok}
	})
	op("Store", func(st *State, fr *frame, s *smapState, a []Value) Value {
		st.mapSet(fr, s.m, a[1], a[2])
		return nil
	})
	op("LoadOrStore", func(st *State, fr *frame, s *smapState, a []Value) Value {
		if v, ok := get(st, fr, s, a[1]); ok {
			return Tuple{v, true}
		}
		st.mapSet(fr, s.m, a[1], a[2])
		return Tuple{a[2], false}
	})
	op("LoadAndDelete", func(st *State, fr *frame, s *smapState, a []Value) Value {
		v, ok := get(st, fr, s, a[1])
		st.mapDelete(fr, s.m, a[1])
		return Tuple{v, ok}
	})
	op("Delete", func(st *State, fr *frame, s *smapState, a []Value) Value {
		st.mapDelete(fr, s.m, a[1])
		return nil
	})
	op("Swap", func(st *State, fr *frame, s *smapState, a []Value) Value {
		v, ok := get(st, fr, s, a[1])
		st.mapSet(fr, s.m, a[1], a[2])
		return Tuple{v, ok}
	})
	op("CompareAndSwap", func(st *State, fr *frame, s *smapState, a []Value) Value {
		v, ok := get(st, fr, s, a[1])
		if !ok || !st.decide(st.equal(fr, empty, v, a[2])) {
			return false
		}
		st.mapSet(fr, s.m, a[1], a[3])
		return true
	})
	op("Clear", func(st *State, fr *frame, s *smapState, a []Value) Value {
		s.m = &MapV{kt: empty, vt: empty, idx: map[string]*mapEnt{}}
		return nil
	})
	m["(*sync.Map).Range"] = func(st *State, fr *frame, a []Value) Value {
		s := smap(st, a[0])
		if st.initDep == 0 {
			st.schedPoint("sync.Map")
			st.acquire(s.vc)
		}
		for _, e := range append([]*mapEnt{}, s.m.ents...) {
			if e.dead {
				continue
			}
			if !st.decide(st.call(fr, a[1], []Value{e.k, e.v}, nil)) {
				break
			}
		}
		return nil
	}

	m["reflect.DeepEqual"] = func(st *State, fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return st.deepEqual(fr, x.t, x.v, y.v, 0)
	}
}

func (st *State) deepEqual(fr *frame, t types.Type, x, y Value, depth int) bool {
	if depth > 60 {
		unsup("reflect.DeepEqual of a deep value")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		p, q := x.(Slice), y.(Slice)
		if (p.v == nil) != (q.v == nil) || len(p.v) != len(q.v) {
			return false
		}
		for i := range p.v {
			if !st.deepEqual(fr, u.Elem(), p.v[i], q.v[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		p, q := x.(Array), y.(Array)
		for i := range p {
			if !st.deepEqual(fr, u.Elem(), p[i], q[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		p, q := x.(Struct), y.(Struct)
		for i := range p {
			if !st.deepEqual(fr, u.Field(i).Type(), p[i], q[i], depth+1) {
				return false
			}
		}
		return true
	case *types.Pointer:
		p, ok1 := x.(*Value)
		q, ok2 := y.(*Value)
		if !ok1 || !ok2 || p == nil || q == nil || p == q {
			return st.decide(st.equal(fr, t, x, y))
		}
		return st.deepEqual(fr, u.Elem(), *p, *q, depth+1)
	case *types.Map:
		p, _ := x.(*MapV)
		q, _ := y.(*MapV)
		if p == nil || q == nil {
			return p == nil && q == nil
		}
		if p.live != q.live {
			return false
		}
		for _, e := range p.ents {
			if e.dead {
				continue
			}
			f := st.mapFind(fr, q, e.k)
			if f == nil || !st.deepEqual(fr, u.Elem(), e.v, f.v, depth+1) {
				return false
			}
		}
		return true
	case *types.Interface:
		p, q := x.(Iface), y.(Iface)
		if p.t == nil || q.t == nil {
			return p.t == nil && q.t == nil
		}
		return types.Identical(p.t, q.t) && st.deepEqual(fr, p.t, p.v, q.v, depth+1)
	case *types.Signature:
		p, _ := x.(*Closure)
		q, _ := y.(*Closure)
		return p == nil && q == nil
	}
	return st.decide(st.equal(fr, t, x, y))
}
