package main

import (
	"fmt"
	"go/types"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// A small evaluator of text/template over interpreted values. Parsing is done by text/template/parse.

type tmplObj struct {
	name        string
	funcs       map[string]Iface
	trees       map[string]*parse.Tree
	left, right string
}

type tv struct {
	v Value
	t types.Type // nil: no value
}

type tmplErr struct{ msg string }

type tmplVar struct {
	name string
	v    tv
}

type tmplRun struct {
	st   *State
	fr   *frame
	o    *tmplObj
	out  *outBuf
	vars []tmplVar
}

var tmplBuiltins = []string{"and", "or", "not", "eq", "ne", "lt", "le", "gt", "ge", "len", "index", "slice", "print", "printf", "println", "html", "js", "urlquery", "call"}

func (o *tmplObj) parse(text string) (err error) {
	fm := map[string]any{}
	for _, b := range tmplBuiltins {
		fm[b] = fmt.Sprint
	}
	for k := range o.funcs {
		fm[k] = fmt.Sprint
	}
	trees, err := parse.Parse(o.name, text, "", "", fm)
	if err != nil {
		return err
	}
	if o.trees == nil {
		o.trees = map[string]*parse.Tree{}
	}
	for k, t := range trees {
		o.trees[k] = t
	}
	return nil
}

func (st *State) tmplExec(fr *frame, o *tmplObj, data Iface) (out Value, msg string, failed bool) {
	r := &tmplRun{st: st, fr: fr, o: o, out: &outBuf{}}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(tmplErr); ok {
				out, msg, failed = mkStr(r.out.b), e.msg, true
				return
			}
			panic(x)
		}
	}()
	t := o.trees[o.name]
	if t == nil || t.Root == nil {
		return "", fmt.Sprintf("template: %s: %q is an incomplete or empty template", o.name, o.name), true
	}
	dot := unwrap(tv{data, data.t})
	if data.t != nil {
		dot = unwrap(tv{data.v, data.t})
	}
	r.vars = []tmplVar{{"$", dot}}
	r.walk(dot, t.Root)
	return mkStr(r.out.b), "", false
}

func unwrap(x tv) tv {
	for {
		i, ok := x.v.(Iface)
		if !ok {
			return x
		}
		if i.t == nil {
			return tv{}
		}
		x = tv{i.v, i.t}
	}
}

func (r *tmplRun) errorf(n parse.Node, f string, a ...any) {
	panic(tmplErr{fmt.Sprintf("template: %s: ", r.o.name) + fmt.Sprintf(f, a...)})
}

func (r *tmplRun) walk(dot tv, n parse.Node) {
	switch x := n.(type) {
	case *parse.ListNode:
		if x == nil {
			return
		}
		for _, c := range x.Nodes {
			r.walk(dot, c)
		}
	case *parse.TextNode:
		r.out.str(string(x.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := r.pipeline(dot, x.Pipe)
		if len(x.Pipe.Decl) == 0 {
			r.print(v)
		}
	case *parse.IfNode:
		r.ifOrWith(dot, x.Pipe, x.List, x.ElseList, false)
	case *parse.WithNode:
		r.ifOrWith(dot, x.Pipe, x.List, x.ElseList, true)
	case *parse.RangeNode:
		r.rangeN(dot, x)
	case *parse.TemplateNode:
		t := r.o.trees[x.Name]
		if t == nil {
			r.errorf(n, "template %q not defined", x.Name)
		}
		d := tv{}
		if x.Pipe != nil {
			d = r.pipeline(dot, x.Pipe)
		}
		nr := &tmplRun{st: r.st, fr: r.fr, o: r.o, out: r.out, vars: []tmplVar{{"$", d}}}
		nr.walk(d, t.Root)
	default:
		unsup("template node %T", n)
	}
}

func (r *tmplRun) ifOrWith(dot tv, p *parse.PipeNode, list, els *parse.ListNode, with bool) {
	mark := len(r.vars)
	defer func() { r.vars = r.vars[:mark] }()
	v := r.pipeline(dot, p)
	if r.truth(v) {
		if with {
			r.walk(v, list)
		} else {
			r.walk(dot, list)
		}
	} else if els != nil {
		r.walk(dot, els)
	}
}

func (r *tmplRun) truth(x tv) bool {
	x = unwrap(x)
	if x.t == nil {
		return false
	}
	switch v := x.v.(type) {
	case bool:
		return v
	case *Term:
		if v.w == 0 {
			return r.st.decide(v)
		}
		return !r.st.decide(r.st.val(r.st.tm.Eq(v, r.st.tm.Const(v.w, 0))))
	case C:
		return v != 0
	case float64:
		return v != 0
	case string, *SymStr:
		return strLen(v) > 0
	case Slice:
		return len(v.v) > 0
	case *MapV:
		return v != nil && v.live > 0
	case *Value:
		return v != nil
	case *Closure:
		return v != nil
	case *ChanV:
		return v != nil
	case Array:
		return len(v) > 0
	case Struct:
		return true
	case *NativeObj:
		return v != nil
	}
	checkPoison(x.v)
	return x.v != nil
}

type tmplBreak struct{ cont bool }

func (r *tmplRun) rangeN(dot tv, x *parse.RangeNode) {
	mark := len(r.vars)
	defer func() { r.vars = r.vars[:mark] }()
	v := unwrap(r.pipeline(dot, x.Pipe))
	inner := len(r.vars)
	one := func(k, e tv) {
		if len(x.Pipe.Decl) > 0 {
			if len(x.Pipe.Decl) > 1 {
				r.setTop(2, k)
				r.setTop(1, e)
			} else {
				r.setTop(1, e)
			}
		}
		r.walk(e, x.List)
		r.vars = r.vars[:inner]
	}
	n := 0
	if v.t != nil {
		switch c := v.v.(type) {
		case Slice:
			el := v.t.Underlying().(*types.Slice).Elem()
			for i, e := range c.v {
				one(tv{C(uint64(i)), types.Typ[types.Int]}, tv{copyVal(e), el})
				n++
			}
		case Array:
			el := v.t.Underlying().(*types.Array).Elem()
			for i, e := range c {
				one(tv{C(uint64(i)), types.Typ[types.Int]}, tv{copyVal(e), el})
				n++
			}
		case *MapV:
			if c != nil {
				m := v.t.Underlying().(*types.Map)
				for _, e := range r.st.sortedEnts(r.fr, c, m.Key()) {
					one(tv{e.k, m.Key()}, tv{copyVal(e.v), m.Elem()})
					n++
				}
			}
		default:
			r.errorf(x, "range can't iterate over %s", v.t)
		}
	}
	if n == 0 && x.ElseList != nil {
		r.walk(dot, x.ElseList)
	}
}

func (r *tmplRun) setTop(n int, v tv) { r.vars[len(r.vars)-n].v = v }

func (r *tmplRun) pipeline(dot tv, p *parse.PipeNode) tv {
	var v tv
	has := false
	for _, c := range p.Cmds {
		if has {
			v = r.command(dot, c, &v)
		} else {
			v = r.command(dot, c, nil)
		}
		has = true
		v = unwrap(v)
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(r.vars) - 1; i >= 0; i-- {
				if r.vars[i].name == d.Ident[0] {
					r.vars[i].v = v
					break
				}
			}
		} else {
			r.vars = append(r.vars, tmplVar{d.Ident[0], v})
		}
	}
	return v
}

func (r *tmplRun) lookupVar(name string) tv {
	for i := len(r.vars) - 1; i >= 0; i-- {
		if r.vars[i].name == name {
			return r.vars[i].v
		}
	}
	r.errorf(nil, "undefined variable: %s", name)
	return tv{}
}

func (r *tmplRun) command(dot tv, c *parse.CommandNode, final *tv) tv {
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		return r.chain(dot, dot, n.Ident, c.Args, final)
	case *parse.ChainNode:
		recv := r.arg(dot, n.Node)
		return r.chain(dot, recv, n.Field, c.Args, final)
	case *parse.VariableNode:
		v := r.lookupVar(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return r.chain(dot, v, n.Ident[1:], c.Args, final)
	case *parse.IdentifierNode:
		return r.function(dot, n.Ident, c.Args, final)
	case *parse.PipeNode:
		return r.pipeline(dot, n)
	}
	return r.arg(dot, first)
}

func (r *tmplRun) arg(dot tv, n parse.Node) tv {
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return tv{}
	case *parse.FieldNode:
		return r.chain(dot, dot, x.Ident, nil, nil)
	case *parse.VariableNode:
		v := r.lookupVar(x.Ident[0])
		if len(x.Ident) == 1 {
			return v
		}
		return r.chain(dot, v, x.Ident[1:], nil, nil)
	case *parse.PipeNode:
		return r.pipeline(dot, x)
	case *parse.IdentifierNode:
		return r.function(dot, x.Ident, nil, nil)
	case *parse.ChainNode:
		return r.chain(dot, r.arg(dot, x.Node), x.Field, nil, nil)
	case *parse.BoolNode:
		return tv{x.True, types.Typ[types.Bool]}
	case *parse.StringNode:
		return tv{x.Text, types.Typ[types.String]}
	case *parse.NumberNode:
		if x.IsInt {
			return tv{C(uint64(x.Int64)), types.Typ[types.Int]}
		}
		return tv{x.Float64, types.Typ[types.Float64]}
	}
	unsup("template argument %T", n)
	return tv{}
}

func (r *tmplRun) chain(dot, recv tv, ids []string, args []parse.Node, final *tv) tv {
	for i, id := range ids {
		var a []parse.Node
		var f *tv
		if i == len(ids)-1 {
			a, f = args, final
		}
		recv = r.field(dot, recv, id, a, f)
	}
	return recv
}

func (r *tmplRun) field(dot, recv tv, name string, args []parse.Node, final *tv) tv {
	recv = unwrap(recv)
	if recv.t == nil {
		r.errorf(nil, "nil data; no entry for key %q", name)
	}
	if f := r.st.eng.findMethod(recv.t, nil, name); f != nil {
		return r.callSSA(dot, f, recv, name, args, final)
	}
	if _, isPtr := recv.t.Underlying().(*types.Pointer); !isPtr {
		// values reached through addressable storage also have pointer methods; not needed for value receivers
		if f := r.st.eng.findMethod(types.NewPointer(recv.t), nil, name); f != nil {
			unsup("template call of pointer method %s", name)
		}
	}
	if len(args) > 1 || final != nil {
		r.errorf(nil, "%s has arguments but cannot be invoked as function", name)
	}
	t := recv.t
	v := recv.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pv, _ := v.(*Value)
		if pv == nil {
			r.errorf(nil, "nil pointer evaluating %s.%s", t, name)
		}
		t = p.Elem()
		v = r.st.load(pv)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return tv{v.(Struct)[i], u.Field(i).Type()}
			}
		}
		// promoted fields
		obj, path, _ := types.LookupFieldOrMethod(t, true, nil, name)
		if fv, ok := obj.(*types.Var); ok {
			for _, ix := range path {
				if pv, ok := v.(*Value); ok {
					v = r.st.load(pv)
				}
				v = v.(Struct)[ix]
			}
			return tv{v, fv.Type()}
		}
	case *types.Map:
		m := v.(*MapV)
		if m != nil {
			k := Value(name)
			if _, isI := u.Key().Underlying().(*types.Interface); isI {
				k = Iface{types.Typ[types.String], name}
			}
			if e := r.st.mapFind(r.fr, m, k); e != nil {
				return tv{copyVal(e.v), u.Elem()}
			}
		}
		if _, isI := u.Elem().Underlying().(*types.Interface); isI {
			return tv{}
		}
		return tv{zero(u.Elem()), u.Elem()}
	}
	r.errorf(nil, "can't evaluate field %s in type %s", name, recv.t)
	return tv{}
}

func (r *tmplRun) gather(dot tv, args []parse.Node, final *tv) []tv {
	var as []tv
	if len(args) > 1 {
		for _, a := range args[1:] {
			as = append(as, unwrap(r.arg(dot, a)))
		}
	}
	if final != nil {
		as = append(as, unwrap(*final))
	}
	return as
}

func (r *tmplRun) callSSA(dot tv, f *ssa.Function, recv tv, name string, args []parse.Node, final *tv) tv {
	as := r.gather(dot, args, final)
	sig := f.Signature
	ps := sig
	return r.invoke(r.st.eng.closure(f), ps, []Value{recv.v}, as, name)
}

// invoke converts the arguments to the parameter types and calls the function.
func (r *tmplRun) invoke(fn Value, sig *types.Signature, pre []Value, as []tv, name string) tv {
	np := sig.Params().Len()
	vals := append([]Value(nil), pre...)
	conv := func(a tv, t types.Type) Value {
		if _, isI := t.Underlying().(*types.Interface); isI {
			if a.t == nil {
				return Iface{}
			}
			return Iface{a.t, a.v}
		}
		if a.t == nil {
			r.errorf(nil, "invalid value; expected %s", t)
		}
		if types.AssignableTo(a.t, t) {
			return a.v
		}
		if p, ok := a.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
			return r.st.load(a.v.(*Value))
		}
		if _, ok := intInfo(a.t); ok {
			if _, ok := intInfo(t); ok {
				return r.st.convert(r.fr, a.t, t, a.v)
			}
		}
		r.errorf(nil, "wrong type for value; expected %s; got %s", t, a.t)
		return nil
	}
	if sig.Variadic() {
		if len(as) < np-1 {
			r.errorf(nil, "wrong number of args for %s", name)
		}
		for i := 0; i < np-1; i++ {
			vals = append(vals, conv(as[i], sig.Params().At(i).Type()))
		}
		el := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		var rest []Value
		for _, a := range as[np-1:] {
			rest = append(rest, conv(a, el))
		}
		vals = append(vals, Slice{rest})
	} else {
		if len(as) != np {
			r.errorf(nil, "wrong number of args for %s: want %d got %d", name, np, len(as))
		}
		for i, a := range as {
			vals = append(vals, conv(a, sig.Params().At(i).Type()))
		}
	}
	res := r.safeCall(fn, vals, name)
	switch sig.Results().Len() {
	case 1:
		return tv{res, sig.Results().At(0).Type()}
	case 2:
		t := res.(Tuple)
		if e := t[1].(Iface); e.t != nil {
			msg := "an error"
			if c, ok := r.st.sprint(r.fr, []Value{e}, false).(string); ok {
				msg = c
			}
			r.errorf(nil, "error calling %s: %s", name, msg)
		}
		return tv{t[0], sig.Results().At(0).Type()}
	}
	r.errorf(nil, "can't call method/function %q with %d results", name, sig.Results().Len())
	return tv{}
}

func (r *tmplRun) safeCall(fn Value, vals []Value, name string) (res Value) {
	top := r.st.cur.top
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(targetPanic); ok {
				r.st.cur.top = top
				panic(tmplErr{"error calling " + name + ": panic"})
			}
			panic(x)
		}
	}()
	return r.st.call(r.fr, fn, vals, nil)
}

func (r *tmplRun) function(dot tv, name string, args []parse.Node, final *tv) tv {
	st := r.st
	if f, ok := r.o.funcs[name]; ok {
		as := r.gather(dot, args, final)
		return r.invoke(f.v, f.t.Underlying().(*types.Signature), nil, as, name)
	}
	if name == "and" || name == "or" {
		var v tv
		ns := args[1:]
		for i, a := range ns {
			v = unwrap(r.arg(dot, a))
			t := r.truth(v)
			if i < len(ns)-1 || final != nil {
				if t == (name == "or") {
					return v
				}
			}
		}
		if final != nil {
			v = *final
		}
		return v
	}
	as := r.gather(dot, args, final)
	b := types.Typ[types.Bool]
	str := types.Typ[types.String]
	ifs := func(xs []tv) []Value {
		var vs []Value
		for _, x := range xs {
			vs = append(vs, Iface{x.t, x.v})
		}
		return vs
	}
	switch name {
	case "not":
		return tv{!r.truth(as[0]), b}
	case "eq", "ne":
		res := false
		for _, o := range as[1:] {
			if as[0].t == nil || o.t == nil {
				res = as[0].t == nil && o.t == nil
			} else if st.decide(st.equal(r.fr, as[0].t, as[0].v, o.v)) {
				res = true
			}
			if res {
				break
			}
		}
		return tv{res == (name == "eq"), b}
	case "len":
		switch v := as[0].v.(type) {
		case string, *SymStr:
			return tv{C(uint64(strLen(v))), types.Typ[types.Int]}
		case Slice:
			return tv{C(uint64(len(v.v))), types.Typ[types.Int]}
		case *MapV:
			if v == nil {
				return tv{C(0), types.Typ[types.Int]}
			}
			return tv{C(uint64(v.live)), types.Typ[types.Int]}
		}
		r.errorf(nil, "len of %s", as[0].t)
	case "lt", "le", "gt", "ge":
		if k, ok := intInfo(as[0].t); ok {
			x, y := sx(uint64(st.concretize(as[0].v)), k.w), sx(uint64(st.concretize(as[1].v)), k.w)
			switch name {
			case "lt":
				return tv{x < y, b}
			case "le":
				return tv{x <= y, b}
			case "gt":
				return tv{x > y, b}
			}
			return tv{x >= y, b}
		}
		unsup("template %s", name)
	case "index":
		switch v := as[0].v.(type) {
		case Slice:
			i := int(st.concretize(as[1].v))
			if i < 0 || i >= len(v.v) {
				r.errorf(nil, "index out of range")
			}
			return tv{v.v[i], as[0].t.Underlying().(*types.Slice).Elem()}
		case *MapV:
			m := as[0].t.Underlying().(*types.Map)
			if as[1].t == nil || !types.AssignableTo(as[1].t, m.Key()) {
				r.errorf(nil, "error calling index: value has type %v; should be %v", as[1].t, m.Key())
			}
			if v != nil {
				if e := st.mapFind(r.fr, v, as[1].v); e != nil {
					return tv{e.v, m.Elem()}
				}
			}
			return tv{zero(m.Elem()), m.Elem()}
		}
		unsup("template index")
	case "print":
		return tv{st.sprint(r.fr, ifs(as), false), str}
	case "println":
		return tv{st.sprint(r.fr, ifs(as), true), str}
	case "printf":
		return tv{st.sprintfV(r.fr, as[0].v, ifs(as[1:])), str}
	}
	unsup("template function %s", name)
	return tv{}
}

func (r *tmplRun) print(x tv) {
	x = unwrap(x)
	if x.t == nil {
		r.out.str("<no value>")
		return
	}
	if p, ok := x.t.Underlying().(*types.Pointer); ok {
		if r.st.eng.findMethod(x.t, nil, "String") == nil && r.st.eng.findMethod(x.t, nil, "Error") == nil {
			pv := x.v.(*Value)
			if pv == nil {
				r.out.str("<nil>")
				return
			}
			x = tv{r.st.load(pv), p.Elem()}
		}
	}
	r.st.fmtVal(r.fr, r.out, 'v', false, false, x.v, x.t, 0)
}
