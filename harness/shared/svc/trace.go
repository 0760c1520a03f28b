package svc

import (
	"context"

	"verif.local/zv/v"
)

// Span is what the tracing harnesses know about a recorded span.
type Span struct {
	ID      any
	Name    string
	Parent  any
	Ended   int
	IsError bool
	// Message is what was recorded of the error.
	Message string
	// Marks counts recorded error facts.
	Marks int
}

// Tracing adapts a tracing library.
type Tracing struct {
	// Spans lists the recorded spans.
	Spans func() []Span
	// Of is the span a context carries.
	Of func(ctx context.Context) any
	// Enter makes a context that carries a new span.
	Enter func(ctx context.Context) (context.Context, any)
	// Make builds a decorator; hook is the span decorator or nil.
	Make func(b Svc, instance string, hook func(span any, params, results map[string]interface{})) Svc
	// Hooks tells whether the library has span decorators.
	Hooks bool
	// Name tells whether the span is named after the method.
	Name func(name, instance, method string) bool
}

// Trace checks two calls through a tracing decorator.
func Trace(t Tracing) {
	b := &Base{}
	var hooked []any
	var hp, hr map[string]interface{}
	hookEnded := -1
	var hook func(span any, params, results map[string]interface{})
	if t.Hooks && v.Bool("hook") {
		hook = func(span any, params, results map[string]interface{}) {
			hooked = append(hooked, span)
			hp, hr = params, results
			for _, s := range t.Spans() {
				if s.ID == span {
					hookEnded = s.Ended
				}
			}
		}
	}
	inst := "inst" + v.Str("instance", 1)
	d := t.Make(b, inst, hook)
	ctx, cancel := Ctx()
	defer cancel()
	var parent any
	if v.Bool("parent") {
		ctx, parent = t.Enter(ctx)
	}
	pre := len(t.Spans())
	for k := 0; k < 2; k++ {
		m := "Ping"
		if k == 0 {
			m = v.OneOf("method", Methods...)
		}
		lb := []string{"a", "b"}[k]
		arg := Arg(lb, m, ctx)
		ret := Rets(lb+"ret", m)
		boom := k == 0 && v.Bool("panics")
		var inside any
		n0 := len(t.Spans())
		b.Hook = func(c Call) Ret {
			if HasCtx(m) {
				ss := t.Spans()
				v.Assert(len(ss) == n0+1, "one span is started before the implementation is called")
				inside = ss[len(ss)-1].ID
				v.Assert(ss[len(ss)-1].Ended == 0, "the span is open while the implementation runs")
				v.Assert(t.Of(c.Ctx) == inside, "the implementation's context carries the span")
			}
			if boom {
				panic("boom")
			}
			return ret
		}
		hooked, hookEnded = nil, -1
		var got Ret
		p, _ := v.Catch(func() { got = Invoke(d, arg) })
		v.Assert(p == boom, "the implementation's panic and only it reaches the caller")
		v.Assert(len(b.Calls) == k+1, "the implementation is called exactly once per call")
		if !p {
			SameRets(got, ret, "tracing")
		}
		ss := t.Spans()
		if !HasCtx(m) {
			v.Assert(len(ss) == n0 && len(hooked) == 0, "methods without a context are not traced")
			v.Reach("untraced")
			continue
		}
		v.Assert(len(ss) == n0+1, "a call makes exactly one span")
		s := ss[len(ss)-1]
		v.Assert(s.Ended == 1, "the span is ended exactly once")
		v.Assert(t.Name(s.Name, inst, m), "the span is named after the method")
		v.Assert(s.Parent == parent, "the span continues the caller's trace")
		if hook != nil {
			v.Assert(len(hooked) == 1 && hooked[0] == s.ID, "the span decorator gets the span, once")
			v.Assert(hookEnded == 0, "the span decorator runs before the span is ended")
			v.Assert(s.Marks == 0, "the span decorator replaces the default error report")
			checkMaps(m, arg, ret, hp, hr, boom, inside, t)
			v.Reach("hook")
			continue
		}
		failed := !boom && HasErr(m) && ret.Err != nil
		v.Assert(s.IsError == failed, "the span is marked as failed exactly when the call returns an error")
		if failed {
			v.Assert(v.Eq(s.Message, ret.Err.Error()), "the span tells the error")
			v.Reach("error")
		} else {
			v.Assert(s.Marks == 0, "nothing is reported on a successful call")
			v.Reach("ok")
		}
	}
	v.Assert(len(t.Spans())-pre <= 2, "a call makes exactly one span")
}

// has finds the value under one of the keys of the map.
func has(m map[string]interface{}, f func(x interface{}) bool) bool {
	for _, x := range m {
		if f(x) {
			return true
		}
	}
	return false
}

func checkMaps(m string, arg Call, ret Ret, ps, rs map[string]interface{}, boom bool, span any, t Tracing) {
	np := map[string]int{"Do": 3, "Ask": 2, "Ping": 1, "Fetch": 3}[m]
	nr := map[string]int{"Do": 3, "Ask": 2, "Ping": 1, "Fetch": 2}[m]
	v.Assert(len(ps) == np && len(rs) == nr, "the span decorator gets every parameter and every result")
	_, ok := ps["ctx"].(context.Context)
	v.Assert(ok, "the span decorator gets the context by its name")
	if HasErr(m) {
		e, there := rs["err"]
		v.Assert(there, "the span decorator gets the error by its name")
		if !boom {
			got, _ := e.(error)
			v.Assert(got == ret.Err, "the span decorator gets the error")
		}
	}
	switch m {
	case "Do":
		n, ok1 := ps["n"].(int)
		r, ok2 := ps["rest"].([]string)
		v.Assert(ok1 && ok2, "the span decorator gets the parameters by their names")
		v.Assert(v.And(n == arg.I, len(r) == len(arg.Rest)), "the span decorator gets the parameters' values")
		if !boom {
			s, ok3 := rs["out"].(string)
			c, ok4 := rs["count"].(int)
			v.Assert(ok3 && ok4, "the span decorator gets the results by their names")
			v.Assert(v.And(v.Eq(s, ret.S), c == ret.I), "the span decorator gets the results' values")
		}
	case "Ask":
		n, ok1 := ps["k"].(int)
		v.Assert(ok1, "the span decorator gets the parameters by their names")
		v.Assert(n == arg.I, "the span decorator gets the parameters' values")
		if !boom {
			v.Assert(has(rs, func(x interface{}) bool { _, ok := x.(bool); return ok }), "the span decorator gets the results")
		}
	}
}
