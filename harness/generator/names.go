package generator

import (
	"go/token"
	"strings"

	"verif.local/zv/v"
)

var namedTypes = []string{"string", "error", "context.Context", "*T", "[]string", "func()", "chan int", "T"}

// group makes a parameter or result list and says what its parts are called and typed.
func group(label string, max int, named bool) (src string, names, types []string) {
	n := v.Choice(label+".n", max+1)
	named = named && n > 0 && v.Bool(label+".named")
	var parts []string
	for i := 0; i < n; i++ {
		l := label + string(rune('0'+i))
		t := "string"
		special := "context.Context"
		if label == "r" {
			special = "error"
		}
		// the first and the last place decide about contexts and errors, the others only about names
		edge := i == 0 || i == n-1
		switch {
		case edge && named:
			t = v.OneOf(l+".t", "string", special)
		case edge:
			t = v.OneOf(l+".t", namedTypes...)
		}
		if label == "p" && i == n-1 && !named && v.Bool(l+".variadic") {
			t = "..." + t
		}
		name := ""
		part := t
		if named {
			if i < 2 && v.Bool(l+".any") {
				name = ident(l, 2)
			} else {
				name = v.OneOf(l+".w", "err", "ctx", "_", "s1")
			}
			part = name + " " + t
		}
		parts = append(parts, part)
		names = append(names, name)
		types = append(types, t)
	}
	return strings.Join(parts, ", "), names, types
}

// typeText drops the empty result list of function types.
func typeText(s string) string { return strings.TrimSuffix(s, " ()") }

func validName(s string) bool {
	ok := v.And(len(s) > 0, !v.Eq(s, "_"))
	for i := 0; i < len(s); i++ {
		if i == 0 {
			ok = v.And(ok, v.In(s[i], "azAZ__"))
		} else {
			ok = v.And(ok, v.In(s[i], "azAZ09__"))
		}
	}
	for t := token.BREAK; t <= token.VAR; t++ {
		ok = v.And(ok, !v.Eq(s, t.String()))
	}
	return ok
}

// Any signature with named parts: the names given to templates are usable, unique and, where possible, the declared ones.
//
//verif:opt paths=600000
//verif:reach err,ctx,kept
func Verif_C14_named() {
	ps, pn, pt := group("p", v.Bound(2, 3), true)
	rs, rn, rt := group("r", v.Bound(1, 2), true)
	checkNames(ps, pn, pt, rs, rn, rt)
}

// Any signature without names.
//
//verif:opt paths=600000
//verif:reach err,ctx
func Verif_C14_unnamed() {
	ps, pn, pt := group("p", v.Bound(2, 3), false)
	rs, rn, rt := group("r", v.Bound(2, 3), false)
	checkNames(ps, pn, pt, rs, rn, rt)
}

func checkNames(ps string, pn, pt []string, rs string, rn, rt []string) {
	// Go wants the declared names to differ
	declared := append(append([]string{}, pn...), rn...)
	for i := range declared {
		for j := i + 1; j < len(declared); j++ {
			v.Assume(v.Or(!v.Eq(declared[i], declared[j]), v.Or(declared[i] == "", declared[i] == "_")))
		}
	}
	m, _, err := one("package src\nimport (\n\"context\"\n\"sync\"\n)\ntype T int\ntype I interface { M("+ps+") ("+rs+") }\n", "src/out.go")
	v.Assert(err == nil, "any signature is accepted")
	v.Assert(len(m.Params) == len(pn) && len(m.Results) == len(rn), "every parameter and result is there")
	all := append(append(ParamsSlice{}, m.Params...), m.Results...)
	for i, p := range all {
		v.Assert(validName(p.Name), "every name is a usable identifier")
		for _, q := range all[i+1:] {
			v.Assert(!v.Eq(p.Name, q.Name), "names are pairwise distinct")
		}
		d := declared[i]
		if d == "" || d == "_" || d == "err" || d == "ctx" {
			continue
		}
		kept := v.Eq(p.Name, d)
		if i == 0 && m.AcceptsContext || i == len(all)-1 && m.ReturnsError {
			continue
		}
		generated := false // a name was made up before it
		for _, e := range declared[:i] {
			generated = generated || e == "" || e == "_" || e == "err" || e == "ctx"
		}
		v.Assert(v.Or(kept, v.And(generated, v.In(d[len(d)-1], "09"))), "a declared name is kept unless a made up one may have taken it")
		v.Reach("kept")
	}
	wantErr := len(rt) > 0 && rt[len(rt)-1] == "error"
	v.Assert(m.ReturnsError == wantErr, "a method returns an error exactly when its last result is one")
	if len(rt) > 0 {
		v.Assert(v.Eq(m.Results[len(rt)-1].Name, "err") == wantErr, "the last result is called err exactly when it is an error")
		v.Reach("err")
	}
	wantCtx := len(pt) > 0 && pt[0] == "context.Context"
	v.Assert(m.AcceptsContext == wantCtx, "a method accepts a context exactly when its first parameter is one")
	if wantCtx {
		v.Assert(m.Params[0].Name == "ctx", "the context is called ctx")
		v.Reach("ctx")
	}
	for i, p := range m.Params {
		v.Assert(p.Variadic == strings.HasPrefix(pt[i], "..."), "exactly the variadic parameter is marked")
		v.Assert(typeText(p.Type) == pt[i], "each name goes with its own type")
	}
	for i, r := range m.Results {
		v.Assert(!r.Variadic && typeText(r.Type) == rt[i], "each result name goes with its own type")
	}
}

// Types that merely look like contexts and errors are neither.
//
//verif:reach ctx,err,other
func Verif_C14_alike() {
	p := v.OneOf("p", "context.Context", "context.CancelFunc", "sync.UserContext", "sync.ContextMap", "*sync.Context", "[]context.Context", "...context.Context", "func(context.Context)", "Context", "context.Context, string")
	r := v.OneOf("r", "error", "Error", "*error", "[]error", "sync.Error", "errors", "func() error", "interface{ error }", "string, error", "error, string")
	m, _, err := one("package src\nimport (\n\"context\"\n\"sync\"\n)\ntype Context int\ntype Error int\ntype errors int\ntype I interface { M("+p+") ("+r+") }\n", "src/out.go")
	v.Assert(err == nil, "any signature is accepted")
	isCtx := p == "context.Context" || p == "context.Context, string"
	isErr := r == "error" || r == "string, error"
	if p != "*sync.Context" {
		v.Assert(m.AcceptsContext == isCtx, "a method accepts a context exactly when its first parameter is one")
		v.Assert((m.Params[0].Name == "ctx") == isCtx, "the first parameter is called ctx exactly when it is a context")
	}
	v.Assert(m.ReturnsError == isErr, "a method returns an error exactly when its last result is one")
	last := m.Results[len(m.Results)-1]
	v.Assert((last.Name == "err") == isErr, "the last result is called err exactly when it is an error")
	for _, q := range m.Results[:len(m.Results)-1] {
		v.Assert(q.Name != "err", "other results are not called err")
	}
	switch {
	case isCtx:
		v.Reach("ctx")
	case isErr:
		v.Reach("err")
	default:
		v.Reach("other")
	}
}
