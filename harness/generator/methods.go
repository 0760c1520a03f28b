package generator

import (
	"go/ast"
	"go/parser"
	"strings"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
)

// methodTypes are types whose text is easily put in the wrong place.
var methodTypes = []string{"string", "error", "context.Context", "*T", "func(a, b int) (T, error)", "chan<- func()", "<-chan T", "map[string][]T", "struct{ A, B int }", "interface{ M(...int) }", "func(x ...string)", "[3]T", "any", "interface{}"}

type part struct{ name, typ string }

// parts makes a list of any length up to max of named or unnamed parts; the last parameter may be variadic.
func parts(label string, max int, params bool) (src string, ps []part) {
	n := v.Choice(label+".n", max+1)
	named := n > 0 && v.Bool(label+".named")
	var list []string
	for i := 0; i < n; i++ {
		l := label + string(rune('0'+i))
		t := "string"
		if i == n-1 {
			t = v.OneOf(l+".t", methodTypes...)
			if params && v.Bool(l+".variadic") {
				t = "..." + t
			}
		} else if v.Bool(l + ".other") {
			t = "T"
		}
		name := ""
		if named {
			name = []string{"a", "b2", "ctx"}[i]
			if !params {
				name = []string{"r", "err", "s1"}[i]
			}
			if i == n-1 && params {
				name = ident(l, 1)
			}
			list = append(list, name+" "+t)
		} else {
			list = append(list, t)
		}
		ps = append(ps, part{name, t})
	}
	return strings.Join(list, ", "), ps
}

func stmts(src string) []ast.Stmt {
	e, err := parser.ParseExpr("func() {\n" + src + "\n}")
	v.Assert(err == nil, "the statement is valid Go")
	if err != nil {
		return nil
	}
	return e.(*ast.FuncLit).Body.List
}

// Any method: every text made for templates is valid Go that lists exactly the parts in order.
//
//verif:opt paths=400000
//verif:reach done,variadic,results
func Verif_C19_texts() {
	psrc, ps := parts("p", v.Bound(2, 3), true)
	rsrc, rs := parts("r", v.Bound(1, 3), false)
	for i, p := range ps {
		for _, q := range append(append([]part{}, ps[:i]...), rs...) {
			v.Assume(v.Or(p.name == "", !v.Eq(p.name, q.name)))
		}
	}
	texts(psrc, ps, rsrc, rs)
	v.Reach("done")
}

// Longer lists of simple parts with names that mean something elsewhere.
//
//verif:opt paths=400000
//verif:reach variadic,results,done
func Verif_C19_many() {
	list := func(label string, max int, names ...string) (src string, ps []part) {
		n := v.Choice(label+".n", max+1)
		using := make([]string, 4)
		if n > 0 {
			if u := v.OneOf(label+".names", append(names, "")...); u != "" {
				using = strings.Fields(u)
			}
		}
		for i := 0; i < n; i++ {
			t := "int"
			switch {
			case v.Bool(label + ".error"):
				t = "error"
			case label == "p" && i == n-1 && v.Bool("variadic"):
				t = "...*T"
			}
			ps = append(ps, part{using[i], t})
			if i > 0 {
				src += ", "
			}
			src += using[i] + " " + t
		}
		return
	}
	n := v.Bound(2, 3)
	psrc, ps := list("p", n, "err ctx d", "_ result _", "result1 p2 _")
	rsrc, rs := list("r", 3, "e err1 s", "err ok _", "_ _ err2")
	if len(ps) > 0 && len(rs) > 0 {
		v.Assume((ps[0].name == "") || (rs[0].name != "err" || ps[0].name != "err"))
	}
	texts(psrc, ps, rsrc, rs)
	v.Reach("done")
}

func texts(psrc string, ps []part, rsrc string, rs []part) {
	m, _, err := one("package src\nimport \"context\"\nvar _ context.Context\ntype T int\ntype I interface { M("+psrc+") ("+rsrc+") }\n", "src/out.go")
	v.Assert(err == nil && len(m.Params) == len(ps) && len(m.Results) == len(rs), "any signature is accepted")
	if err != nil {
		return
	}
	same := tyg.Cmp{Name: func(a *ast.Ident, b ast.Expr) bool {
		y, ok := b.(*ast.Ident)
		return ok && v.Eq(a.Name, y.Name)
	}}
	typ := func(s string) ast.Expr {
		e, ok := tyg.Parse(s)
		v.Assert(ok, "every type is valid Go")
		return e
	}
	variadic := len(ps) > 0 && strings.HasPrefix(ps[len(ps)-1].typ, "...")
	if variadic {
		v.Reach("variadic")
	}
	if len(rs) > 0 {
		v.Reach("results")
	}

	// lists of names and types
	fields := func(what string, l *ast.FieldList, names ParamsSlice, want []part, form string) {
		var got []*ast.Field
		var gotNames []string
		if l != nil {
			for _, f := range l.List {
				for _, n := range f.Names {
					got = append(got, f)
					gotNames = append(gotNames, n.Name)
				}
				v.Assert(len(f.Names) > 0 && f.Tag == nil, what+": every part is named")
			}
		}
		v.Assert(len(got) == len(want), what+" lists every part once")
		if len(got) != len(want) {
			return
		}
		for i := range want {
			v.Assert(v.Eq(gotNames[i], names[i].Name), what+" has the names in order")
			t := want[i].typ
			if form != "" && strings.HasPrefix(t, "...") {
				t = "[]" + t[3:]
			}
			if form == "*" {
				t = "*" + t
			}
			v.Assert(same.Type(typ(t), got[i].Type), what+" has the types in order")
		}
	}
	f, err := parser.ParseFile(fset(), "x.go", "package x\ntype X interface {\n"+m.Declaration()+"\n}\nfunc x"+m.Signature()+" { panic(1) }\nfunc y("+m.Params.String()+")\nfunc z() ("+m.Results.String()+")\n"+
		"type A "+m.ParamsStruct()+"\ntype B "+m.ParamPtrsStruct()+"\ntype C "+m.ResultsStruct()+"\n", 0)
	v.Assert(err == nil, "declarations are valid Go")
	if err != nil {
		return
	}
	ml := f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.TypeSpec).Type.(*ast.InterfaceType).Methods.List
	v.Assert(len(ml) == 1 && len(ml[0].Names) == 1 && ml[0].Names[0].Name == "M", "the declaration declares the method")
	ft := ml[0].Type.(*ast.FuncType)
	fields("the declaration", ft.Params, m.Params, ps, "")
	fields("the declaration", ft.Results, m.Results, rs, "")
	ft = f.Decls[1].(*ast.FuncDecl).Type
	fields("the signature", ft.Params, m.Params, ps, "")
	fields("the signature", ft.Results, m.Results, rs, "")
	fields("the parameter list", f.Decls[2].(*ast.FuncDecl).Type.Params, m.Params, ps, "")
	fields("the result list", f.Decls[3].(*ast.FuncDecl).Type.Results, m.Results, rs, "")
	st := func(i int) *ast.FieldList {
		return f.Decls[i].(*ast.GenDecl).Specs[0].(*ast.TypeSpec).Type.(*ast.StructType).Fields
	}
	fields("the parameter struct", st(4), m.Params, ps, "s")
	fields("the pointer struct", st(5), m.Params, ps, "*")
	fields("the result struct", st(6), m.Results, rs, "s")

	// calls
	args := func(what string, call *ast.CallExpr, names ParamsSlice, dots bool) {
		v.Assert(len(call.Args) == len(names) && call.Ellipsis.IsValid() == dots, what+" passes every part once, a variadic one spread")
		if len(call.Args) != len(names) {
			return
		}
		for i, a := range call.Args {
			id, ok := a.(*ast.Ident)
			v.Assert(ok && v.Eq(id.Name, names[i].Name), what+" passes the parts in order")
		}
	}
	call := func(what, src string) *ast.CallExpr {
		e, err := parser.ParseExpr(src)
		c, ok := e.(*ast.CallExpr)
		v.Assert(err == nil && ok, what+" is a valid call")
		if !ok {
			return &ast.CallExpr{}
		}
		return c
	}
	c := call("the call", m.Call())
	id, ok := c.Fun.(*ast.Ident)
	v.Assert(ok && id.Name == "M", "the call calls the method")
	args("the call", c, m.Params, variadic)
	args("the passed list", call("the passed list", "f("+m.Params.Pass()+")"), m.Params, variadic)
	args("the list of parameter names", call("the list of parameter names", "f("+m.ParamsNames()+")"), m.Params, false)
	args("the list of result names", call("the list of result names", "f("+m.ResultsNames()+")"), m.Results, false)

	// statements
	ss := stmts(m.Pass("d.base."))
	var e ast.Expr
	if len(rs) > 0 {
		v.Assert(len(ss) == 1, "passing on returns the call")
		r, ok := ss[0].(*ast.ReturnStmt)
		v.Assert(ok && len(r.Results) == 1, "passing on returns the call")
		e = r.Results[0]
	} else {
		v.Assert(len(ss) == 2, "passing on calls and returns")
		x, ok := ss[0].(*ast.ExprStmt)
		r, rok := ss[1].(*ast.ReturnStmt)
		v.Assert(ok && rok && len(r.Results) == 0, "passing on calls and returns")
		e = x.X
	}
	c, ok = e.(*ast.CallExpr)
	v.Assert(ok, "passing on calls")
	if ok {
		sel, ok := c.Fun.(*ast.SelectorExpr)
		v.Assert(ok && sel.Sel.Name == "M", "passing on calls the method")
		if ok {
			x, ok := sel.X.(*ast.SelectorExpr)
			v.Assert(ok && x.Sel.Name == "base", "passing on calls the given value's method")
		}
		args("passing on", c, m.Params, variadic)
	}
	ss = stmts(m.ReturnStruct("res"))
	v.Assert(len(ss) == 1, "the struct is returned")
	r, ok := ss[0].(*ast.ReturnStmt)
	v.Assert(ok && len(r.Results) == len(rs), "every field is returned")
	if ok && len(r.Results) == len(rs) {
		for i, x := range r.Results {
			sel, ok := x.(*ast.SelectorExpr)
			v.Assert(ok && v.Eq(sel.Sel.Name, m.Results[i].Name), "the fields are returned in order")
			if ok {
				id, ok := sel.X.(*ast.Ident)
				v.Assert(ok && id.Name == "res", "the given struct is returned")
			}
		}
	}

	// maps
	maps := func(what, src string, names ParamsSlice) {
		e, err := parser.ParseExpr(src)
		l, ok := e.(*ast.CompositeLit)
		v.Assert(err == nil && ok && len(l.Elts) == len(names), what+" has an entry for every part")
		if !ok || len(l.Elts) != len(names) {
			return
		}
		mt, ok := l.Type.(*ast.MapType)
		v.Assert(ok && same.Type(typ("map[string]interface{}"), mt), what+" maps names to values")
		for i, x := range l.Elts {
			kv, ok := x.(*ast.KeyValueExpr)
			v.Assert(ok, what+" maps names to values")
			k, kok := kv.Key.(*ast.BasicLit)
			val, vok := kv.Value.(*ast.Ident)
			v.Assert(kok && v.Eq(k.Value, `"`+names[i].Name+`"`), what+" has the names as keys")
			v.Assert(vok && v.Eq(val.Name, names[i].Name), what+" has each part under its own name")
		}
	}
	maps("the parameter map", m.ParamsMap(), m.Params)
	maps("the result map", m.ResultsMap(), m.Results)
	v.Assert(m.HasParams() == (len(ps) > 0) && m.HasResults() == (len(rs) > 0), "methods know whether they have parameters and results")
}
