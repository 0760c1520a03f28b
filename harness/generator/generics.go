package generator

import (
	"go/ast"
	"go/parser"
	"strings"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// constraints are the forms a type parameter's constraint may have; E is another type parameter.
var constraints = []string{"any", "comparable", "Con", "pk.Con", "~int", "~[]E", "[]E", "~pk.T", "int | ~string", "Loc | pk.T | ~Loc",
	"interface{ ~int | Loc; String() string }", "interface{ *E }", "Gen[E]", "pk.Gen[E, Loc]", "interface{}", "map[E]Loc", "func(E) Loc", "interface{ Con; Set(Loc) E }", "chan<- E"}

// Any grouping, names and constraints of up to three type parameters after a first plain one.
//
//verif:reach same,other
func Verif_C20_parameters() {
	type tp struct{ name, constraint string }
	want := []tp{{"E", "any"}}
	src := "E any"
	alone := v.Bool("alone")
	groups := 0
	if !alone {
		groups = v.Choice("groups", 3)
	}
	n := 0
	for g := 0; g < groups; g++ {
		c := constraints[v.Choice("constraint", len(constraints))]
		if g > 0 {
			c = v.OneOf("second", "any", "Con", "~int | Loc")
		}
		k := 1
		if g == 0 {
			k += v.Choice("names", 2)
		}
		src += ", "
		for i := 0; i < k; i++ {
			name := string(rune('P' + n))
			if n == 0 {
				name = ident("name", v.Bound(1, 2))
				v.Assume(v.And(v.And(!v.Eq(name, "E"), !v.Eq(name, "Q")), v.And(!v.Eq(name, "R"), v.And(!v.Eq(name, "S"), !v.Eq(name, "I")))))
			}
			n++
			if i > 0 {
				src += ", "
			}
			src += name
			want = append(want, tp{name, c})
		}
		src += " " + c
	}
	if alone {
		// the constraint of a parameter that stands alone
		c := v.OneOf("only", constraints...)
		src, want = "E "+c, []tp{{"E", c}}
	}
	file := v.OneOf("file", "src/out.go", "dst/out.go")
	decl := "package src\n\nimport \"world.local/pk\"\n\nvar _ pk.T\n\ntype Loc int\n\ntype Con interface{ ConM() }\n\ntype Gen[T any] interface{ GenM(T) }\n\n" +
		"type I[" + src + "] interface {\n\tM(e E) error\n}\n"
	world.Setup(world.File{Path: "src/src.go", Src: decl},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype T int\n\ntype Con interface{ ConM() }\n\ntype Gen[A, B any] interface{ GenM(A) }\n"})
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	v.Assert(err == nil, "every generic interface is accepted")
	if err != nil {
		return
	}
	e := &expect{own: owns}
	if file == "dst/out.go" {
		e.qual = "_sourceSrc"
		v.Reach("other")
	} else {
		v.Reach("same")
	}
	got := 0
	for _, f := range declared(in.Interface.Generics.Types) {
		for _, id := range f.Names {
			v.Assert(got < len(want) && v.Eq(id.Name, want[got].name), "the type parameter list has the declared names in order")
			if got < len(want) {
				c, _ := parser.ParseExpr(want[got].constraint)
				v.Assert(e.same(c, f.Type), "every type parameter has its declared constraint")
			}
			got++
		}
	}
	v.Assert(got == len(want), "the type parameter list names every type parameter")
	x, err := parser.ParseExpr("D" + in.Interface.Generics.Params)
	v.Assert(err == nil, "the type argument list is valid Go")
	var args []ast.Expr
	switch x := x.(type) {
	case *ast.IndexExpr:
		args = []ast.Expr{x.Index}
	case *ast.IndexListExpr:
		args = x.Indices
	}
	v.Assert(len(args) == len(want), "the type argument list names every type parameter")
	for i := range args {
		id, ok := args[i].(*ast.Ident)
		v.Assert(ok && i < len(want) && v.Eq(id.Name, want[i].name), "the type argument list names the type parameters in order")
	}
}

// An interface that is not generic has no type parameters.
//
//verif:reach plain
func Verif_C20_plain() {
	in, _, err := gen("package src\ntype I interface { M() }\ntype Gen[T any] interface { G(T) }\n", v.OneOf("file", "src/out.go", "dst/out.go"))
	v.Assert(err == nil && in.Interface.Generics.Types == "" && in.Interface.Generics.Params == "", "an interface without type parameters gets no lists")
	v.Reach("plain")
}

// Any type that mentions the type parameters of an embedded generic interface, any type arguments, embedded directly or through another generic interface.
//
//verif:opt paths=400000
//verif:reach direct,nested,generic
func Verif_C20_embedded() {
	leaf := func(l string) string {
		if strings.HasSuffix(l, ".g") || strings.HasSuffix(l, ".e") {
			return "Loc" // type parameters are neither instantiated nor embedded
		}
		return v.OneOf(l, []string{"K", "Loc", "V"}[:v.Bound(2, 3)]...)
	}
	typ := tyg.Gen("t", v.Bound(1, 2), leaf)
	arg := func(l string) string {
		return v.OneOf(l, "string", "Loc", "[]Loc", "func(int) Loc", "<-chan V", "pk.T", "K", "Gen[Gen[K, Gen[Loc, V]], []Loc]", "struct{ V V }")
	}
	ak, av := arg("arg.k"), "Loc"
	if v.Bool("second") {
		ak, av = "bool", v.OneOf("arg.v", "string", "map[string]Loc", "V", "chan K")
	}
	way := v.OneOf("way", "direct", "nested", "other", "otherdirect")
	file := "dst/out.go"
	if way == "direct" {
		typ = "..." + typ
	} else if way == "nested" {
		file = "src/out.go"
	}
	src := "package src\n\nimport \"world.local/pk\"\n\nvar _ pk.T\n\ntype I[K, V any] interface {\n\tOwn(k K)\n\t"
	base := "type Base[K, V any] interface {\n\tM(x " + typ + ") (r []V, e K)\n}\n"
	here := &expect{own: owns, args: nil}
	if file == "dst/out.go" {
		here.qual = "_sourceSrc"
	}
	pkg := "package pk\n\nimport _ \"world.local/ot-dir\"\n\ntype T int\n\ntype Loc int\n\n"
	there := &expect{own: []string{"Base", "Mid", "Loc", "T"}, qual: "pk"}
	got := &expect{own: owns, qual: here.qual, where: here, args: map[string]string{"K": ak, "V": av}}
	switch way {
	case "direct":
		src += "Base[" + ak + ", " + av + "]\n}\n\n" + base
		v.Reach("direct")
	case "nested":
		// the middle interface swaps the parameters
		src += "Mid[" + av + ", " + ak + "]\n}\n\ntype Mid[A, B any] interface{ Base[B, A] }\n\n" + base
		v.Reach("nested")
	case "otherdirect":
		src += "pk.Base[" + ak + ", " + av + "]\n}\n"
		pkg += base
		got.own, got.qual = there.own, there.qual
	case "other":
		src += "pk.Mid[" + av + ", " + ak + "]\n}\n"
		pkg += "type Mid[A, B any] interface{ Base[[]B, A] }\n\n" + base
		got.own, got.qual = there.own, there.qual
		got.args = map[string]string{"K": "[]B", "V": "A"}
		got.where = &expect{own: there.own, qual: there.qual, args: map[string]string{"A": av, "B": ak}, where: here}
	}
	src += "\ntype Loc int\n\ntype Gen[A, B any] struct{ A A; B B }\n"
	world.Setup(world.File{Path: "src/src.go", Src: src}, world.File{Path: "pk/pk.go", Src: pkg}, world.File{Path: "ot-dir/ot.go", Src: "package ot\n"})
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	v.Assert(err == nil, "every instantiation is accepted")
	if err != nil {
		return
	}
	m, ok := in.Interface.Methods["M"]
	v.Assert(ok && len(in.Interface.Methods) == 2, "the methods are exactly the interface's method set")
	v.Assert(len(m.Params) == 1 && len(m.Results) == 2, "every method has its own signature")
	if len(m.Params) != 1 || len(m.Results) != 2 {
		return
	}
	v.Assert(got.text(typ, m.Params[0].Type), "every mention of a type parameter is replaced by its argument")
	v.Assert(got.text("[]V", m.Results[0].Type), "every mention of a type parameter is replaced by its argument")
	v.Assert(got.text("K", m.Results[1].Type), "every mention of a type parameter is replaced by its argument")
	o := in.Interface.Methods["Own"]
	v.Assert(len(o.Params) == 1 && o.Params[0].Type == "K", "the interface's own type parameters stay")
	if ak == "K" || av == "V" {
		v.Reach("generic")
	}
}

// Type parameters hide types of the same name.
//
//verif:reach same,other
func Verif_C20_hidden() {
	file := v.OneOf("file", "src/out.go", "dst/out.go")
	p, q := ident("p", 1), ident("q", 1)
	v.Assume(v.And(!v.Eq(p, q), v.And(!v.Eq(p, "I"), !v.Eq(q, "I"))))
	v.Assume(v.And(v.And(v.In(p[0], "AZ"), v.In(q[0], "AZ")), v.And(v.And(!v.Eq(p, "B"), !v.Eq(q, "R")), !v.Eq(q, "B"))))
	con := v.OneOf("con", "any", "~[]"+p, "interface{ *"+p+" }")
	params := p + " any, " + q + " " + con
	if con == "any" && v.Bool("grouped") {
		params = p + ", " + q + " any"
	}
	in, _, err := gen("package src\ntype T int\ntype I["+params+"] interface { M(a "+p+", b []"+q+", c func("+p+") "+q+"); B[int, "+q+"] }\ntype B["+q+" any, R any] interface { N(x "+q+", y []R) }\n", file)
	v.Assert(err == nil, "every generic interface is accepted")
	if err != nil {
		return
	}
	m, n := in.Interface.Methods["M"], in.Interface.Methods["N"]
	v.Assert(len(m.Params) == 3 && len(n.Params) == 2, "every method has its own signature")
	if len(m.Params) != 3 || len(n.Params) != 2 {
		return
	}
	v.Assert(v.And(v.Eq(m.Params[0].Type, p), v.Eq(m.Params[1].Type, "[]"+q)), "a type parameter is not taken for a type of the package")
	ds := declared(in.Interface.Generics.Types)
	c, _ := parser.ParseExpr(con)
	names := 0
	for _, d := range ds {
		names += len(d.Names)
	}
	v.Assert(names == 2, "every type parameter has its declared constraint")
	if names == 2 {
		v.Assert((&expect{}).same(c, ds[len(ds)-1].Type), "a type parameter in a constraint is not taken for a type of the package")
	}
	f, ok := tyg.Parse(m.Params[2].Type)
	w, _ := tyg.Parse("func(" + p + ") " + q)
	v.Assert(ok && (&expect{}).same(w, f), "a type parameter is not taken for a type of the package")
	v.Assert(n.Params[0].Type == "int" && v.Eq(n.Params[1].Type, "[]"+q), "type arguments named like another parameter are not replaced again")
	if file == "src/out.go" {
		v.Reach("same")
	} else {
		v.Reach("other")
	}
}
