// Package tyg makes the source of any Go type up to a depth and compares type expressions.
package tyg

import (
	"go/ast"
	"go/parser"
	"strings"

	"verif.local/zv/v"
)

// Kinds are the composite type forms Gen knows.
var Kinds = []string{"ptr", "slice", "array", "arrayc", "map", "chan", "rchan", "schan", "paren", "gen1", "gen2",
	"func0", "func1", "func2", "funcv", "func3", "struct0", "struct1", "struct2", "struct3", "iface0", "iface1", "iface2", "chanp",
	"genl", "func4", "func5", "iface3", "struct4"}

// Gen makes a type whose parts are made by leaf at depth 0.
func Gen(label string, depth int, leaf func(label string) string) string {
	if depth == 0 {
		return leaf(label)
	}
	k := v.OneOf(label+".kind", append([]string{"leaf"}, Kinds...)...)
	a := func() string { return Gen(label+".a", depth-1, leaf) }
	// the second part of a type is a leaf: the parts are treated alike and independently
	b := func() string { return leaf(label + ".b") }
	switch k {
	case "leaf":
		return leaf(label)
	case "ptr":
		return "*" + a()
	case "slice":
		return "[]" + a()
	case "array":
		return "[3]" + a()
	case "arrayc":
		return "[2*k+1]" + a()
	case "map":
		if v.Bool(label + ".deepkey") {
			return "map[" + a() + "]" + b()
		}
		return "map[" + b() + "]" + a()
	case "chan":
		return "chan " + a()
	case "chanp":
		return "chan (" + a() + ")"
	case "rchan":
		return "<-chan " + a()
	case "schan":
		return "chan<- " + a()
	case "paren":
		return "(" + a() + ")"
	case "gen1":
		return leaf(label+".g") + "[" + a() + "]"
	case "gen2":
		return leaf(label+".g") + "[" + b() + ", " + a() + ", " + b() + "]"
	case "func0":
		return "func()"
	case "func1":
		return "func(" + a() + ")"
	case "func2":
		return "func(x, y " + a() + ", z " + b() + ") " + b()
	case "funcv":
		return "func(" + b() + ", ..." + a() + ") (" + b() + ", error)"
	case "func3":
		return "func() (p, q " + a() + ", err error)"
	case "struct0":
		return "struct{}"
	case "struct1":
		return "struct { A, B " + a() + "; C " + b() + " }"
	case "struct2":
		return "struct { " + leaf(label+".e") + " `e`; *" + leaf(label+".e") + "; F " + a() + " }"
	case "struct3":
		return "struct { A " + a() + " `k:\"v\"`; B " + b() + " \"x\"; _ int }"
	case "genl":
		return leaf(label+".g") + "[" + b() + ", " + a() + "]"
	case "func4":
		return "func() (r " + a() + ")"
	case "func5":
		return "func(" + b() + ") " + a()
	case "iface3":
		return "interface { N(" + b() + ") " + a() + " }"
	case "struct4":
		return "struct { A " + b() + "; B, C " + a() + " `b` }"
	case "iface0":
		return "interface{}"
	case "iface1":
		return "interface { M(x " + a() + ") (" + b() + "); N() }"
	case "iface2":
		return "interface { " + leaf(label+".e") + "; M(..." + a() + ") }"
	}
	panic(k)
}

// Parse parses a type.
func Parse(s string) (ast.Expr, bool) {
	if strings.HasPrefix(s, "...") {
		e, err := parser.ParseExpr("func(" + s + ")")
		if err != nil {
			return nil, false
		}
		l := e.(*ast.FuncType).Params.List
		if len(l) != 1 || len(l[0].Names) != 0 {
			return nil, false
		}
		return l[0].Type, true
	}
	// a field of a struct allows types only
	e, err := parser.ParseExpr("struct{ F_ " + s + "\n}")
	if err != nil {
		return nil, false
	}
	st, ok := e.(*ast.StructType)
	if !ok || len(st.Fields.List) != 1 || len(st.Fields.List[0].Names) != 1 || st.Fields.List[0].Tag != nil {
		return nil, false
	}
	return st.Fields.List[0].Type, true
}

// Cmp compares a rendered type with its source.
type Cmp struct {
	// Name says whether the rendered expression is right for the source's type name.
	Name func(src *ast.Ident, out ast.Expr) bool
}

// Type compares two types.
func (c Cmp) Type(a, b ast.Expr) bool {
	// parentheses do not change a type
	for {
		p, ok := a.(*ast.ParenExpr)
		if !ok {
			break
		}
		a = p.X
	}
	for {
		p, ok := b.(*ast.ParenExpr)
		if !ok {
			break
		}
		b = p.X
	}
	switch x := a.(type) {
	case *ast.Ident:
		return c.Name(x, b)
	case *ast.SelectorExpr:
		y, ok := b.(*ast.SelectorExpr)
		return ok && v.Eq(x.Sel.Name, y.Sel.Name) && plain(x.X, y.X)
	case *ast.StarExpr:
		y, ok := b.(*ast.StarExpr)
		return ok && c.Type(x.X, y.X)
	case *ast.Ellipsis:
		y, ok := b.(*ast.Ellipsis)
		return ok && c.Type(x.Elt, y.Elt)
	case *ast.ArrayType:
		y, ok := b.(*ast.ArrayType)
		return ok && plain(x.Len, y.Len) && c.Type(x.Elt, y.Elt)
	case *ast.MapType:
		y, ok := b.(*ast.MapType)
		return ok && c.Type(x.Key, y.Key) && c.Type(x.Value, y.Value)
	case *ast.ChanType:
		y, ok := b.(*ast.ChanType)
		return ok && x.Dir == y.Dir && c.Type(x.Value, y.Value)
	case *ast.IndexExpr:
		y, ok := b.(*ast.IndexExpr)
		return ok && c.Type(x.X, y.X) && c.Type(x.Index, y.Index)
	case *ast.IndexListExpr:
		y, ok := b.(*ast.IndexListExpr)
		if !ok || len(x.Indices) != len(y.Indices) || !c.Type(x.X, y.X) {
			return false
		}
		for i := range x.Indices {
			if !c.Type(x.Indices[i], y.Indices[i]) {
				return false
			}
		}
		return true
	case *ast.FuncType:
		y, ok := b.(*ast.FuncType)
		return ok && c.Fields(x.Params, y.Params, false) && c.Fields(x.Results, y.Results, false)
	case *ast.StructType:
		y, ok := b.(*ast.StructType)
		return ok && c.Fields(x.Fields, y.Fields, true)
	case *ast.UnaryExpr:
		y, ok := b.(*ast.UnaryExpr)
		return ok && x.Op == y.Op && c.Type(x.X, y.X)
	case *ast.BinaryExpr:
		y, ok := b.(*ast.BinaryExpr)
		return ok && x.Op == y.Op && c.Type(x.X, y.X) && c.Type(x.Y, y.Y)
	case *ast.InterfaceType:
		y, ok := b.(*ast.InterfaceType)
		return ok && c.Fields(x.Methods, y.Methods, true)
	}
	return false
}

type field struct {
	name string
	typ  ast.Expr
	tag  string
}

func flat(l *ast.FieldList) (r []field) {
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		tag := ""
		if f.Tag != nil {
			tag = f.Tag.Value
		}
		if len(f.Names) == 0 {
			r = append(r, field{"", f.Type, tag})
		}
		for _, n := range f.Names {
			r = append(r, field{n.Name, f.Type, tag})
		}
	}
	return
}

// Fields compares two field lists; names matter when they are part of the type's identity.
func (c Cmp) Fields(a, b *ast.FieldList, names bool) bool {
	x, y := flat(a), flat(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if names && !v.Eq(x[i].name, y[i].name) || x[i].tag != y[i].tag || !c.Type(x[i].typ, y[i].typ) {
			return false
		}
	}
	return true
}

// plain compares expressions that are not types.
func plain(a, b ast.Expr) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *ast.Ident:
		y, ok := b.(*ast.Ident)
		return ok && v.Eq(x.Name, y.Name)
	case *ast.BasicLit:
		y, ok := b.(*ast.BasicLit)
		return ok && x.Value == y.Value
	case *ast.BinaryExpr:
		y, ok := b.(*ast.BinaryExpr)
		return ok && x.Op == y.Op && plain(x.X, y.X) && plain(x.Y, y.Y)
	case *ast.Ellipsis:
		_, ok := b.(*ast.Ellipsis)
		return ok
	case *ast.SelectorExpr:
		y, ok := b.(*ast.SelectorExpr)
		return ok && v.Eq(x.Sel.Name, y.Sel.Name) && plain(x.X, y.X)
	}
	return false
}

// Names lists the identifiers that stand for types in a type.
func Names(e ast.Expr) (r []*ast.Ident) {
	switch x := e.(type) {
	case *ast.Ident:
		return []*ast.Ident{x}
	case *ast.ParenExpr:
		return Names(x.X)
	case *ast.StarExpr:
		return Names(x.X)
	case *ast.Ellipsis:
		return Names(x.Elt)
	case *ast.ArrayType:
		return Names(x.Elt)
	case *ast.MapType:
		return append(Names(x.Key), Names(x.Value)...)
	case *ast.ChanType:
		return Names(x.Value)
	case *ast.IndexExpr:
		return append(Names(x.X), Names(x.Index)...)
	case *ast.IndexListExpr:
		r = Names(x.X)
		for _, i := range x.Indices {
			r = append(r, Names(i)...)
		}
	case *ast.FuncType:
		return append(fieldNames(x.Params), fieldNames(x.Results)...)
	case *ast.StructType:
		return fieldNames(x.Fields)
	case *ast.InterfaceType:
		return fieldNames(x.Methods)
	}
	return
}

func fieldNames(l *ast.FieldList) (r []*ast.Ident) {
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		r = append(r, Names(f.Type)...)
	}
	return
}
