package printer

import (
	"go/ast"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
)

// Any type, printed for its own package, reads back as the same type.
//
//verif:opt paths=400000
//verif:reach printed
func Verif_C15_same() {
	n := 0
	typ := tyg.Gen("t", v.Bound(2, 3), func(l string) string {
		n++
		if v.Bool(l + ".sel") {
			return "pk.Sel"
		}
		if n == 1 {
			return v.Ident("id", 1)
		}
		return "T"
	})
	if v.Bool("variadic") {
		typ = "..." + typ
	}
	fs, e, specs := source(typ, "T")
	s, err := New(fs, specs, "").PrintType(e)
	v.Assert(err == nil, "every type of the own package can be rendered")
	out, ok := tyg.Parse(s)
	v.Assert(ok, "the rendered text is a type")
	if ok {
		v.Assert(tyg.Cmp{Name: func(a *ast.Ident, b ast.Expr) bool {
			y, ok := b.(*ast.Ident)
			return ok && v.Eq(a.Name, y.Name)
		}}.Type(e, out), "the rendered type is the declared one")
	}
	v.Reach("printed")
}
