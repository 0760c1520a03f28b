package printer

import (
	"go/ast"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
)

// Any type, printed for another package: exactly the names of types declared in the source package are qualified, and
// the only reason to refuse is a mention of an unexported one of them.
//
//verif:opt paths=400000
//verif:reach printed,refused,qualified,plain
func Verif_C16_qualified() {
	alias := v.OneOf("alias", "al", "_sourceSrc")
	own := v.Ident("own", 1)
	v.Assume(v.And(own != "_", v.And(own != "I", own != "T")))
	n := 0
	typ := tyg.Gen("t", v.Bound(2, 3), func(l string) string {
		n++
		switch {
		case n == 1:
			s := v.Ident("id", 1)
			v.Assume(s != "_")
			return s
		case v.Bool(l + ".sel"):
			return "pk.T" // a type of another package with the name of an own one
		}
		return "T"
	})
	if alias == "al" {
		typ = "..." + typ
	}
	fs, e, specs := source(typ, "T", own)
	s, err := New(fs, specs, alias).PrintType(e)
	hidden := false
	for _, id := range tyg.Names(e) {
		hidden = v.Or(hidden, v.And(v.Eq(id.Name, own), !v.In(own[0], "AZ")))
	}
	v.Assert((err != nil) == hidden, "a type is refused exactly when it mentions an unexported type of the source package")
	if err != nil {
		v.Assert(s == "", "a refused type is not rendered")
		v.Reach("refused")
		return
	}
	out, ok := tyg.Parse(s)
	v.Assert(ok, "the rendered text is a type")
	if !ok {
		return
	}
	v.Assert(tyg.Cmp{Name: func(a *ast.Ident, b ast.Expr) bool {
		if a.Name == own || a.Name == "T" || a.Name == "I" {
			v.Reach("qualified")
			y, ok := b.(*ast.SelectorExpr)
			if !ok || !v.Eq(y.Sel.Name, a.Name) {
				return false
			}
			q, ok := y.X.(*ast.Ident)
			return ok && v.Eq(q.Name, alias)
		}
		v.Reach("plain")
		y, ok := b.(*ast.Ident)
		return ok && v.Eq(a.Name, y.Name)
	}}.Type(e, out), "exactly the types of the source package are qualified and nothing else changes")
	v.Reach("printed")
}
