package generator

import (
	"go/ast"
	"go/parser"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
)

// owns are the types the package src declares.
var owns = []string{"I", "Loc", "Con", "Gen", "Base", "Mid", "Plain"}

// expect compares a rendered type with its source, in which the type parameters stand for their arguments
// and the types of the declaring package are found under the qualifier.
type expect struct {
	own   []string
	qual  string
	args  map[string]string
	where *expect // where the arguments are written
}

func (e *expect) same(a, b ast.Expr) bool {
	return tyg.Cmp{Name: e.name}.Type(a, b)
}

func (e *expect) name(a *ast.Ident, b ast.Expr) bool {
	if s, ok := e.args[a.Name]; ok {
		x, ok := tyg.Parse(s)
		return ok && e.where.same(x, b)
	}
	for p, ok := b.(*ast.ParenExpr); ok; p, ok = b.(*ast.ParenExpr) {
		b = p.X
	}
	for _, o := range e.own {
		if o == a.Name && e.qual != "" {
			y, ok := b.(*ast.SelectorExpr)
			if !ok || y.Sel.Name != o {
				return false
			}
			q, ok := y.X.(*ast.Ident)
			return ok && q.Name == e.qual
		}
	}
	y, ok := b.(*ast.Ident)
	return ok && v.Eq(y.Name, a.Name)
}

func (e *expect) text(src, out string) bool {
	a, ok := tyg.Parse(src)
	if !ok {
		panic("harness type " + src)
	}
	b, ok := tyg.Parse(out)
	return ok && e.same(a, b)
}

// declared parses a type parameter list the way templates use it.
func declared(types string) []*ast.Field {
	for _, use := range []string{"type D" + types + " struct {\n\tbase int\n}", "func New" + types + "(base int) {}"} {
		f, err := parser.ParseFile(fset(), "d.go", "package d\n"+use+"\n", 0)
		v.Assert(err == nil, "the type parameter list is valid Go")
		if err != nil {
			return nil
		}
		switch d := f.Decls[0].(type) {
		case *ast.FuncDecl:
			return list(d.Type.TypeParams)
		}
	}
	return nil
}

func list(l *ast.FieldList) []*ast.Field {
	if l == nil {
		return nil
	}
	return l.List
}
