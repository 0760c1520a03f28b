package printer

import (
	"go/ast"
	"go/parser"
	"go/token"

	"verif.local/zv/v"
)

// source parses a file that declares a method with one parameter of the type and the given types beside it.
func source(typ string, declared ...string) (*token.FileSet, ast.Expr, []*ast.TypeSpec) {
	src := "package src\n\ntype I interface { M(prm " + typ + ") }\n"
	for _, d := range declared {
		src += "type " + d + " int\n"
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "src.go", src, parser.ParseComments|parser.SkipObjectResolution)
	v.Assume(err == nil)
	var specs []*ast.TypeSpec
	var e ast.Expr
	for _, d := range f.Decls {
		for _, s := range d.(*ast.GenDecl).Specs {
			ts := s.(*ast.TypeSpec)
			specs = append(specs, ts)
			if it, ok := ts.Type.(*ast.InterfaceType); ok {
				e = it.Methods.List[0].Type.(*ast.FuncType).Params.List[0].Type
			}
		}
	}
	return fs, e, specs
}
