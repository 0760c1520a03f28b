package generator

import (
	"go/token"

	"verif.local/zv/v"
)

var wideNames = []string{"Éa", "éa", "中文", "Ω", "ǅa", "𝐀b", "_b", "Ab", "ab", "İ"}

// Types with names beyond ASCII, and names that start with an underscore.
//
//verif:reach end
func Verif_C14_unicode() {
	n := v.OneOf("name", wideNames...)
	form := v.OneOf("form", "", "*", "[]", "[2]", "...")
	m, _, err := one("package src\ntype "+n+" int\ntype I interface { M("+form+n+") "+n+" }\n", "src/out.go")
	v.Assert(err == nil, "any signature is accepted in its own package")
	a, b := m.Params[0].Name, m.Results[0].Name
	v.Assert(token.IsIdentifier(a) && token.IsIdentifier(b) && a != b, "names made up from type names are usable")
	v.Assert(m.Params[0].Type == form+n && m.Results[0].Type == n, "types are rendered as declared")
	v.Reach("end")
}

// Names are exported as the language has it.
//
//verif:reach fine,refused
func Verif_C18_unicode() {
	n := v.OneOf("name", wideNames...)
	method := v.Bool("method")
	decl := "package src\ntype " + n + " int\ntype I interface { M(" + n + ") }\n"
	name := "M"
	if method {
		name = n
		decl = "package src\ntype I interface { " + n + "() }\n"
	}
	in, _, err := gen(decl, "dst/out.go")
	v.Assert((err == nil) == token.IsExported(n), "exactly unexported names are refused")
	if err != nil {
		v.Reach("refused")
		return
	}
	_, ok := in.Interface.Methods[name]
	v.Assert(ok, "the method is there")
	v.Reach("fine")
}
