package generator

import (
	"strings"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Types handed to templates for a decorator in another package, for any names of the package and its alias: own methods and
// those of interfaces embedded from other files, parameters and results, plain and variadic.
//
//verif:opt paths=200000
//verif:reach default,alias
func Verif_C16_generated() {
	name := v.OneOf("package", "src", "Src", "api_v2")
	alias := ""
	if name != "Src" {
		alias = v.OneOf("alias", "", "src", "_own")
		v.Assume(alias == "" || (alias == "src") == (name == "src"))
	}
	n := 0
	typ := tyg.Gen("t", 1, func(l string) string {
		if strings.HasSuffix(l, ".g") {
			return "Mid" // takes type arguments
		}
		n++
		if n == 1 {
			return v.OneOf("leaf", "Loc", "Far", "I", "int", "error", "pk.Loc", "Mid[Loc]", "Mid[pk.Loc]")
		}
		return "Loc"
	})
	// parameters and results may be named like the types
	method := "(Loc string, x " + typ + ", xs ..." + typ + ") (" + typ + ", *Loc)"
	if v.Bool("named") {
		method = "(Far string, x " + typ + ", xs ..." + typ + ") (int " + typ + ", Loc *Loc)"
	}
	own, emb := "", "\ntype Sib interface { M"+method+" }\n"
	use := "Sib"
	switch v.Choice("where", 3) {
	case 0:
		use, emb = "M"+method, ""
	case 1:
		own, emb = emb, ""
	}
	imp := "import \"world.local/pk\"\n\nvar _ pk.Loc\n\n"
	world.Setup(
		world.File{Path: "src/a.go", Src: "package " + name + "\n\n" + imp + "type I interface { " + use + " }\n\ntype Loc int\n" + own},
		world.File{Path: "src/b.go", Src: "package " + name + "\n\n" + imp + "type Far struct{}\n\ntype Mid[T any] struct{}\n" + emb},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype Loc int\n"},
	)
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", SourcePackageAlias: alias, OutputFile: "dst/out.go"})
	v.Assert(err == nil, "generation succeeds")
	if err != nil {
		return
	}
	names, _ := block(in.Import())
	sel, count := "", 0
	for _, i := range names {
		if i.path == "world.local/src" {
			sel = i.name
			count++
		}
	}
	v.Assert(count == 1 && sel != "", "the source package is imported under a name")
	if alias != "" {
		v.Assert(sel == alias, "the name asked for is used")
		v.Reach("alias")
	} else {
		v.Reach("default")
	}
	for _, i := range names {
		v.Assert(i.path == "world.local/src" || i.name != sel, "no other import has that name")
	}
	v.Assert(in.Interface.Type == sel+".I", "the interface is qualified")
	m, ok := in.Interface.Methods["M"]
	v.Assert(ok && len(m.Params) == 3 && len(m.Results) == 2, "the method is there")
	if !ok || len(m.Params) != 3 || len(m.Results) != 2 {
		return
	}
	e := &expect{own: []string{"I", "Loc", "Far", "Mid", "Sib"}, qual: sel}
	const msg = "exactly the types of the source package are qualified"
	v.Assert(m.Params[0].Type == "string" && m.Params[0].Name != "", msg)
	v.Assert(e.text(typ, m.Params[1].Type), msg)
	p := m.Params[2].Type
	v.Assert(m.Params[2].Variadic && len(p) > 3 && p[:3] == "...", "the variadic parameter stays variadic")
	if len(p) > 3 {
		v.Assert(e.text(typ, p[3:]), msg)
	}
	v.Assert(e.text(typ, m.Results[0].Type), msg)
	v.Assert(e.text("*Loc", m.Results[1].Type), msg)
}
