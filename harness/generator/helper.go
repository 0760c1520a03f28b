package generator

import (
	"bytes"
	"go/token"
	"text/template"

	_ "verif.local/zv/plainfmt"
	"verif.local/zv/v"
	_ "verif.local/zv/wmodel"
	"verif.local/zv/world"
)

// capture generates for the interface and returns what the templates are given.
func capture(o Options) (in TemplateInputs, out string, err error) {
	calls := 0
	o.Funcs = template.FuncMap{"verifCheck": func(t TemplateInputs) string {
		calls++
		in = t
		return ""
	}}
	if o.HeaderTemplate == "" {
		o.HeaderTemplate = "package {{.Package.Name}}\n"
	}
	if o.BodyTemplate == "" {
		o.BodyTemplate = "{{verifCheck .}}"
	}
	g, err := NewGenerator(o)
	if err != nil {
		v.Assert(g == nil, "a failed constructor returns no generator")
		return
	}
	var b bytes.Buffer
	err = g.Generate(&b)
	v.Assert(calls == 1, "the body template is executed once")
	out = b.String()
	return
}

// gen generates for interface I of a package with the given declaration.
func gen(decl, file string) (TemplateInputs, string, error) {
	world.Setup(world.File{Path: "src/src.go", Src: decl})
	return capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
}

// one generates for the only method of interface I of a package with the given declaration.
func one(decl, file string) (m Method, in TemplateInputs, err error) {
	in, _, err = gen(decl, file)
	if err != nil {
		return
	}
	v.Assert(len(in.Interface.Methods) == 1, "the interface has one method")
	m, ok := in.Interface.Methods["M"]
	v.Assert(ok && m.Name == "M", "the method is found by its name")
	return
}

// ident is any identifier of n bytes that is not blank, a keyword or the own type.
func ident(label string, n int) string {
	s := v.Ident(label, n)
	ok := true
	for _, k := range []string{"_", "if", "go", "var", "map", "for"} {
		ok = v.And(ok, !v.Eq(s, k))
	}
	v.Assume(ok)
	return s
}

func fset() *token.FileSet { return token.NewFileSet() }

// all shows everything a template can see.
const all = `import (
{{range .Imports}}	{{.}}
{{end}})
{{.Import "fmt"}}
// {{.Interface.Name}} {{.Interface.Type}} {{.Interface.Generics.Types}} {{.Interface.Generics.Params}}
{{range $n, $m := .Interface.Methods}}
// {{$n}} {{$m.Name}} {{$m.Doc}} {{$m.Comment}} {{$m.AcceptsContext}} {{$m.ReturnsError}} {{$m.HasParams}} {{$m.HasResults}}
// {{$m.Declaration}} {{$m.Call}}
// {{range $m.Params}}{{.Name}} {{.Type}} {{.Variadic}} {{.Doc}} {{.Comment}};{{end}}
// {{range $m.Results}}{{.Name}} {{.Type}};{{end}}
{{end}}
{{range $k, $x := .Vars}}// {{$k}}={{$x}}
{{end}}`

func apiWorld() {
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\nimport \"world.local/pk\"\n\n// I is decorated.\ntype I interface {\n\tM(a pk.T, b *J) (J, error)\n\tJ\n}\n\ntype J interface { N(...pk.T) }\n\ntype G[A any, B ~int] interface { M(A) B }\n"},
		world.File{Path: "src/b.go", Src: "package src\n\nimport other \"world.local/alt\"\n\ntype K interface { O(other.U) }\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype T int\n"},
		world.File{Path: "alt/alt.go", Src: "package alt\n\ntype U int\n"},
	)
}
