package generator

import (
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

func text(o Options) (string, error) {
	b := &strings.Builder{}
	o.HeaderTemplate = "package {{.Package.Name}} // {{.SourcePackage.Name}} {{.SourcePackage.PkgPath}}\n"
	o.BodyTemplate = "/*\n" + all + "*/\n"
	g, err := NewGenerator(o)
	if err != nil {
		return "", err
	}
	err = g.Generate(b)
	return b.String(), err
}

// twice generates in the natural order of maps and then in any other.
func twice(o Options) (string, error) {
	t1, err1 := text(o)
	n := 1
	if !v.Symbolic() {
		n = 25
	}
	v.NondetMaps()
	for i := 0; i < n; i++ {
		t2, err2 := text(o)
		v.Assert((err1 == nil) == (err2 == nil), "generation succeeds or fails always")
		v.Assert(v.Eq(t1, t2), "the same output is generated again")
	}
	return t1, err1
}

// Types declared for several platforms, in tests and in excluded files.
//
//verif:opt paths=200000 maporders=1 mapordersT=2
//verif:reach here,elsewhere
func Verif_C29_platforms() {
	other := v.OneOf("other", "src/z_windows.go", "src/a_windows.go", "src/a_darwin.go", "src/b.go")
	tag := ""
	if other == "src/b.go" {
		tag = v.OneOf("tag", "//go:build !linux\n\n", "//go:build ignore\n\n")
	}
	imp := v.OneOf("import", "", "import pk \"world.local/pk\"\n\n", "import \"world.local/pk\"\n\n")
	decl := v.OneOf("decl", "type I interface { W() }\n", "type I interface { M(T); W() }\n", "type (\n\tI interface { W() }\n\tQ int\n)\n", "type I interface { Emb }\n", "type Emb interface { EW() }\n", "type T string\n", "type New interface { W() }\n")
	if imp != "" {
		decl += "\nvar _ pk.T\n"
	}
	// the other file comes first or last in the natural order
	files := []world.File{
		{Path: "src/m.go", Src: "package src\n\ntype T int\n\ntype I interface {\n\tM(T)\n\tEmb\n}\n\ntype Emb interface { E() }\n"},
		{Path: other, Src: tag + "package src\n\n" + imp + decl},
		{Path: "pk/pk.go", Src: "package pk\n\ntype T int\n"},
		{Path: "use/use.go", Src: "package use\n\nimport \"world.local/src\"\n\ntype I interface { src.I }\n"},
	}
	if v.Bool("swap") {
		files[0], files[1] = files[1], files[0]
	}
	world.Setup(files...)
	o := Options{InterfaceName: "I", SourcePackage: world.ModPath + "/" + v.OneOf("source", "src", "use"), OutputFile: v.OneOf("file", "src/out.go", "dst/out.go")}
	if strings.HasPrefix(decl, "type New") && v.Bool("new") && strings.HasSuffix(o.SourcePackage, "src") {
		o.InterfaceName = "New"
		_, err := twice(o)
		v.Assert(err == nil, "an interface of another platform is found")
		v.Reach("elsewhere")
		return
	}
	t, err := twice(o)
	v.Assert(err == nil, "generation succeeds")
	v.Assert(strings.Contains(t, "\n// M M ") && strings.Contains(t, "\n// E E ") && !strings.Contains(t, "W W"), "the declarations of the current platform are used")
	v.Reach("here")
}

// Any two embedded things, several methods, imports, variables and type parameters.
//
//verif:opt paths=200000 maporders=1 mapordersT=2
//verif:reach done
func Verif_C29_order() {
	few := []int{1, 4, 5, 7, 9, 14}
	first := v.Choice("first", len(few))
	second := v.Choice("second", v.Bound(3, len(few)))
	a, b := embeds[few[first]], embeds[few[(first+second)%len(few)]]
	embedWorld(a.src, b.src, `"world.local/pk"`)
	o := Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: v.OneOf("file", "src/out.go", "dst/out.go"),
		Imports: []string{"\"os\"", "z \"os\""}, Vars: map[string]interface{}{"b": 1, "a": true, "c": "x"}}
	_, err := twice(o)
	if err != nil {
		v.Reach("failed")
		return
	}
	v.Reach("done")
}

// Generic interfaces over several files.
//
//verif:reach done
func Verif_C29_generic() {
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\nimport \"world.local/pk\"\n\ntype I[K comparable, V Num | ~string, W pk.T] interface {\n\tA(K, V) W\n\tSib[V, K]\n\tB(x N) (y map[K][]V)\n}\n\ntype K string\n"},
		world.File{Path: "src/b.go", Src: "package src\n\nimport pk \"world.local/alt\"\n\ntype Num interface { ~int }\n\ntype Sib[A, B any] interface { S(A, B) pk.U }\n"},
		world.File{Path: "src/c.go", Src: "package src\n\ntype N int\n\ntype V int\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype T interface { ~int }\n"},
		world.File{Path: "alt/pk.go", Src: "package pk\n\ntype U int\n"},
	)
	_, err := twice(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: v.OneOf("file", "src/out.go", "dst/out.go")})
	v.Assert(err == nil, "generation succeeds")
	v.Reach("done")
}
