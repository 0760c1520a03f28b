package generator

import (
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// importPath is any short path.
func importPath(label string) string {
	s := v.StrOf(label, 1, "azAZ09..__")
	return v.OneOf(label+".prefix", []string{"p/", ""}[:v.Bound(1, 2)]...) + s
}

// Any source imports and any paths a template asks for, however they are spaced and quoted.
//
//verif:opt paths=400000
//verif:reach blank,same,some
func Verif_C21_block() {
	in := TemplateInputs{}
	var want []imported
	for i := v.Choice("source", 3); i > 0; i-- {
		p := importPath("path")
		n := v.OneOf("name", "", "al")
		in.Imports = append(in.Imports, v.OneOf("space", n+" ", "\t "+n+" ")+`"`+p+`"`)
		want = append(want, imported{n, p})
	}
	var args []string
	for i := v.Choice("asked", v.Bound(2, 3)+1); i > 0; i-- {
		if v.Bool("blank") {
			args = append(args, v.OneOf("blank.form", "", " ", "\t \n"))
			v.Reach("blank")
			continue
		}
		p := importPath("ask")
		args = append(args, v.OneOf("ask.open", "", `"`, ` "`)+p+v.OneOf("ask.close", "", `" `))
		for _, w := range want {
			if w.path == p {
				v.Reach("same")
			}
		}
		want = append(want, imported{"", p})
		v.Reach("some")
	}
	checkBlock(in.Import(args...), want)
}

// The imports handed to a template are those of the source file and the source package itself when it is another one.
//
//verif:reach same,other
func Verif_C21_source() {
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\nimport \"context\"\n\nimport (\n\tal \"world.local/pk\"\n\t_ \"world.local/ot-dir\"\n\t. \"world.local/dot\"\n)\n\ntype I interface { M(context.Context, al.T) }\n"},
		world.File{Path: "src/b.go", Src: "package src\n\nimport \"sync\"\n\ntype Other interface { sync.Locker }\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\n\ntype T int\n"},
		world.File{Path: "dot/dot.go", Src: "package dot\n"},
		world.File{Path: "ot-dir/ot.go", Src: "package ot\n"},
	)
	want := []imported{{"", "context"}, {"al", "world.local/pk"}, {"_", "world.local/ot-dir"}, {".", "world.local/dot"}, {"", "time"}}
	file, alias := "src/out.go", ""
	if v.Bool("other") {
		file = "dst/out.go"
		alias = v.OneOf("alias", "", "own")
		want = append(want, imported{v.OneOf("name", "_sourceSrc", "own"), "world.local/src"})
		v.Assume((want[5].name == "own") == (alias == "own"))
		v.Reach("other")
	} else {
		v.Reach("same")
	}
	opt := Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", SourcePackageAlias: alias, OutputFile: file}
	if v.Bool("given") {
		opt.Imports = []string{` "fmt"`, `al "world.local/pk"`}
		want = append(want, imported{"", "fmt"})
	}
	asked := v.OneOf("asked", `time`, ` "time"`)
	in, _, err := capture(opt)
	v.Assert(err == nil, "generation succeeds")
	checkBlock(in.Import(asked), want)
	if file == "dst/out.go" {
		v.Assert(in.Interface.Type == want[5].name+".I", "the interface is named through the import of its package")
	} else {
		v.Assert(in.Interface.Type == "I", "the interface is named directly in its own package")
	}
	v.Assert(strings.HasPrefix(in.Import(), "import ("), "a template may ask for nothing")
	checkBlock(in.Import(), append(append([]imported{}, want[:4]...), want[5:]...))
}
