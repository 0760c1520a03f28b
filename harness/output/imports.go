package generator

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/token"
	"strings"

	"verif.local/zv/realfmt"
	"verif.local/zv/v"
	_ "verif.local/zv/wmodel"
	"verif.local/zv/world"
)

// clause is an import of a package under a name; "-" stands for no import.
func clause(name, path string) string {
	switch name {
	case "-":
		return ""
	case "":
		return "\"" + path + "\""
	}
	return name + " \"" + path + "\""
}

// called is the name a package is called by.
func called(name, pkg string) string {
	if name == "" {
		return pkg
	}
	return name
}

// references checks that a file imports exactly the packages it mentions and finds each name where it is declared.
func references(src string, where map[string]string) {
	v.Observe("out", src)
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", src, 0)
	v.Assert(err == nil, "the file is valid Go")
	if err != nil {
		return
	}
	bound := map[string]string{}
	for _, i := range f.Imports {
		name := realfmt.Name(i)
		_, twice := bound[name]
		v.Assert(!twice, "no name is imported twice")
		bound[name] = strings.Trim(i.Path.Value, "\"")
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		want := where[s.Sel.Name]
		x := s.X.(*ast.Ident).Name
		v.Assert(want != "" && bound[x] == want, "every reference finds its package")
		used[x] = true
		return true
	})
	for name := range bound {
		v.Assert(used[name], "nothing is imported without need")
	}
}

// The imports of a generated file whatever its source file and its template import and under whatever names: each is declared
// once and every reference finds its package.
//
//verif:opt paths=200000
//verif:reach same,shared,other
func Verif_C30_imports() {
	const tracing, codes = "world.local/x/tracing-go", "world.local/codes"
	srcT := v.OneOf("source.tracing", "-", "", "tracing", "tr")
	srcC := v.OneOf("source.codes", "-", "", "codes", "_c")
	use := v.Bool("used in the interface")
	decl, params := "", "t time.Time"
	ours := []string{"\"time\"", clause(srcT, tracing), clause(srcC, codes)}
	for i, c := range ours {
		if c == "" {
			continue
		}
		decl += "\n\t" + c
		name := "time"
		if i == 1 {
			name = called(srcT, "tracing")
		} else if i == 2 {
			name = called(srcC, "codes")
		}
		if i > 0 && use {
			params += ", x" + name + " " + name + ".T" + string(rune('0'+i))
		}
	}
	vars := ""
	if !use {
		if srcT != "-" {
			vars += "\nvar _ " + called(srcT, "tracing") + ".T1"
		}
		if srcC != "-" {
			vars += "\nvar _ " + called(srcC, "codes") + ".T2"
		}
	}
	out := v.OneOf("output", "src/out.go", "dst/out.go")

	tplT := v.OneOf("template.tracing", "-", "", "tracing", "tr", "_t")
	tplC := v.OneOf("template.codes", "-", "", "codes", "_c")
	tpl := []string{"\"time\"", clause(tplT, tracing), clause(tplC, codes)}
	if v.Bool("named first") {
		tpl = []string{tpl[1], tpl[2], tpl[0]}
	}
	body := ""
	if v.Bool("single") {
		for _, c := range tpl {
			if c != "" {
				body += "import " + c + "\n"
			}
		}
	} else {
		body = "import (\n" + strings.Join(tpl, "\n") + "\n)\n"
	}
	body += "\nvar Started time.Time\n"
	if tplT != "-" {
		body += "\nvar Tracing " + called(tplT, "tracing") + ".T1\n"
	}
	if tplC != "-" {
		body += "\nvar Code " + called(tplC, "codes") + ".T2\n"
	}
	body += "{{range .Interface.Methods}}\ntype {{.Name}} func{{.Signature}}\n{{end}}"

	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\nimport (" + decl + "\n)\n\ntype I interface { Do(" + params + ") }\n" + vars + "\n"},
		world.File{Path: "x/tracing-go/t.go", Src: "package tracing\n\ntype T1 int\n"},
		world.File{Path: "codes/c.go", Src: "package codes\n\ntype T2 int\n"},
	)
	g, err := NewGenerator(Options{
		InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: out, BodyTemplate: body,
		HeaderTemplate: "package {{.Package.Name}}\n\nimport(\n{{range $import := .Options.Imports}}{{$import}}\n\t{{end}}\n)\n",
	})
	v.Assert(err == nil, "the generator is made")
	if err != nil {
		return
	}
	var b bytes.Buffer
	err = g.Generate(&b)
	v.Assert(err == nil, "generation succeeds")
	if err != nil {
		return
	}
	references(b.String(), map[string]string{"Time": "time", "T1": tracing, "T2": codes, "I": "world.local/src"})
	v.Reach(map[bool]string{true: "same", false: "other"}[out == "src/out.go"])
	if srcT == tplT && srcT == "tracing" {
		v.Reach("shared")
	}
}

// Embedded interfaces bring the packages their signatures mention, under whatever names the files that declare them use.
//
//verif:reach same,other,file,package,nested,named
func Verif_C30_embedded() {
	const tracing, codes, emb = "world.local/x/tracing-go", "world.local/codes", "world.local/y/other-dir"
	embAs := v.OneOf("embedded", "", "emb", "al")
	codesAs := v.OneOf("codes", "", "codes", "_c")
	tracAs := v.OneOf("tracing", "", "tr")
	args := v.OneOf("arguments", "T1", "own", "none")
	sel := called(embAs, "emb")
	use := sel + ".Base"
	a, b := "", ""
	switch v.Choice("way", 4) {
	case 0:
		a = "import " + clause(embAs, emb) + "\n\ntype I interface { " + use + " }\n"
		v.Reach("package")
	case 1:
		a = "type I interface { J }\n"
		b = "import " + clause(tracAs, tracing) + "\n\ntype J interface { Own(" + called(tracAs, "tracing") + ".T1, Loc) }\n"
		v.Reach("file")
	case 2:
		a = "type I interface { J }\n"
		b = "import (\n" + clause(embAs, emb) + "\n" + clause(tracAs, tracing) + "\n)\n\ntype J interface { " + use + "\n"
		switch args {
		case "T1":
			b += sel + ".Gen[[]" + called(tracAs, "tracing") + ".T1]\n"
		case "own":
			b += sel + ".Gen[Loc]\n"
		default:
			b += "Own(" + called(tracAs, "tracing") + ".T1)\n"
		}
		b += "}\n"
		v.Reach("nested")
	case 3:
		a = "import " + clause(embAs, emb) + "\n\ntype I " + use + "\n"
		v.Reach("named")
	}
	codesSel := called(codesAs, "codes")
	out := v.OneOf("output", "src/out.go", "dst/out.go")
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\n" + a},
		world.File{Path: "src/b.go", Src: "package src\n\n" + b + "\ntype Loc int\n"},
		world.File{Path: "x/tracing-go/t.go", Src: "package tracing\n\ntype T1 int\n"},
		world.File{Path: "codes/c.go", Src: "package codes\n\ntype T2 int\n\ntype Locker interface { Lock() }\n"},
		world.File{Path: "y/other-dir/e.go", Src: "package emb\n\nimport (\n" + clause(codesAs, codes) + "\n\"time\"\n)\n\ntype Base interface { Do(c " + codesSel + ".T2, t func(time.Time) *Type) Wait; " + codesSel + ".Locker }\n\ntype Gen[A any] interface { G(A, []A) }\n\ntype Wait = time.Duration\n\ntype Type struct{}\n"},
	)
	g, err := NewGenerator(Options{
		InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: out,
		HeaderTemplate: "package {{.Package.Name}}\n\nimport(\n{{range $import := .Options.Imports}}{{$import}}\n\t{{end}}\n)\n",
		BodyTemplate:   "import (\n\"time\"\n)\n\nvar Started time.Time\n{{range .Interface.Methods}}\ntype {{.Name}} func{{.Signature}}\n{{end}}",
	})
	v.Assert(err == nil, "the generator is made")
	if err != nil {
		return
	}
	var buf bytes.Buffer
	err = g.Generate(&buf)
	v.Assert(err == nil, "generation succeeds")
	if err != nil {
		return
	}
	references(buf.String(), map[string]string{"Time": "time", "T1": tracing, "T2": codes, "Wait": emb, "Type": emb, "Loc": "world.local/src"})
	v.Reach(map[bool]string{true: "same", false: "other"}[out == "src/out.go"])
}

// The local prefix puts the packages below it after the others, for every generation anew.
//
//verif:reach local,plain
func Verif_C30_prefix() {
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\nimport (\n\t\"world.local/codes\"\n\t\"time\"\n)\n\ntype I interface { Do(time.Time, codes.T2) }\n"},
		world.File{Path: "x/tracing-go/t.go", Src: "package tracing\n\ntype T1 int\n"},
		world.File{Path: "codes/c.go", Src: "package codes\n\ntype T2 int\n"},
	)
	for round := 0; round < 2; round++ {
		prefix := v.OneOf("prefix", "", "world.local/codes", "world.local/x", "example.com,world.local/codes", "world.local")
		g, err := NewGenerator(Options{
			InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: "src/out.go", LocalPrefix: prefix,
			HeaderTemplate: "package {{.Package.Name}}\n\nimport(\n{{range $import := .Options.Imports}}{{$import}}\n\t{{end}}\n)\n",
			BodyTemplate:   "import (\n\"world.local/x/tracing-go\"\n\"os\"\n\"time\"\n)\n\nvar Started time.Time\n\nvar Tracing tracing.T1\n\nvar File os.File\n{{range .Interface.Methods}}\ntype {{.Name}} func{{.Signature}}\n{{end}}",
		})
		v.Assert(err == nil, "the generator is made")
		if err != nil {
			return
		}
		var b bytes.Buffer
		err = g.Generate(&b)
		v.Assert(err == nil, "generation succeeds")
		if err != nil {
			return
		}
		v.Observe("out", b.String())
		want := []string{"os", "time", "", "world.local/codes", "world.local/x/tracing-go"}
		switch prefix {
		case "world.local/codes", "example.com,world.local/codes":
			want = []string{"os", "time", "", "world.local/x/tracing-go", "", "world.local/codes"}
			v.Reach("local")
		case "world.local/x":
			want = []string{"os", "time", "", "world.local/codes", "", "world.local/x/tracing-go"}
		case "":
			v.Reach("plain")
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, "out.go", b.String(), 0)
		v.Assert(err == nil, "the file is valid Go")
		if err != nil {
			return
		}
		var got []string
		for n, i := range f.Imports {
			if n > 0 && fs.Position(i.Pos()).Line > fs.Position(f.Imports[n-1].Pos()).Line+1 {
				got = append(got, "")
			}
			got = append(got, strings.Trim(i.Path.Value, "\""))
		}
		v.Assert(strings.Join(got, " ") == strings.Join(want, " "), "packages below the local prefix come last")
	}
}
