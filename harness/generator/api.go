package generator

import (
	"errors"
	"strings"
	"text/template"

	"github.com/hexdigest/gowrap/pkg"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

type flaky struct {
	got  []byte
	fail error
	n    int
}

func (f *flaky) Write(b []byte) (int, error) {
	f.n++
	if f.fail != nil {
		return 0, f.fail
	}
	f.got = append(f.got, b...)
	return len(b), nil
}

// Whatever goes wrong, and wherever, is reported and nothing is written; otherwise everything is.
//
//verif:reach written,refused,stopped,broken,writer
func Verif_C35_whole() {
	apiWorld()
	fill := "x" + v.StrOf("text", 1, "az__")
	text := "package {{.Package.Name}}\n"
	stop := func(s string) (string, error) { return "", errors.New(s) }
	fail := errors.New("no space left")
	bad := v.OneOf("wrong", "", "parse", "name", "function", "field", "stop", "method", "panic", "format", "clause", "writer")
	header, body := text, "var "+fill+"x {{.Interface.Type}}\n"
	switch bad {
	case "parse":
		body += "{{if}}"
	case "name":
		body += "{{template \"gone\"}}"
	case "function":
		body += "{{gone 1}}"
	case "field":
		body += "{{.Gone}}"
	case "stop":
		body += "{{stop \"halt\"}}"
	case "method":
		body += "{{range .Interface.Methods}}var _ int\n{{.Gone}}{{end}}"
	case "panic":
		body += "{{index .Vars 5}}"
	case "format":
		body += "func {\n"
	case "clause":
		header = "{{.Package.Name}}\n"
	}
	if v.Bool("header") {
		v.Assume(bad == "parse" || bad == "name" || bad == "function" || bad == "stop" || bad == "panic")
		header, body = header+"// "+strings.TrimPrefix(body, "var "+fill+"x {{.Interface.Type}}\n")+"\n", "var "+fill+"x {{.Interface.Type}}\n"
	}
	w := &flaky{}
	if bad == "writer" {
		w.fail = fail
	}
	g, err := NewGenerator(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: "src/out.go", HeaderTemplate: header, BodyTemplate: body, Funcs: template.FuncMap{"stop": stop}})
	switch bad {
	case "parse", "function":
		v.Assert(err != nil && g == nil, "a wrong template is refused")
		v.Reach("refused")
		return
	}
	v.Assert(err == nil, "the generator is made")
	err = g.Generate(w)
	switch bad {
	case "":
		v.Assert(err == nil, "generation succeeds")
		v.Assert(v.Contains(string(w.got), "package src\n") && v.Contains(string(w.got), "var "+fill+"x I\n"), "everything is written")
		v.Reach("written")
	case "writer":
		v.Assert(errors.Is(err, fail) || err != nil && strings.Contains(err.Error(), fail.Error()), "a write error is reported")
		v.Reach("writer")
	case "format", "clause":
		v.Assert(err != nil && len(w.got) == 0 && w.n == 0, "what is not Go is reported and not written")
		v.Reach("broken")
	default:
		v.Assert(err != nil && len(w.got) == 0 && w.n == 0, "a template that fails is reported and nothing is written")
		if bad == "stop" {
			v.Assert(strings.Contains(err.Error(), "halt"), "the template's own message is reported")
		}
		v.Reach("stopped")
	}
}

// job is what a generator is made for.
func job(label string, shared Options) Options {
	o := shared
	o.InterfaceName = v.OneOf(label+".interface", "I", "G", "K")
	o.OutputFile = v.OneOf(label+".file", "src/out.go", "dst/out.go")
	o.SourcePackage = world.ModPath + "/src"
	return o
}

func source(g *Generator) string {
	w := &flaky{}
	err := g.Generate(w)
	v.Assert(err == nil, "generation succeeds")
	return string(w.got)
}

func make1(o Options) *Generator {
	o.HeaderTemplate = "package {{.Package.Name}} // {{.SourcePackage.Name}} {{.Options.InterfaceName}} {{.Vars}} {{.Options.HeaderVars}}\n"
	o.BodyTemplate = "/*\n" + all + "*/\n"
	g, err := NewGenerator(o)
	v.Assert(err == nil, "the generator is made")
	return g
}

// Generators made with the same options do not influence each other, and a generator can be used again.
//
//verif:opt paths=200000
//verif:reach done
func Verif_C35_apart() {
	apiWorld()
	fresh := func() Options {
		o := Options{Vars: map[string]interface{}{"k": "v"}, HeaderVars: map[string]interface{}{"h": 1}, Funcs: template.FuncMap{"f": strings.ToUpper}}
		if n := v.Bound(2, 3); v.Choice("capacity", 3) > 0 { // none of its own, full or with room for more
			o.Imports = make([]string, n, n+8*(v.Choice("room", 2)))
			for i := range o.Imports {
				o.Imports[i] = []string{"\"os\"", "z \"os\"", "\"io\""}[i]
			}
		}
		return o
	}
	shared := fresh()
	kept := append([]string(nil), shared.Imports[:cap(shared.Imports)]...)
	a, b := job("a", shared), job("b", shared)
	ga := make1(a)
	first := source(ga)
	gb := make1(b)
	other := source(gb)
	v.Assert(source(ga) == first, "a generator makes the same source again, whatever others do")
	v.Assert(source(make1(a)) == first && source(make1(b)) == other, "generators made alike make the same source")
	v.Assert(source(gb) == other, "a generator makes the same source again, whatever others do")
	for i, k := range kept {
		v.Assert(shared.Imports[:cap(shared.Imports)][i] == k, "the caller's options are left alone")
	}
	v.Assert(len(shared.Vars) == 1 && shared.Vars["k"] == "v" && len(shared.HeaderVars) == 1 && shared.HeaderVars["h"] == 1 && len(shared.Funcs) == 1, "the caller's options are left alone")
	v.Reach("done")
}

// A package may be named or loaded before.
//
//verif:reach done
func Verif_C35_loaded() {
	apiWorld()
	o := job("a", Options{})
	want := source(make1(o))
	p, err := pkg.Load(v.OneOf("path", "world.local/src", "./src"))
	v.Assert(err == nil, "the package is found")
	o.SourcePackageInstance = p
	if v.Bool("nothing else") {
		o.SourcePackage = ""
	}
	v.Assert(source(make1(o)) == want, "a loaded package gives the same source as its path")
	v.Assert(source(make1(o)) == want, "a loaded package can be used again")
	v.Reach("done")
}
