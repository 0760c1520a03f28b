package gowrap

import (
	"sort"
	"strings"

	"github.com/Masterminds/sprig/v3"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Every function of the library the documentation promises is there.
//
//verif:reach done
func Verif_C36_library() {
	var names []string
	for n := range sprig.TxtFuncMap() {
		names = append(names, n)
	}
	sort.Strings(names)
	names = append(names, "up", "down", "upFirst", "downFirst", "replace", "snake")
	name := v.OneOf("function", names...)
	module(world.File{Path: "tpl/f", Src: "\n{{if .Vars.never}}{{" + name + "}}{{end}}const A = 1\n// END\n"})
	err := run(NewGenerateCommand(theRemote()), &sink{}, "-p", "./src", "-i", "I", "-o", "dst/out.go", "-t", "tpl/f")
	v.Assert(err == nil, "the function is known to templates")
	out, _ := world.Read("dst/out.go")
	v.Assert(strings.HasSuffix(out, "// END\n"), "the whole file is there")
	v.Reach("done")
}

// The library's functions do what they do in the library.
//
//verif:reach done
func Verif_C36_behave() {
	s, t := v.StrOf("s", 2, "azAZ09__"), v.StrOf("t", 1, "azAZ")
	tests := [][2]string{
		{"upper .Vars.s", strings.ToUpper(s)}, {"lower .Vars.s", strings.ToLower(s)},
		{"trimSuffix .Vars.t (print .Vars.s .Vars.t)", s}, {"trimPrefix .Vars.t (print .Vars.t .Vars.s)", s}, {"ternary .Vars.s .Vars.t true", s}, {"ternary .Vars.s .Vars.t false", t},
		{"repeat 2 .Vars.s", s + s}, {"quote .Vars.s", "\"" + s + "\""}, {"cat .Vars.s .Vars.t", s + " " + t}, {"indent 2 .Vars.s", "  " + s},
		{"join \"+\" (list .Vars.s .Vars.t)", s + "+" + t}, {"get (dict \"k\" .Vars.s) \"k\"", s},
		{"hasPrefix .Vars.s (print .Vars.s .Vars.t)", "true"}, {"hasSuffix .Vars.t (print .Vars.s .Vars.t)", "true"}, {"contains .Vars.s .Vars.s", "true"}, {"trim (print \" \" .Vars.s \" \")", s},
		{"substr 0 1 .Vars.s", s[:1]}, {"trunc 1 .Vars.s", s[:1]}, {"len (splitList \"+\" (print .Vars.s \"+\" .Vars.t))", "2"}, {"base (print \"a/\" .Vars.s)", s}, {"dir (print .Vars.s \"/a\")", s},
	}
	n := v.Choice("function", len(tests))
	module(world.File{Path: "tpl/f", Src: "\nconst A = 1\n\n// R<{{" + tests[n][0] + "}}>\n"})
	err := run(NewGenerateCommand(theRemote()), &sink{}, "-p", "./src", "-i", "I", "-o", "dst/out.go", "-t", "tpl/f", "-v", "s="+s, "-v", "t="+t)
	if err != nil {
		v.Observe("err", err.Error())
	}
	v.Assert(err == nil, "the function can be called")
	out, _ := world.Read("dst/out.go")
	v.Assert(v.Contains(out, "// R<"+tests[n][1]+">\n"), "the function does what it is documented to do")
	v.Reach("done")
}
