package generator

import (
	"bytes"
	"strings"
	"text/template"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// between finds the text between the brackets that follow a mark.
func between(src, mark string) (string, bool) {
	i := strings.Index(src, mark+"<<")
	if i < 0 || strings.Contains(src[i+1:], mark+"<<") {
		return "", false
	}
	src = src[i+len(mark)+2:]
	i = strings.Index(src, ">>")
	if i < 0 {
		return "", false
	}
	return src[:i], true
}

// Both templates see the options and the interface as they are.
//
//verif:reach own,other,generic,done
func Verif_C36_data() {
	apiWorld()
	text, head, local := v.StrOf("text", v.Bound(2, 3), "?~"), v.StrOf("head", 1, "?~"), v.StrOf("local", 1, "az")
	num, flag := v.Choice("num", 3)-1, v.Bool("flag")
	name := v.OneOf("interface", "I", "G", "K")
	alias := v.OneOf("alias", "", "al")
	file := v.OneOf("file", "src/out.go", "dst/out.go", "dst/deep/out.go")
	calls := 0
	o := Options{
		InterfaceName: name, SourcePackage: world.ModPath + "/src", SourcePackageAlias: alias, OutputFile: file, LocalPrefix: local,
		Vars:       map[string]interface{}{"text": text, "num": num, "flag": flag, "list": []string{"p", text}, "nested": map[string]interface{}{"k": text}},
		HeaderVars: map[string]interface{}{"h": head, "n": num},
		Funcs: template.FuncMap{
			"own":  func(s string, n int) string { calls++; return strings.Repeat(s, n) },
			"vari": func(xs ...string) int { return len(xs) },
		},
		HeaderTemplate: "package {{.Package.Name}}\n\n/*\nA<<{{.SourcePackage.Name}}>>\nB<<{{.SourcePackage.PkgPath}}>>\nC<<{{.Vars.text}}>>\nD<<{{.Options.InterfaceName}}>>\nE<<{{.Options.OutputFile}}>>\n" +
			"F<<{{.Options.HeaderVars.h}}>>\nG<<{{own .Vars.text 2}}>>\nH<<{{.Options.LocalPrefix}}>>\nI<<{{.Options.HeaderVars.n}} {{.Vars.num}}>>\nJ<<{{.Package.Name}}>>\n*/\n",
		BodyTemplate: "/*\na<<{{.Interface.Name}}>>\nb<<{{.Interface.Type}}>>\nc<<{{.Vars.text}}>>\nd<<{{.Vars.num}}>>\ne<<{{if .Vars.flag}}yes{{else}}no{{end}}>>\nf<<{{index .Vars.list 1}}>>\ng<<{{.Vars.nested.k}}>>\n" +
			"h<<{{own .Vars.nested.k 3}}>>\ni<<{{vari}} {{vari .Vars.text \"x\"}}>>\nj<<{{len .Interface.Methods}}>>\nk<<{{range $n, $m := .Interface.Methods}}{{$n}}={{$m.Name}} {{end}}>>\nl<<{{.Interface.Generics.Types}}>>\nm<<{{.Interface.Generics.Params}}>>\nn<<{{len .Vars}}>>\n*/\n",
	}
	g, err := NewGenerator(o)
	v.Assert(err == nil, "the generator is made")
	if err != nil {
		return
	}
	v.Assert(calls == 0, "nothing is executed before it is asked for")
	var b bytes.Buffer
	err = g.Generate(&b)
	v.Assert(err == nil, "generation succeeds")
	src := b.String()
	v.Observe("out", src)
	dst, typ := "src", name
	if file != "src/out.go" {
		dst = "dst"
		if file == "dst/deep/out.go" {
			dst = "deep"
		}
		v.Reach("other")
	} else {
		v.Reach("own")
	}
	yes := map[bool]string{true: "yes", false: "no"}[flag]
	n := map[int]string{-1: "-1", 0: "0", 1: "1"}[num]
	methods := map[string]string{"I": "M=M N=N ", "G": "M=M ", "K": "O=O "}[name]
	for _, x := range [][2]string{
		{"A", "src"}, {"B", world.ModPath + "/src"}, {"C", text}, {"D", name}, {"E", file}, {"F", head}, {"G", text + text}, {"H", local}, {"I", n + " " + n}, {"J", dst},
		{"a", name}, {"c", text}, {"d", n}, {"e", yes}, {"f", text}, {"g", text}, {"h", text + text + text}, {"i", "0 2"}, {"j", map[bool]string{true: "2", false: "1"}[name == "I"]}, {"k", methods}, {"n", "5"},
	} {
		got, ok := between(src, x[0])
		v.Assert(ok && v.Eq(got, x[1]), "the templates see the options and the interface as they are")
	}
	if got, ok := between(src, "b"); dst == "src" {
		v.Assert(ok && got == typ, "in its own package the interface's type is its name")
	} else {
		if alias != "" {
			typ = alias + "." + typ
			v.Assert(ok && got == typ, "the interface's type is qualified by the alias asked for")
		}
		v.Assert(ok && strings.HasSuffix(got, "."+name) && len(got) > len(name)+1, "in another package the interface's type is qualified")
	}
	types, ok := between(src, "l")
	params, ok2 := between(src, "m")
	v.Assert(ok && ok2, "the templates see the options and the interface as they are")
	if name == "G" {
		v.Assert(strings.ReplaceAll(params, " ", "") == "[A,B]" && strings.ReplaceAll(types, " ", "") == "[Aany,B~int]", "the type parameters are there")
		v.Reach("generic")
	} else {
		v.Assert(params == "" && types == "", "an interface without type parameters has none")
	}
	v.Assert(strings.Index(src, "J<<") < strings.Index(src, "a<<") && strings.HasPrefix(src, "package "), "the header comes first")
	v.Reach("done")
}
