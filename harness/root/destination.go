package gowrap

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Any names of directories and packages, existing or not: the file joins the package of its directory and names the
// interface as that package has to.
//
//verif:opt paths=200000
//verif:reach own,other,new,refused
func Verif_C31_destination() {
	const tpl = "{{.Import}}\ntype Dec struct{ base {{.Interface.Type}} }\nconst Name = {{printf \"%q\" .Interface.Name}}\n"
	where := v.OneOf("where", "lib", "there", "new", "deep/new", "there/below", ".", "lib/below", ".there", "testdata", "_there")
	decl := v.OneOf("interface", "Iface", "X")
	pk := "pack"
	existing := "x"
	hidden := where == ".there" || where == "testdata" || where == "_there" // left out of patterns, but packages
	if strings.HasPrefix(where, "there") || hidden {
		existing = v.OneOf("existing", "there", "tt", "main", "pack", "")
		v.Assume(!hidden || existing == "tt" || existing == "pack")
	}
	switch {
	case where == "lib":
		pk = "q" + v.StrOf("package", v.Bound(2, 3), "az09__")
	case existing == "":
		pk = v.OneOf("name", "q", "a_", "Lib") + v.StrOf("package", 1, "yz01__")
		existing = pk
	}
	fs := []world.File{
		{Path: "tpl/t", Src: tpl},
		{Path: "lib/lib.go", Src: "package " + pk + "\n\ntype " + decl + " interface{ M(n int) error }\n\ntype Other interface{ N() }\n"},
	}
	dstName := ""
	switch where {
	case "lib":
		dstName = pk
	case "there", "there/below", ".there", "testdata", "_there":
		in := "there"
		if hidden {
			in = where
		}
		file := in + "/x.go"
		clause := "package " + existing
		content := "\n\nimport _ \"fmt\"\n"
		switch v.Choice("content", 5) {
		case 1:
			file = in + "/x_test.go"
		case 2:
			file, clause = in+"/x_test.go", clause+"_test"
		case 3:
			content = "\n\nimport _ \"world.local/missing\"\n"
		case 4:
			content = "\n\nfunc broken() {\n"
		}
		fs = append(fs, world.File{Path: file, Src: clause + content})
		dstName = existing
	}
	switch where {
	case "new", "deep/new":
		dstName = "new"
	case "there/below", "lib/below":
		dstName = "below"
	}
	world.Setup(fs...)
	out := where + "/out.go"
	t, p := "tpl/t", "./lib"
	if decl == "X" {
		p = "world.local/lib"
	}
	switch v.Choice("out", 4) {
	case 1:
		out = "./" + out
	case 2:
		out = where + "/../" + path.Base(where) + "/out.go"
		v.Assume(where != ".")
	case 3:
		v.Assume(where == "lib" || where == "there" || where == ".there")
		world.Chdir(where)
		out, t = "out.go", "../tpl/t"
		if p == "./lib" {
			p = "../lib"
		}
	}
	err := run(NewGenerateCommand(theRemote()), &sink{}, "-p", p, "-i", decl, "-t", t, "-o", out)
	if where == "." {
		// there is neither a package nor a directory name to take
		v.Assert(err != nil, "without a name for the package the command fails")
		v.Reach("refused")
		return
	}
	if err != nil {
		v.Observe("err", err.Error())
	}
	v.Assert(err == nil, "the command succeeds")
	if err != nil {
		return
	}
	src, ok := world.Read(where + "/out.go")
	if !ok {
		src, ok = world.Read("out.go")
	}
	v.Assert(ok, "the output is in its directory")
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", src, 0)
	v.Assert(err == nil, "the output parses")
	if err != nil {
		return
	}
	v.Assert(v.Eq(f.Name.Name, dstName), "the file joins the package of its directory, which is named like the directory if there is none")
	sel := ""
	for _, im := range f.Imports {
		v.Assert(im.Path.Value == "\"world.local/lib\"", "only the source package is imported")
		sel = pk
		if im.Name != nil {
			sel = im.Name.Name
		}
	}
	var typ ast.Expr
	name := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.StructType:
			typ = x.Fields.List[0].Type
		case *ast.ValueSpec:
			name = x.Values[0].(*ast.BasicLit).Value
		}
		return true
	})
	v.Assert(name == "\""+decl+"\"", "the template gets the interface's name")
	if where == "lib" {
		id, ok := typ.(*ast.Ident)
		v.Assert(ok && id.Name == decl && len(f.Imports) == 0, "in the package that declares it the interface is named without a selector")
		v.Reach("own")
		return
	}
	se, ok := typ.(*ast.SelectorExpr)
	v.Assert(ok && se.Sel.Name == decl, "in another package the interface is named with a selector")
	if ok {
		x, ok := se.X.(*ast.Ident)
		v.Assert(ok && v.Eq(x.Name, sel) && sel != "", "the selector is that of the source package's import")
	}
	if (strings.HasPrefix(where, "there") || hidden) && dstName != "below" {
		v.Reach("other")
	} else {
		v.Reach("new")
	}
}

// Any name of a directory without a package.
//
//verif:reach package,refused
func Verif_C31_directory() {
	dir := v.OneOf("first", "d", "D", "_d", "9", "") + v.StrOf("dir", v.Bound(2, 3), "az09__--") + v.OneOf("last", "", "_test", ".v2", "go", "-go")
	at := v.OneOf("below", "", "other/", "src/", "a_b-c/") + dir
	for _, taken := range []string{"dst", "src", "tpl", "go", "if", "for", "var", "map", "func", "case", "chan", "else", "goto", "type", "break", "const", "defer", "range"} {
		v.Assume(!v.Eq(dir, taken))
	}
	module()
	out := at + "/out.go"
	if at == dir {
		out = at + "/" + v.OneOf("file", "out.go", "out_test.go")
	}
	err := run(NewGenerateCommand(theRemote()), &sink{}, "-p", "./src", "-i", "I", "-t", "tpl/wrap", "-o", out)
	name := true
	for i := 0; i < len(dir); i++ {
		c := dir[i]
		letter := v.Or(c == '_', v.Or(v.In(c, "az"), v.In(c, "AZ")))
		if i > 0 {
			letter = v.Or(letter, v.In(c, "09"))
		}
		name = v.And(name, letter)
	}
	src, has := world.Read(out)
	v.Assert((err == nil) == has, "the output is there exactly when the command succeeds")
	if name {
		v.Assert(has, "a directory's name makes a package")
	}
	if !has {
		v.Reach("refused")
		return
	}
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", src, parser.PackageClauseOnly)
	v.Assert(err == nil && v.Eq(f.Name.Name, dir), "a directory without a package gives it its own name")
	v.Reach("package")
}

// Any -v options: templates get each variable with the last of its values.
//
//verif:opt paths=200000
//verif:reach text,true,again
func Verif_C32_variables() {
	module(world.File{Path: "tpl/vars", Src: "\n{{range $k, $v := .Vars}}const V_{{len $k}}_{{printf \"%x\" $k}} = {{printf \"%#v\" $v}}\n{{end}}\nconst END = {{len .Vars}}\n"})
	args := []string{"-p", "./src", "-i", "I", "-o", "dst/out.go", "-t", "tpl/vars"}
	type kv struct {
		k string
		v any
	}
	var want []kv
	n := 1 + v.Choice("n", v.Bound(2, 3))
	for i := 0; i < n; i++ {
		label := string(rune('a' + i))
		s := v.StrOf(label, 1+v.Choice(label+".len", v.Bound(2+n%2, 3)), "ac==")
		v.Assume(s[0] >= 'a')
		if i == 0 && v.Bool("joined") {
			args = append(args, "-v="+s)
		} else {
			args = append(args, "-v", s)
		}
		x := kv{s, true}
		for j := 0; j < len(s); j++ {
			if s[j] == '=' {
				x = kv{s[:j], s[j+1:]}
				break
			}
		}
		if _, ok := x.v.(string); ok {
			v.Reach("text")
		} else {
			v.Reach("true")
		}
		for j := range want {
			if want[j].k == x.k {
				want = append(want[:j], want[j+1:]...)
				v.Reach("again")
				break
			}
		}
		want = append(want, x)
	}
	err := run(NewGenerateCommand(theRemote()), &sink{}, args...)
	if err != nil {
		v.Observe("err", err.Error())
	}
	v.Assert(err == nil, "the command succeeds")
	src, _ := world.Read("dst/out.go")
	for _, x := range want {
		val := "true"
		if s, ok := x.v.(string); ok {
			val = "\"" + s + "\""
		}
		v.Assert(v.Contains(src, "const V_"+digit(len(x.k))+"_"+hex(x.k)+" = "+val+"\n"), "every variable has the last value it is given")
	}
	v.Assert(v.Contains(src, "const END = "+digit(len(want))+"\n"), "there are no other variables")
}

// Any text as a variable's value, and any name with one.
//
//verif:opt paths=100000
//verif:reach text,true
func Verif_C32_bytes() {
	module(world.File{Path: "tpl/vars", Src: "\n{{range $k, $v := .Vars}}// {{printf \"%x\" $k}} {{printf \"%T %x\" $v $v}};\n{{end}}\n// END {{len .Vars}};\n"})
	key, val := "k", ""
	switch v.Choice("kind", 4) {
	case 0:
		val = v.StrUpTo("value", v.Bound(1, 2))
	case 1:
		key = v.Str("key", v.Bound(1, 2))
		for i := 0; i < len(key); i++ {
			v.Assume(key[i] != '=')
		}
		val = v.OneOf("text", "x", "")
	case 2:
		val = v.OneOf("word", "true", "false", "nil", "0", "1.5", "T", "\"q\"", "'q'", "`q`", " x ", "\tx", "x\n", "a,b", "a=b", "=", "==x", "[]", "{{.}}", "$HOME", "%d", "\\", "é", "日本")
	default:
		key = v.OneOf("word", "true", "Name", "a b", "\"k\"", " k ", "-v", "K", "k,l", "é", "%s", "$k")
		val = "x"
	}
	arg, want := key+"="+val, "string "+hex(val)
	if val == "" && v.Bool("alone") {
		arg, want = key, "bool %!x(bool=true)"
		v.Reach("true")
	} else {
		v.Reach("text")
	}
	args := []string{"-p", "./src", "-i", "I", "-o", "dst/out.go", "-t", "tpl/vars"}
	if v.Bool("joined") {
		args = append(args, "-v="+arg)
	} else {
		args = append(args, "-v", arg)
	}
	err := run(NewGenerateCommand(theRemote()), &sink{}, args...)
	v.Assert(err == nil, "the command succeeds")
	src, _ := world.Read("dst/out.go")
	v.Assert(v.Contains(src, "// "+hex(key)+" "+want+";\n"), "every variable has the text after the first equal sign")
	v.Assert(strings.Contains(src, "// END 1;\n"), "there are no other variables")
}

func digit(n int) string { return string(rune('0' + n)) }

func hex(s string) string {
	const d = "0123456789abcdef"
	var r string
	for i := 0; i < len(s); i++ {
		r += string(d[s[i]>>4]) + string(d[s[i]&15])
	}
	return r
}
