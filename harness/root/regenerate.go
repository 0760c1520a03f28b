package gowrap

import (
	"fmt"
	"path"
	"strings"

	"verif.local/zv/v"
	"verif.local/zv/world"
)

// variable is one of the template's variables and the value it is given.
type variable struct {
	name  string
	value any
}

// regenerate runs the go:generate line of the output and expects the same output again.
func regenerate(out string, args []string, prefix string, vals ...variable) {
	err := run(NewGenerateCommand(theRemote()), &sink{}, args...)
	if err != nil {
		v.Observe("err1", err.Error())
	}
	v.Assert(err == nil, "the command succeeds")
	if err != nil {
		return
	}
	first, ok := world.Read(out)
	v.Assert(ok, "the output file is there")
	for _, x := range vals {
		v.Assert(v.Contains(first, "\nconst V_"+x.name+" = "+fmt.Sprintf("%#v", x.value)+"\n"), "the template gets the variables with their values")
	}
	ls := lines(first)
	v.Assert(len(ls) == 1, "there is exactly one go:generate line")
	if len(ls) != 1 {
		return
	}
	ws, ok := words(ls[0])
	v.Assert(ok && len(ws) > 2 && ws[0] == "gowrap" && ws[1] == "gen", "the line is a gowrap command")
	world.Chdir(path.Dir(out))
	again := NewGenerateCommand(theRemote())
	err = run(again, &sink{}, ws[2:]...)
	if err != nil {
		v.Observe("err", err.Error())
		v.Observe("first", first)
	}
	v.Assert(err == nil, "the go:generate line runs")
	if l := again.FlagSet().Lookup("l"); l != nil {
		v.Assert(v.Eq(l.Value.String(), prefix), "the go:generate line has the same local prefix")
	}
	second, _ := world.Read(out)
	v.Assert(v.Eq(first, second), "the go:generate line reproduces the file")
	v.Reach("regenerated")
}

// Any template reference, output file, source package form and local prefix.
//
//verif:reach regenerated,without
func Verif_C22_references() {
	module()
	tpl := v.OneOf("template", "tpl/wrap", "./tpl/wrap", "tpl/my wrap", "wrapped", "https://host/wrapped", "http://host/x/wrapped?a=b c&$d")
	out := v.OneOf("out", "src/out.go", "dst/out.go", "dst/deep/er/out.go", "./src/a b.go", "other/my $x.go", "src/../src/o.go")
	in := v.OneOf("package", "./src", "world.local/src", "")
	var args []string
	if in == "" {
		world.Chdir("src")
		out = strings.TrimPrefix(out, "./")
		if strings.HasPrefix(tpl, "tpl/") {
			tpl = "../" + tpl
		}
		v.Assume(tpl != "./tpl/wrap")
		args = []string{"-i", "I", "-t", tpl, "-o", "../" + out}
	} else {
		args = []string{"-p", in, "-i", "I", "-o", out, "-t", tpl}
	}
	if v.Bool("g") {
		err := run(NewGenerateCommand(theRemote()), &sink{}, append([]string{"-g"}, args...)...)
		if err != nil {
			v.Observe("err1", err.Error())
		}
		v.Assert(err == nil, "the command succeeds")
		src, ok := world.Read(path.Clean(out))
		v.Assert(ok && !strings.Contains(src, "go:generate"), "with -g there is no go:generate line")
		v.Reach("without")
		return
	}
	regenerate(path.Clean(out), args, "")
}

// Any values of variables and the local prefix.
//
//verif:opt paths=400000
//verif:reach regenerated
func Verif_C22_values() {
	module()
	args := []string{"-p", "./src", "-i", "I", "-o", "dst/out.go", "-t", "tpl/wrap"}
	var vals []variable
	set := func(name string, value any) {
		for i := range vals {
			if vals[i].name == name {
				vals[i].value = value // the later value counts
				return
			}
		}
		vals = append(vals, variable{name, value})
	}
	give := func(name, value string) {
		args = append(args, "-v", name+"="+value)
		set(name, value)
	}
	prefix := ""
	switch v.Choice("kind", 5) {
	case 0:
		give("a", v.StrUpTo("value", v.Bound(2, 3)))
	case 1:
		f := v.OneOf("flag", "b", "a", "b=x", "b=", "b==", "b=y=", "")
		flag := func() {
			args = append(args, "-v", f)
			if n, val, ok := strings.Cut(f, "="); ok {
				set(n, val)
			} else {
				set(n, true)
			}
		}
		before := v.Bool("before")
		if before {
			flag()
		}
		give("a", v.Str("value", 1))
		if !before {
			flag()
		}
		give("c", v.OneOf("other", "", "x", "a b", "$a"))
	case 2:
		prefix = v.StrUpTo("prefix", v.Bound(2, 3))
		args = append(args, "-l", prefix)
	case 3:
		give("Name", v.OneOf("name", "Own", "Other"))
		prefix = "a,b c"
		args = append(args, "-l", prefix)
	case 4:
		give("a", v.OneOf("long", "$x", "${DOLLAR}", "a$", "$$", "a b", "-l \"x\"", "//go:generate no", "x\n//go:generate no", "\\", "\"", "é\u00a0\u2028", "\xff\xfe", "`", "'q'", "%s", "{{.}}", "a=b=c"))
	}
	regenerate("dst/out.go", args, prefix, vals...)
}
