package generator

import (
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// letter is any upper case identifier of two bytes.
func letter(label string) string {
	s := v.Str(label, 2)
	v.Assume(v.And(v.In(s[0], "AZ"), v.Or(v.In(s[1], "az"), v.In(s[1], "09"))))
	return s
}

// Any names of methods and embedded interfaces: the right interface is found and equal methods merge.
//
//verif:reach merged,distinct,refused
func Verif_C17_names() {
	near, far, ref := letter("near"), letter("far"), letter("ref")
	own, m1, m2 := letter("own"), letter("m1"), letter("m2")
	v.Assume(v.And(!v.Eq(near, far), v.And(near[1] != '0', far[1] != '0')))
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\ntype I interface { " + own + "(x int) bool; " + ref + " }\ntype " + near + " interface { " + m1 + "(x int) bool }\n"},
		world.File{Path: "src/b.go", Src: "package src\ntype " + far + " interface { " + m2 + "(x int) bool; Extra() }\n"},
	)
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: "src/out.go"})
	isNear, isFar := v.Eq(ref, near), v.Eq(ref, far)
	v.Assert((err == nil) == v.Or(isNear, isFar), "exactly unknown embedded types are refused")
	if err != nil {
		v.Reach("refused")
		return
	}
	other, n := m1, 2
	if isFar {
		other, n = m2, 3
	}
	if own == other {
		n--
		v.Reach("merged")
	} else {
		v.Reach("distinct")
	}
	ms := in.Interface.Methods
	v.Assert(len(ms) == n, "the methods are exactly the interface's method set")
	for _, name := range []string{own, other} {
		m, ok := ms[name]
		v.Assert(ok && v.Eq(m.Name, name), "every method of the interface is there under its name")
		v.Assert(len(m.Params) == 1 && m.Params[0].Type == "int" && len(m.Results) == 1, "every method has its own signature")
	}
	_, extra := ms["Extra"]
	v.Assert(extra == isFar, "all methods of the embedded interface are there")
}

// An interface declared through another type has that type's methods.
//
//verif:reach found
func Verif_C17_declared() {
	imp := v.OneOf("import", `"world.local/pk"`, `al "world.local/pk"`, `"world.local/ot-dir"`)
	eq := v.OneOf("form", "", "= ")
	target := v.OneOf("target", "Sib", "pk.Base", "al.Base", "ot.Other")
	ok := target == "Sib" || (target == "pk.Base" && imp == `"world.local/pk"`) || (target == "al.Base" && imp[0] == 'a') || (target == "ot.Other" && imp == `"world.local/ot-dir"`)
	v.Assume(ok)
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\nimport " + imp + "\ntype I " + eq + target + "\ntype Sib interface{ SibM(n int) string }\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\ntype T int\ntype Base interface{ BaseM(T); Second }\ntype Second interface { SecondM() }\n"},
		world.File{Path: "ot-dir/ot.go", Src: "package ot\ntype Q int\ntype Other interface{ OtherM(Q) error }\n"},
	)
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: v.OneOf("file", "src/out.go", "dst/out.go")})
	v.Assert(err == nil, "every valid interface is accepted")
	switch target {
	case "Sib":
		checkSet(in, map[string]sig{"SibM": {"int", "string"}})
	case "ot.Other":
		checkSet(in, map[string]sig{"OtherM": {"Q", "error"}})
	default:
		checkSet(in, map[string]sig{"BaseM": {"T", ""}, "SecondM": {"", ""}})
	}
	v.Reach("found")
}

// Any two imports, renamed or not, of packages whose names differ from their paths: the selected package is the one Go selects.
//
//verif:reach found,embedded
func Verif_C17_imports() {
	names := []string{"", "a", "b", "c", "_", "."}
	paths := []string{"x/a", "y/a", "x/b-dir"} // packages a, b, c
	pkgs := []string{"a", "b", "c"}
	n1, n2 := v.OneOf("name1", names...), v.OneOf("name2", names...)
	p1, p2 := v.Choice("path1", 3), v.Choice("path2", 3)
	sel := v.OneOf("select", "a", "b", "c")
	embedded := v.Bool("embedded")
	visible := func(n string, p int) string {
		if n == "" {
			return pkgs[p]
		}
		return n
	}
	v1, v2 := visible(n1, p1), visible(n2, p2)
	v.Assume(p1 != p2)
	v.Assume(v1 != v2 || v1 == "_" || v1 == ".") // Go refuses one name for two packages
	spec := func(n string, p int) string { return "import " + n + " \"world.local/" + paths[p] + "\"\n" }
	// used so that Go accepts the file
	use := ""
	i := "type I " + sel + ".J\n"
	if embedded {
		i = "type I interface { Own(); " + sel + ".J }\n"
	}
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n" + spec(n1, p1) + spec(n2, p2) + i + use},
		world.File{Path: "x/a/f.go", Src: "package a\ntype J interface{ InA(int) }\ntype A int\n"},
		world.File{Path: "y/a/f.go", Src: "package b\ntype J interface{ InB() error }\ntype B int\n"},
		world.File{Path: "x/b-dir/f.go", Src: "package c\ntype J interface{ InC(bool) }\ntype C int\n"},
	)
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: "dst/out.go"})
	at := -1
	if v1 == sel {
		at = p1
	}
	if v2 == sel {
		at = p2
	}
	v.Assume(at >= 0) // Go refuses the rest, only a dot import of the right package could make it mean something
	v.Assert(err == nil, "every valid interface is accepted")
	want := map[string]sig{}
	switch at {
	case 0:
		want["InA"] = sig{"int", ""}
	case 1:
		want["InB"] = sig{"", "error"}
	default:
		want["InC"] = sig{"bool", ""}
	}
	if embedded {
		want["Own"] = sig{"", ""}
		v.Reach("embedded")
	}
	checkSet(in, want)
	v.Reach("found")
}
