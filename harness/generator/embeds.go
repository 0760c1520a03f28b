package generator

import (
	"strings"

	"verif.local/zv/world"
)

// embeds are things an interface may embed, with the methods they bring; nil means that generation must fail.
var embeds = []struct {
	src     string
	methods map[string]sig
}{
	{"", map[string]sig{}},
	{"Sib", map[string]sig{"SibM": {"int", "string"}}},
	{"Far", map[string]sig{"FarM": {"Loc", "int"}}},
	{"FarSel", map[string]sig{"FarSelM": {"", ""}, "OtherM": {"Q", "error"}}},
	{"FarPk", map[string]sig{"AltM": {"int", ""}}},
	{"Chain", map[string]sig{"ChainM": {"", "bool"}, "SibM": {"int", "string"}, "FarM": {"Loc", "int"}}},
	{"@.Base", map[string]sig{"BaseM": {"T", ""}}},
	{"@.Deep", map[string]sig{"DeepM": {"", ""}, "OtherM": {"Q", "error"}, "BaseM": {"T", ""}}},
	{"interface{ InlM(x int8) }", map[string]sig{"InlM": {"int8", ""}}},
	{"interface{ Sib; @.Base }", map[string]sig{"SibM": {"int", "string"}, "BaseM": {"T", ""}}},
	{"(Sib)", map[string]sig{"SibM": {"int", "string"}}},
	{"error", map[string]sig{"Error": {"", "string"}}},
	{"any", map[string]sig{}},
	{"interface{}", map[string]sig{}},
	{"Missing", nil},
	{"Str", nil},
	{"@.Missing", nil},
	{"@.Str", nil},
	{"nope.X", nil},
}

// embedWorld is a module with an interface that embeds the two things; the packages use clashing names on purpose.
func embedWorld(a, b, imp string) {
	sel := "pk"
	if strings.Contains(imp, " ") {
		sel, _, _ = strings.Cut(imp, " ")
	}
	r := func(s string) string { return strings.ReplaceAll(s, "@", sel) }
	world.Setup(
		world.File{Path: "src/a.go", Src: "package src\n\nimport (\n\t\"sync\"\n\t" + imp + "\n)\n\nvar _ sync.Locker\nvar _ " + sel + ".T\n\n" +
			"type I interface {\n\t" + r(a) + "\n\tOwn(b []byte, l Loc) (n int, err error)\n\t" + r(b) + "\n}\n\ntype Sib interface{ SibM(n int) string }\n\ntype Str struct{}\n"},
		world.File{Path: "src/b.go", Src: "package src\n\nimport (\n\tal \"world.local/ot-dir\"\n\tpk \"world.local/alt/pk\"\n)\n\n" +
			"type Loc int\n\ntype Far interface{ FarM(Loc) int }\n\ntype FarSel interface {\n\tal.Other\n\tFarSelM()\n}\n\ntype FarPk interface{ pk.Base }\n\n" +
			"type Chain interface {\n\tChainM() bool\n\tSib\n\tFar\n}\n"},
		world.File{Path: "pk/pk.go", Src: "package pk\n\nimport al \"world.local/ot-dir\"\n\ntype T int\n\ntype Str struct{}\n\ntype Base interface{ BaseM(T) }\n\ntype Deep interface {\n\tal.Other\n\tBase\n\tDeepM()\n}\n"},
		world.File{Path: "alt/pk/pk.go", Src: "package pk\n\ntype Base interface{ AltM(int) }\n"},
		world.File{Path: "ot-dir/ot.go", Src: "package ot\n\ntype Q int\n\ntype Other interface{ OtherM(Q) error }\n"},
	)
}
