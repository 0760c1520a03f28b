package generator

import (
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// comment makes the comments of a method: what stands before it, and the lines of its own comment.
func comment(label string) (src string, doc []string) {
	if v.Bool(label + ".apart") {
		src = "\t// not about it\n\n"
	}
	switch v.Choice(label+".doc", 5) {
	case 1:
		doc = []string{"// " + v.StrOf(label+".text", 2, "az  //**")}
	case 2:
		doc = []string{"//" + v.StrOf(label+".text", 1, "az::"), "//go:noinline", "// end"}
	case 3:
		doc = []string{"/* " + v.StrOf(label+".text", 1, "az  ") + " */"}
	case 4:
		doc = []string{"/*\n\tlong\n*/", "// and short"}
	}
	for _, d := range doc {
		src += "\t" + d + "\n"
	}
	return
}

func sameTexts(got, want []string) bool {
	ok := len(got) == len(want)
	if ok {
		for i := range want {
			ok = v.And(ok, v.Eq(got[i], want[i]))
		}
	}
	return ok
}

// Any comments before and behind methods, own ones and those of embedded interfaces.
//
//verif:reach doc,trailing,none
func Verif_C33_comments() {
	before, doc := comment("m")
	behind := ""
	var trail []string
	switch v.Choice("behind", 3) {
	case 1:
		trail = []string{"// " + v.StrOf("trail", 2, "az  ")}
		behind = " " + trail[0]
	case 2:
		trail = []string{"/* a */", "// b"}
		behind = " /* a */ // b"
	}
	where := v.OneOf("where", "own", "embedded", "file", "package", "generic")
	// a neighbour with comments of its own, before or after
	other := "\t// other\n\tZ() // behind other\n"
	sig := "M(n int, " + v.OneOf("arg", "s string", "fs ...func(k int) /* inner */ error") + ") (k int, err error)"
	first := before + "\t" + sig + behind + "\n" + other
	if v.Bool("second") {
		first = other + before + "\t" + sig + behind + "\n"
	}
	fs := []world.File{}
	decl := "package src\n\n"
	switch where {
	case "own":
		decl += "// I is the interface\ntype I interface { // opening\n" + first + "\t// closing\n}\n"
	case "embedded":
		decl += "type I interface {\n\t// about E\n\tE // behind E\n}\n\n// E is embedded\ntype E interface {\n" + first + "}\n"
	case "generic":
		decl += "type I interface {\n\t// about E\n\tE[int] // behind E\n}\n\ntype E[T any] interface {\n" + first + "}\n"
	case "file":
		decl += "type I interface {\n\t// about E\n\tE // behind E\n}\n"
		fs = append(fs, world.File{Path: "src/other.go", Src: "package src\n\ntype E interface {\n" + first + "}\n"})
	case "package":
		decl += "import \"" + world.ModPath + "/emb\"\n\ntype I interface {\n\t// about E\n\temb.E // behind E\n}\n"
		fs = append(fs, world.File{Path: "emb/emb.go", Src: "package emb\n\ntype E interface {\n" + first + "}\n"})
	}
	world.Setup(append(fs, world.File{Path: "src/src.go", Src: decl})...)
	out := v.OneOf("out", "src/out.go", "dst/out.go")
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: out})
	v.Assert(err == nil, "the interface is accepted")
	if err != nil {
		return
	}
	m, ok := in.Interface.Methods["M"]
	v.Assert(ok, "the method is found")
	v.Assert(sameTexts(m.Doc, doc), "the method carries the lines of its own comment in order")
	v.Assert(sameTexts(m.Comment, trail), "the method carries the comments behind it in order")
	z := in.Interface.Methods["Z"]
	v.Assert(sameTexts(z.Doc, []string{"// other"}) && sameTexts(z.Comment, []string{"// behind other"}), "other methods carry their own comments")
	if len(doc) > 0 {
		v.Reach("doc")
	}
	if len(trail) > 0 {
		v.Reach("trailing")
	}
	if len(doc)+len(trail) == 0 {
		v.Reach("none")
	}
}
