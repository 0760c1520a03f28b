package generator

import (
	"strings"

	"verif.local/zv/tyg"
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Any names for the methods, the types they mention and the interfaces they come from.
//
//verif:opt paths=200000
//verif:reach same,refused,fine
func Verif_C18_unexported() {
	own, emb, hid := v.Ident("own", 2), v.Ident("emb", 2), v.Ident("hid", 2)
	base := v.OneOf("base", "Base", "base")
	for _, s := range []string{own, emb, hid} {
		// digits keep the names from being keywords and from meaning something else
		v.Assume(v.And(v.In(s[1], "19"), !v.Eq(s, "I1")))
	}
	v.Assume(!v.Eq(own, emb))
	n, later := 0, false
	typ := tyg.Gen("t", 1, func(l string) string {
		n++
		if n == 1 {
			later = v.Bool("later")
			if !later {
				return v.OneOf("mention", "H", hid, "int", "sync.Locker")
			}
		} else if later {
			return hid
		}
		return "string"
	})
	where := v.OneOf("where", "param", "result", "embedded")
	ownSig, embSig := "()", "()"
	switch where {
	case "param":
		ownSig = "(x " + typ + ")"
	case "result":
		ownSig = "() (" + typ + ")"
	default:
		embSig = "(y int, x " + typ + ")"
	}
	decl := "package src\nimport \"sync\"\nvar _ sync.Locker\ntype I interface { " + own + ownSig + "; " + base + " }\ntype H int\ntype " + hid + " int\n"
	world.Setup(
		world.File{Path: "src/a.go", Src: decl},
		world.File{Path: "src/b.go", Src: "package src\ntype " + base + " interface { " + emb + embSig + " }\n"},
	)
	same := v.Bool("same")
	file := "dst/out.go"
	if same {
		file = "src/out.go"
	}
	in, out, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	mentioned := false
	if f, ok := tyg.Parse(typ); ok {
		for _, id := range tyg.Names(f) {
			mentioned = v.Or(mentioned, v.Eq(id.Name, hid))
		}
	}
	up := func(s string) bool { return v.In(s[0], "AZ") }
	if same {
		v.Assert(err == nil, "nothing is refused in the own package")
		v.Assert(len(in.Interface.Methods) == 2, "all methods are there")
		v.Reach("same")
		return
	}
	ok := v.And(v.And(up(own), up(emb)), v.Or(up(hid), !mentioned))
	v.Assert((err == nil) == ok, "exactly unexported methods and mentions of unexported types are refused")
	if err != nil {
		v.Assert(out == "", "a refused interface produces nothing")
		v.Reach("refused")
		return
	}
	v.Reach("fine")
}

// Any form of declaration of the unexported type and any place it is mentioned at.
//
//verif:reach same,refused,fine
func Verif_C18_forms() {
	name := v.OneOf("name", "hid", "Hid", "_hid")
	decl := v.OneOf("decl", "type % int", "type % = int", "type % = *H", "type % struct{ f int }", "type % interface{ m() }", "type % = interface{ m() }", "type % func(%) %", "type % = map[string]H",
		"type (\n\tOther int\n\t% string\n)", "type (\n\t% = string\n\tAnother int\n)", "const H2 = 1\n\ntype % [H2]%2\n\ntype %2 int", "func init() {}\n\ntype % H")
	decl = strings.ReplaceAll(decl, "%", name)
	mention := v.OneOf("mention", "%", "*%", "[]%", "map[%]int", "map[string]%", "chan %", "<-chan %", "func(%)", "func() %", "struct{ F % }", "interface{ M(%) }", "[2]%", "H", "string")
	has := strings.Contains(mention, "%")
	mention = strings.ReplaceAll(mention, "%", name)
	i := ""
	switch v.Choice("where", 5) {
	case 0:
		i = "type I interface{ M(x " + mention + ") }"
	case 1:
		i = "type I interface{ M() (" + mention + ", error) }"
	case 2:
		i = "type I interface{ M(...int); N(a, b int, c ..." + mention + ") }"
	case 3:
		i = "type I interface{ J }\n\ntype J interface{ M(" + mention + ") }"
	case 4:
		i = "type I = J\n\ntype J interface{ M() " + mention + " }"
	}
	files := []world.File{{Path: "src/a.go", Src: "package src\n\ntype H int\n\n" + i + "\n"}, {Path: "src/b.go", Src: "package src\n\n" + decl + "\n"}}
	if v.Bool("first") {
		files[0].Path, files[1].Path = files[1].Path, files[0].Path
	}
	world.Setup(files...)
	file := v.OneOf("file", "dst/out.go", "src/out.go")
	in, out, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	if file == "src/out.go" {
		v.Assert(err == nil && len(in.Interface.Methods) > 0, "nothing is refused in the own package")
		v.Reach("same")
		return
	}
	v.Assert((err == nil) == (name == "Hid" || !has), "exactly unexported methods and mentions of unexported types are refused")
	if err != nil {
		v.Assert(out == "", "a refused interface produces nothing")
		v.Reach("refused")
		return
	}
	v.Reach("fine")
}
