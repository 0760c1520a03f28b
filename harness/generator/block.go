package generator

import (
	"go/parser"
	"sort"

	"verif.local/zv/v"
)

type imported struct{ name, path string }

// block reads an import block.
func block(s string) (r []imported, lines []string) {
	f, err := parser.ParseFile(fset(), "x.go", "package x\n"+s, parser.ImportsOnly)
	v.Assert(err == nil, "the import block is valid Go")
	if err != nil {
		return
	}
	v.Assert(len(f.Decls) <= 1, "there is one import block")
	for _, i := range f.Imports {
		name := ""
		if i.Name != nil {
			name = i.Name.Name
		}
		p := i.Path.Value
		v.Assert(len(p) > 2 && p[0] == '"' && p[len(p)-1] == '"', "every path is quoted")
		r = append(r, imported{name, p[1 : len(p)-1]})
		l := p
		if name != "" {
			l = name + " " + p
		}
		lines = append(lines, l)
	}
	return
}

func checkBlock(out string, want []imported) {
	got, lines := block(out)
	for i, g := range got {
		for _, h := range got[:i] {
			v.Assert(v.Or(!v.Eq(g.name, h.name), !v.Eq(g.path, h.path)), "no import is there twice")
		}
		found := false
		for _, w := range want {
			found = v.Or(found, v.And(v.Eq(g.name, w.name), v.Eq(g.path, w.path)))
		}
		v.Assert(found, "nothing else is imported")
	}
	for _, w := range want {
		found := false
		for _, g := range got {
			found = v.Or(found, v.And(v.Eq(g.name, w.name), v.Eq(g.path, w.path)))
		}
		v.Assert(found, "every import is there")
	}
	v.Assert(sort.StringsAreSorted(lines), "the imports are sorted")
}
