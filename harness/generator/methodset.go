package generator

import (
	"verif.local/zv/v"
	"verif.local/zv/world"
)

// Any two embedded things from the list, in any order and position.
//
//verif:reach found,refused
func Verif_C17_embedding() {
	a := embeds[v.Choice("first", len(embeds))]
	b := embeds[v.Choice("second", len(embeds))]
	imp := v.OneOf("import", `"world.local/pk"`, `al "world.local/pk"`, `pk "world.local/pk"`)
	embedWorld(a.src, b.src, imp)
	file := v.OneOf("file", "src/out.go", "dst/out.go")
	in, _, err := capture(Options{InterfaceName: "I", SourcePackage: world.ModPath + "/src", OutputFile: file})
	if a.methods == nil || b.methods == nil {
		v.Assert(err != nil, "what cannot be embedded is an error")
		v.Reach("refused")
		return
	}
	v.Assert(err == nil, "every valid interface is accepted")
	want := map[string]sig{"Own": {"[]byte,Loc", "int,error"}}
	for _, e := range []map[string]sig{a.methods, b.methods} {
		for n, s := range e {
			want[n] = s
		}
	}
	checkSet(in, want)
	v.Reach("found")
}
