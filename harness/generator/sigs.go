package generator

import (
	"strings"

	"verif.local/zv/v"
)

// sig is the expected shape of a method: parameter and result types, packages of other packages' types left out.
type sig struct{ params, results string }

func (m Method) verifSig() sig {
	f := func(ps ParamsSlice) string {
		var r []string
		for _, p := range ps {
			t := p.Type
			if i := strings.LastIndex(t, "."); i >= 0 {
				t = t[i+1:]
			}
			r = append(r, t)
		}
		return strings.Join(r, ",")
	}
	return sig{f(m.Params), f(m.Results)}
}

func checkSet(in TemplateInputs, want map[string]sig) {
	ms := in.Interface.Methods
	v.Assert(len(ms) == len(want), "the methods are exactly the interface's method set")
	for n, s := range want {
		m, ok := ms[n]
		v.Assert(ok && m.Name == n, "every method of the interface is there under its name")
		if ok {
			v.Assert(m.verifSig() == s, "every method has its own signature")
		}
	}
}
