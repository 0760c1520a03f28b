package log

import (
	"fmt"
	"strings"

	"deco.local/svc"
	"verif.local/zv/v"
)

type sink struct{ lines []string }

func (s *sink) Write(p []byte) (int, error) {
	s.lines = append(s.lines, string(p))
	return len(p), nil
}

// One call of any method: one line before, one after; failures go to the error stream.
//
//verif:reach ok,error,panic
func Verif_C13_log() {
	b := &svc.Base{}
	out, errs := &sink{}, &sink{}
	d := NewSvcWithLog(b, out, errs)
	m := v.OneOf("method", svc.Methods...)
	ctx, cancel := svc.Ctx()
	defer cancel()
	s := v.StrOf("s", 2, "az09")
	n := int(v.I64("n", -50, 50))
	arg := svc.Call{M: m, I: n, J: 5, S: s, Rest: []string{s, "tail"}}
	if svc.HasCtx(m) {
		arg.Ctx = ctx
	}
	text := "failed " + v.StrOf("e", 1, "az")
	ret := svc.Ret{S: v.StrOf("r", 2, "az09"), I: int(v.I64("i", -50, 50))}
	if svc.HasErr(m) && v.Bool("fails") {
		ret.Err = fmt.Errorf("%s", text)
	}
	boom := v.Bool("panics")
	b.Hook = func(svc.Call) svc.Ret {
		v.Assert(len(out.lines) == 1 && len(errs.lines) == 0, "the call is logged before the implementation runs")
		if boom {
			panic("boom")
		}
		return ret
	}
	var got svc.Ret
	p, _ := v.Catch(func() { got = svc.Invoke(d, arg) })
	v.Assert(p == boom, "the implementation's panic and only it reaches the caller")
	v.Assert(len(out.lines)+len(errs.lines) == 2, "a call logs one line before and one after")
	first := out.lines[0]
	v.Assert(strings.Contains(first, m) && strings.HasSuffix(first, "\n"), "the start of the call is logged with the method's name")
	num := fmt.Sprint(n)
	switch m {
	case "Do":
		v.Assert(v.And(v.Contains(first, " "+num+" ["), v.Contains(first, "["+s+" tail]")), "the parameters are logged in order")
	case "Plain":
		v.Assert(v.Contains(first, " "+s+" "), "the parameters are logged in order")
	case "Sum":
		v.Assert(v.Contains(first, " "+num+" 5\n"), "the parameters are logged in order")
	case "Fire":
		v.Assert(v.Contains(first, " "+num+"\n"), "the parameters are logged in order")
	}
	if p {
		v.Reach("panic")
		return
	}
	if ret.Err != nil {
		v.Assert(len(errs.lines) == 1, "a failed call is logged to the error stream")
		last := errs.lines[0]
		v.Assert(strings.Contains(last, m) && v.Contains(last, text), "the error is logged with the method's name")
		v.Reach("error")
		return
	}
	v.Assert(len(errs.lines) == 0, "a successful call is not logged to the error stream")
	last := out.lines[1]
	v.Assert(strings.Contains(last, m), "the end of the call is logged with the method's name")
	switch m {
	case "Do":
		v.Assert(v.Contains(last, " "+ret.S+" "+fmt.Sprint(ret.I)+" <nil>"), "the results are logged in order")
	case "Sum":
		v.Assert(v.Contains(last, " "+fmt.Sprint(ret.I)+"\n"), "the results are logged in order")
	}
	_ = got
	v.Reach("ok")
}
