package logrus

import (
	"context"
	"strings"

	"deco.local/svc"
	"github.com/sirupsen/logrus"

	"verif.local/zv/v"
)

// One call of any method: what is logged before and after it, at which level and with which fields.
//
//verif:reach ok,error,panic
func Verif_C13_logrus() {
	b := &svc.Base{}
	lg := logrus.New()
	e := logrus.NewEntry(lg).WithField("app", "x")
	d := NewSvcWithLogrus(b, e)
	m := v.OneOf("method", svc.Methods...)
	ctx, cancel := svc.Ctx()
	defer cancel()
	arg := svc.Arg("arg", m, ctx)
	ret := svc.Rets("ret", m)
	boom := v.Bool("panics")
	b.Hook = func(svc.Call) svc.Ret {
		v.Assert(len(lg.Records) == 1, "the call is logged before the implementation runs")
		if boom {
			panic("boom")
		}
		return ret
	}
	var got svc.Ret
	p, _ := v.Catch(func() { got = svc.Invoke(d, arg) })
	v.Assert(p == boom, "the implementation's panic and only it reaches the caller")
	v.Assert(len(lg.Records) == 2, "a call logs once before and once after")
	before, after := lg.Records[0], lg.Records[1]
	v.Assert(before.Level == logrus.DebugLevel && strings.Contains(before.Msg, m), "the start of the call is logged with the method's name")
	v.Assert(strings.Contains(after.Msg, m), "the end of the call is logged with the method's name")
	v.Assert(before.Data["app"] == "x" && after.Data["app"] == "x", "the entry's own fields are kept")
	np := map[string]int{"Do": 3, "Plain": 2, "Ask": 2, "Sum": 2, "Fire": 1, "Tick": 0, "Ping": 1, "Fetch": 3, "Check": 2}[m]
	nr := map[string]int{"Do": 3, "Plain": 2, "Ask": 2, "Sum": 1, "Fire": 0, "Tick": 0, "Ping": 1, "Fetch": 2, "Check": 1}[m]
	v.Assert(len(before.Data) == np+1, "every parameter is logged")
	v.Assert(len(after.Data) == nr+1, "every result is logged")
	if svc.HasCtx(m) {
		_, ok := before.Data["ctx"].(context.Context)
		v.Assert(ok, "the parameters are logged by name")
	}
	if m == "Do" || m == "Sum" {
		k := map[string]string{"Do": "n", "Sum": "a"}[m]
		x, ok := before.Data[k].(int)
		v.Assert(ok, "the parameters are logged by name")
		v.Assert(x == arg.I, "the parameters' values are logged")
	}
	if p {
		v.Reach("panic")
		return
	}
	svc.SameRets(got, ret, "logrus")
	if svc.HasErr(m) {
		x, there := after.Data["err"]
		got, _ := x.(error)
		v.Assert(there && got == ret.Err, "the error is logged by name")
	}
	if m == "Do" || m == "Sum" {
		k := map[string]string{"Do": "count", "Sum": "total"}[m]
		x, ok := after.Data[k].(int)
		v.Assert(ok, "the results are logged by name")
		v.Assert(x == ret.I, "the results' values are logged")
	}
	if ret.Err != nil {
		v.Assert(after.Level == logrus.ErrorLevel, "a failed call is logged as an error")
		v.Reach("error")
	} else {
		v.Assert(after.Level == logrus.DebugLevel, "a successful call is logged for debugging only")
		v.Reach("ok")
	}
}
