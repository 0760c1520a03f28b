package prometheus

import (
	"time"

	measured "deco.local/prometheus/named"
	"deco.local/svc"
	"github.com/prometheus/client_golang/prometheus"

	"verif.local/zv/v"
)

// label finds the value of a label.
func label(o prometheus.Observation, name string) string {
	for i, n := range o.Names {
		if n == name && i < len(o.Labels) {
			return o.Labels[i]
		}
	}
	return "?"
}

func check(o prometheus.Observation, metric, inst, m string, failed bool, took time.Duration) {
	v.Assert(o.Metric == metric, "the observation belongs to the decorator's metric")
	v.Assert(len(o.Names) == 3 && v.Eq(label(o, "instance_name"), inst), "the observation names the instance")
	v.Assert(label(o, "method") == m, "the observation names the method")
	want := "ok"
	if failed {
		want = "error"
	}
	v.Assert(label(o, "result") == want, "the observation tells whether the call returned an error")
	v.Assert(o.Value == took.Seconds(), "the observation is the duration of the call in seconds")
}

// Two calls of any methods, with any outcome, duration and instance name.
//
//verif:reach ok,error,panic
func Verif_C12_metrics() {
	b := &svc.Base{}
	inst := v.Str("instance", 2)
	named := v.Bool("named")
	var d svc.Svc = NewSvcWithPrometheus(b, inst)
	metric := "svc_duration_seconds"
	if named {
		d = measured.NewMeasured(b, inst)
		metric = "My_metric_S"
	}
	ctx, cancel := svc.Ctx()
	defer cancel()
	for k := 0; k < 2; k++ {
		m := "Check"
		if k == 0 {
			m = v.OneOf("method", svc.Methods...)
		}
		boom := v.Bool("panics")
		took := []time.Duration{0, 1500 * time.Millisecond, 3 * time.Microsecond}[v.Choice("took", 3)]
		ret := svc.Rets("ret", m)
		b.Hook = func(svc.Call) svc.Ret {
			v.Assert(len(prometheus.Recorded) == k, "nothing is observed before the call returns")
			time.Sleep(took)
			if boom {
				panic("boom")
			}
			return ret
		}
		var got svc.Ret
		p, _ := v.Catch(func() { got = svc.Invoke(d, svc.Arg("arg", m, ctx)) })
		v.Assert(p == boom, "the implementation's panic and only it reaches the caller")
		if !p {
			svc.SameRets(got, ret, "prometheus")
		}
		v.Assert(len(prometheus.Recorded) == k+1, "every call is observed exactly once")
		if p {
			v.Assert(label(prometheus.Recorded[k], "method") == m, "the observation names the method")
			v.Reach("panic")
			continue
		}
		failed := ret.Err != nil
		check(prometheus.Recorded[k], metric, inst, m, failed, took)
		if failed {
			v.Reach("error")
		} else {
			v.Reach("ok")
		}
	}
}
