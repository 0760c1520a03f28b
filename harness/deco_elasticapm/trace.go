package elasticapm

import (
	"context"

	"deco.local/svc"
	"go.elastic.co/apm/v2"

	"verif.local/zv/v"
)

func tracing(opts ...SvcAPMTracingOption) svc.Tracing {
	return svc.Tracing{
		Spans: func() (r []svc.Span) {
			for _, s := range apm.Recorded {
				x := svc.Span{ID: s, Name: s.Name, Ended: s.Ended}
				if s.Parent != nil {
					x.Parent = s.Parent
				}
				for _, e := range apm.Captured {
					if e.Span == s {
						x.Marks++
						if e.Sent == 1 {
							x.IsError = true
							x.Message = e.Err.Error()
						}
					}
				}
				r = append(r, x)
			}
			return
		},
		Of: func(ctx context.Context) any { return apm.SpanFromContext(ctx) },
		Enter: func(ctx context.Context) (context.Context, any) {
			s, c := apm.StartSpan(ctx, "outer", "t")
			return c, s
		},
		Name: func(name, inst, m string) bool { return name == "svc."+m },
		Make: func(b svc.Svc, inst string, hook func(any, map[string]interface{}, map[string]interface{})) svc.Svc {
			return NewSvcAPMTracing(b, opts...)
		},
	}
}

//verif:reach error,ok,untraced
func Verif_C11_elasticapm() { svc.Trace(tracing()) }

// Labels are set when asked for, one per parameter; the span type can be chosen.
//
//verif:reach labels,none
func Verif_C11_elasticapm_labels() {
	b := &svc.Base{}
	m := v.OneOf("method", "Do", "Ask", "Ping", "Fetch")
	ctx, cancel := svc.Ctx()
	defer cancel()
	arg := svc.Arg("arg", m, ctx)
	var opts []SvcAPMTracingOption
	labels := v.Bool("labels")
	if labels {
		opts = append(opts, SvcAPMTracingWithUsingSetLabel())
	}
	typ := "svc"
	if v.Bool("type") {
		typ = "t" + v.Str("typ", 1)
		opts = append(opts, SvcAPMTracingWithSpanType(typ))
	}
	d := NewSvcAPMTracing(b, opts...)
	svc.Invoke(d, arg)
	s := apm.Recorded[0]
	v.Assert(v.Eq(s.Type, typ), "the span has the chosen type, the component's name by default")
	if !labels {
		v.Assert(len(s.Context.Labels) == 0, "labels are set only when asked for")
		v.Reach("none")
		return
	}
	np := map[string]int{"Do": 2, "Ask": 1, "Ping": 0, "Fetch": 2}[m]
	v.Assert(len(s.Context.Labels) == np, "every parameter but the context becomes a label")
	for _, l := range s.Context.Labels {
		if l.Key == "n" || l.Key == "k" {
			n, ok := l.Value.(int)
			v.Assert(ok, "labels have the parameters' values")
			v.Assert(n == arg.I, "labels have the parameters' values")
		}
	}
	v.Reach("labels")
}

// With other names for the decorator and the component.
//
//verif:reach error,ok,untraced
func Verif_C11_elasticapm_named() {
	t := tracing()
	t.Make = func(b svc.Svc, inst string, hook func(any, map[string]interface{}, map[string]interface{})) svc.Svc {
		return NewRenamed(b, RenamedWithSpanType("x"))
	}
	t.Name = func(name, inst, m string) bool { return name == "comp."+m }
	svc.Trace(t)
}
