package opencensus

import (
	"context"
	"strings"

	"deco.local/svc"
	"go.opencensus.io/trace"
)

func tracing() svc.Tracing {
	return svc.Tracing{
		Spans: func() (r []svc.Span) {
			for _, s := range trace.Recorded {
				x := svc.Span{ID: s, Name: s.Name, Ended: s.Ended}
				if s.Parent != nil {
					x.Parent = s.Parent
				}
				x.Marks = len(s.Attrs)
				for _, a := range s.Attrs {
					if a.K == "error" && a.V == true {
						x.IsError = true
					}
					if a.K == "message" {
						x.Message, _ = a.V.(string)
					}
				}
				if s.St.Code != 0 {
					x.Marks++
				}
				r = append(r, x)
			}
			return
		},
		Of:    func(ctx context.Context) any { return trace.FromContext(ctx) },
		Enter: func(ctx context.Context) (context.Context, any) { c, s := trace.StartSpan(ctx, "outer"); return c, s },
		Hooks: true,
		Name: func(name, inst, m string) bool {
			return strings.HasPrefix(name, inst+".") && strings.HasSuffix(name, "Svc."+m)
		},
		Make: func(b svc.Svc, inst string, hook func(any, map[string]interface{}, map[string]interface{})) svc.Svc {
			if hook == nil {
				return NewSvcWithTracing(b, inst)
			}
			return NewSvcWithTracing(b, inst, func(s *trace.Span, p, r map[string]interface{}) { hook(s, p, r) })
		},
	}
}

//verif:reach hook,error,ok,untraced
func Verif_C11_opencensus() { svc.Trace(tracing()) }
