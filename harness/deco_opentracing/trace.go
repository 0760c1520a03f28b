package opentracing

import (
	"context"
	"strings"

	"deco.local/svc"
	ot "github.com/opentracing/opentracing-go"
)

func tracing() svc.Tracing {
	return svc.Tracing{
		Spans: func() (r []svc.Span) {
			for _, s := range ot.Recorded {
				x := svc.Span{ID: s, Name: s.Name, Ended: s.Finished}
				if s.Parent != nil {
					x.Parent = s.Parent
				}
				x.Marks = len(s.Tags) + len(s.Logs)
				for _, t := range s.Tags {
					if t.K == "error" && t.V == true {
						x.IsError = true
					}
				}
				for _, f := range s.Logs {
					if f.K == "message" {
						x.Message, _ = f.V.(string)
					}
					if e, ok := f.V.(error); ok && x.Message == "" {
						x.Message = e.Error()
					}
				}
				r = append(r, x)
			}
			return
		},
		Of: func(ctx context.Context) any { return ot.SpanFromContext(ctx).(*ot.Rec) },
		Enter: func(ctx context.Context) (context.Context, any) {
			s, c := ot.StartSpanFromContext(ctx, "outer")
			return c, s.(*ot.Rec)
		},
		Hooks: true,
		Name: func(name, inst, m string) bool {
			return strings.HasPrefix(name, inst+".") && strings.HasSuffix(name, "Svc."+m)
		},
		Make: func(b svc.Svc, inst string, hook func(any, map[string]interface{}, map[string]interface{})) svc.Svc {
			if hook == nil {
				return NewSvcWithTracing(b, inst)
			}
			return NewSvcWithTracing(b, inst, func(s ot.Span, p, r map[string]interface{}) { hook(s.(*ot.Rec), p, r) })
		},
	}
}

//verif:reach hook,error,ok,untraced
func Verif_C11_opentracing() { svc.Trace(tracing()) }
