package opentelemetry

import (
	"context"
	"strings"

	"deco.local/svc"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
)

func tracing() svc.Tracing {
	return svc.Tracing{
		Spans: func() (r []svc.Span) {
			for _, s := range trace.Recorded {
				x := svc.Span{ID: s, Name: s.Tracer + "|" + s.Name, Ended: s.Ended}
				if s.Parent != nil {
					x.Parent = s.Parent
				}
				x.Marks = len(s.Attrs) + len(s.Errs)
				if s.Status != codes.Unset {
					x.Marks++
				}
				x.IsError = s.Status == codes.Error && len(s.Errs) == 1
				x.Message = s.Desc
				r = append(r, x)
			}
			return
		},
		Of: func(ctx context.Context) any { return trace.SpanFromContext(ctx).(*trace.Rec) },
		Enter: func(ctx context.Context) (context.Context, any) {
			c, s := trace.T{}.Start(ctx, "outer")
			return c, s.(*trace.Rec)
		},
		Hooks: true,
		Name: func(name, inst, m string) bool {
			return strings.HasPrefix(name, inst+"|") && strings.HasSuffix(name, "Svc."+m)
		},
		Make: func(b svc.Svc, inst string, hook func(any, map[string]interface{}, map[string]interface{})) svc.Svc {
			if hook == nil {
				return NewSvcWithTracing(b, inst)
			}
			return NewSvcWithTracing(b, inst, func(s trace.Span, p, r map[string]interface{}) { hook(s.(*trace.Rec), p, r) })
		},
	}
}

//verif:reach hook,error,ok,untraced
func Verif_C11_opentelemetry() { svc.Trace(tracing()) }
