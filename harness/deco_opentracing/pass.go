package opentracing

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_opentracing() {
	svc.Pass("opentracing", func(b svc.Svc) svc.Svc { return NewSvcWithTracing(b, "inst") })
}
