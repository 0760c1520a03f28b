package opentelemetry

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_opentelemetry() {
	svc.Pass("opentelemetry", func(b svc.Svc) svc.Svc { return NewSvcWithTracing(b, "inst") })
}
