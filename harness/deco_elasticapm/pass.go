package elasticapm

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_elasticapm() {
	svc.Pass("elasticapm", func(b svc.Svc) svc.Svc { return NewSvcAPMTracing(b, SvcAPMTracingWithUsingSetLabel()) })
}
