package opencensus

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_opencensus() {
	svc.Pass("opencensus", func(b svc.Svc) svc.Svc { return NewSvcWithTracing(b, "inst") })
}
