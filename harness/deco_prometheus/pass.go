package prometheus

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_prometheus() {
	svc.Pass("prometheus", func(b svc.Svc) svc.Svc { return NewSvcWithPrometheus(b, "inst") })
}
