package ratelimit

import (
	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_ratelimit() {
	svc.Pass("ratelimit", func(b svc.Svc) svc.Svc { return NewSvcWithRateLimit(b, 1, 10) })
}
