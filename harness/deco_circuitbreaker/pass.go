package circuitbreaker

import (
	"time"

	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_circuitbreaker() {
	svc.Pass("circuitbreaker", func(b svc.Svc) svc.Svc { return NewSvcWithCircuitBreaker(b, 1, time.Second) })
}
