package retry

import (
	"time"

	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_retry() {
	svc.Pass("retry", func(b svc.Svc) svc.Svc { return NewSvcWithRetry(b, 0, time.Second) })
}
