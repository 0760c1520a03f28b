package timeout

import (
	"time"

	"deco.local/svc"
)

//verif:reach panic,returned
func Verif_C01_timeout() {
	svc.Pass("timeout", func(b svc.Svc) svc.Svc {
		return NewSvcWithTimeout(b, SvcWithTimeoutConfig{DoTimeout: time.Second, AskTimeout: time.Second, PingTimeout: time.Second})
	})
}
