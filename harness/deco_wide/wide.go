package wide

import (
	"io"
	"time"

	"github.com/sirupsen/logrus"

	"deco.local/svc"
	"verif.local/zv/v"
)

// Methods of unusual shapes through every decorator.
//
//verif:reach panic,returned
func Verif_C01_shapes() {
	second := time.Second
	mk := []func(b svc.Wide) svc.Wide{
		func(b svc.Wide) svc.Wide { return NewWideWithCircuitBreaker(b, 1, second) },
		func(b svc.Wide) svc.Wide { return NewWideAPMTracing(b, WideAPMTracingWithUsingSetLabel()) },
		func(b svc.Wide) svc.Wide { return NewWideWithGRPCValidation(b) },
		func(b svc.Wide) svc.Wide { return NewWideWithLog(b, io.Discard, io.Discard) },
		func(b svc.Wide) svc.Wide { return NewWideWithLogrus(b, logrus.NewEntry(logrus.New())) },
		func(b svc.Wide) svc.Wide { return NewWideWithTracing(b, "inst") },
		func(b svc.Wide) svc.Wide { return NewWideOtel(b, "inst") },
		func(b svc.Wide) svc.Wide { return NewWideOpentracing(b, "inst") },
		func(b svc.Wide) svc.Wide { return NewWideWithPrometheus(b, "inst") },
		func(b svc.Wide) svc.Wide { return NewWideWithRateLimit(b, 1, 10) },
		func(b svc.Wide) svc.Wide { return NewWideWithRetry(b, 0, second) },
		func(b svc.Wide) svc.Wide { return MustNewWideRoundRobinPool(b) },
		func(b svc.Wide) svc.Wide { return NewWidePool(b) },
		func(b svc.Wide) svc.Wide {
			return NewWideWithTimeout(b, WideWithTimeoutConfig{OnlyTimeout: second, SwapTimeout: second})
		},
		func(b svc.Wide) svc.Wide { return NewWideWithTwirpValidation(b) },
		func(b svc.Wide) svc.Wide { return NewWideWithValidation(b) },
	}
	i := v.Choice("decorator", len(mk))
	svc.WidePass("shapes", mk[i])
}

//verif:reach panic,returned
func Verif_C01_shapes_twirp() {
	svc.WidePassWith("twirp_error", func(b svc.Wide) svc.Wide { return NewWideWithTwirpError(b) }, false, v.Bool("panics"))
}

//verif:reach returned
func Verif_C01_shapes_fallback() {
	svc.WidePassWith("fallback", func(b svc.Wide) svc.Wide { return NewWideWithFallback(time.Second, b) }, false, false)
}
