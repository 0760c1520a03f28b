package wide

import (
	"errors"
	"io"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"
	"go.elastic.co/apm/v2"
	octrace "go.opencensus.io/trace"
	oteltrace "go.opentelemetry.io/otel/trace"

	"deco.local/svc"
	"verif.local/zv/v"
)

func marked(err error) (int, bool) {
	var m *svc.Mark
	if errors.As(err, &m) {
		return m.N, true
	}
	return 0, false
}

// Decorators without a condition of their own, or whose condition is met, shared by two goroutines.
//
//verif:opt preempt=2 preemptT=3
//verif:reach end
func Verif_C37_shared() {
	second := time.Second
	opentracing.Silent, prometheus.Silent, logrus.Silent, apm.Silent, octrace.Silent, oteltrace.Silent = true, true, true, true, true, true
	fails := v.Bool("fails")
	b := svc.Pure(fails)
	mk := []func() svc.Wide{
		func() svc.Wide { return NewWideWithCircuitBreaker(b, 3, second) },
		func() svc.Wide { return NewWideAPMTracing(b, WideAPMTracingWithUsingSetLabel()) },
		func() svc.Wide { return NewWideWithGRPCValidation(b) },
		func() svc.Wide { return NewWideWithLog(b, io.Discard, io.Discard) },
		func() svc.Wide { return NewWideWithLogrus(b, logrus.NewEntry(logrus.New())) },
		func() svc.Wide { return NewWideWithTracing(b, "inst") },
		func() svc.Wide { return NewWideOtel(b, "inst") },
		func() svc.Wide { return NewWideOpentracing(b, "inst") },
		func() svc.Wide { return NewWideWithPrometheus(b, "inst") },
		func() svc.Wide { return NewWideWithRateLimit(b, 2, 10) },
		func() svc.Wide { return NewWideWithRetry(b, 1, second) },
		func() svc.Wide { return MustNewWideRoundRobinPool(b) },
		func() svc.Wide { return NewWidePool(b) },
		func() svc.Wide {
			return NewWideWithTimeout(b, WideWithTimeoutConfig{OnlyTimeout: second, SwapTimeout: second})
		},
		func() svc.Wide { return NewWideWithTwirpValidation(b) },
		func() svc.Wide { return NewWideWithValidation(b) },
	}
	i := v.Choice("decorator", len(mk))
	svc.Together("shared", mk[i](), fails, marked)
}

// jsonMarshal stands in for encoding/json.Marshal inside the engine: what a request looks like doesn't matter here.
//
//verif:replace encoding/json.Marshal
func jsonMarshal(x any) ([]byte, error) { return []byte("{}"), nil }

//verif:opt preempt=2 preemptT=4
//verif:reach end
func Verif_C37_twirp() {
	fails := v.Bool("fails")
	svc.Together("twirp_error", NewWideWithTwirpError(svc.Pure(fails)), fails, marked)
}

//verif:opt preempt=0 preemptT=1
//verif:reach end
func Verif_C37_fallback() {
	svc.Together("fallback", NewWideWithFallback(time.Second, svc.Pure(false)), false, marked)
}

// Retries of one caller are not those of another.
//
//verif:opt preempt=1 preemptT=2 advances=3
//verif:reach gaveup,succeeded
func Verif_C37_retry() {
	a, b := &svc.Obj{N: 1}, &svc.Obj{N: 2}
	f := &svc.Flaky{Fails: map[any]int{a: v.Choice("a", 3), b: v.Choice("b", 3)}}
	want := map[any]int{a: f.Fails[a], b: f.Fails[b]}
	d := NewWideWithRetry(f, 1, time.Second)
	done := make(chan bool)
	call := func(o *svc.Obj) {
		n := want[o]
		x, err := d.Any(o, o)
		if n > 1 {
			k, ok := marked(err)
			v.Assert(ok && k == o.N, "a caller gets the error of its own call")
		} else {
			v.Assert(err == nil && x == any(o), "a caller gets the results of its own call")
		}
		done <- true
	}
	go call(a)
	go call(b)
	<-done
	<-done
	for o, n := range want {
		left := n - 2
		if n < 2 {
			left = -1
		}
		v.Assert(f.Fails[o] == left, "every caller's attempts are its own")
		if n > 1 {
			v.Reach("gaveup")
		} else {
			v.Reach("succeeded")
		}
	}
}
