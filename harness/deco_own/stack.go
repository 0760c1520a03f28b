package own

import (
	"context"
	"io"
	"time"

	"github.com/sirupsen/logrus"

	"verif.local/zv/v"
)

type small struct {
	calls int
	ctx   context.Context
	err   error
	boom  bool
}

func (s *small) Do(ctx context.Context) error {
	s.calls++
	s.ctx = ctx
	if s.boom {
		panic("boom")
	}
	return s.err
}

var tinies = []func(b tiny) tiny{
	func(b tiny) tiny { return NewtinyWithCircuitBreaker(b, 1, time.Second) },
	func(b tiny) tiny { return NewtinyAPMTracing(b) },
	func(b tiny) tiny { return NewtinyWithGRPCValidation(b) },
	func(b tiny) tiny { return NewtinyWithLog(b, io.Discard, io.Discard) },
	func(b tiny) tiny { return NewtinyWithLogrus(b, logrus.NewEntry(logrus.New())) },
	func(b tiny) tiny { return NewtinyWithTracing(b, "inst") },
	func(b tiny) tiny { return Newtinyopentelemetry(b, "inst") },
	func(b tiny) tiny { return Newtinyopentracing(b, "inst") },
	func(b tiny) tiny { return NewtinyWithPrometheus(b, "inst") },
	func(b tiny) tiny { return NewtinyWithRateLimit(b, 1, 10) },
	func(b tiny) tiny { return NewtinyWithRetry(b, 0, time.Second) },
	func(b tiny) tiny { return MustNewtinyRoundRobinPool(b) },
	func(b tiny) tiny { return NewtinyPool(b) },
	func(b tiny) tiny { return NewtinyWithTimeout(b, tinyWithTimeoutConfig{DoTimeout: time.Second}) },
	func(b tiny) tiny { return NewtinyWithTwirpValidation(b) },
	func(b tiny) tiny { return NewtinyWithTwirpError(b) },
	func(b tiny) tiny { return NewtinyWithValidation(b) },
}

// The decorators under names of the user's choice.
var renamed = []func(b tiny) tiny{
	func(b tiny) tiny { return NewNcircuitbreaker(b, 1, time.Second) },
	func(b tiny) tiny { return NewNelasticapm(b) },
	func(b tiny) tiny { return NewNgrpc_validate(b) },
	func(b tiny) tiny { return NewNlog(b, io.Discard, io.Discard) },
	func(b tiny) tiny { return NewNlogrus(b, logrus.NewEntry(logrus.New())) },
	func(b tiny) tiny { return NewNopencensus(b, "inst") },
	func(b tiny) tiny { return NewNopentelemetry(b, "inst") },
	func(b tiny) tiny { return NewNopentracing(b, "inst") },
	func(b tiny) tiny { return NewNratelimit(b, 1, 10) },
	func(b tiny) tiny { return NewNretry(b, 0, time.Second) },
	func(b tiny) tiny { return MustNewNrobinpool(b) },
	func(b tiny) tiny { return NewNsyncpool(b) },
	func(b tiny) tiny { return NewNtimeout(b, NtimeoutConfig{DoTimeout: time.Second}) },
	func(b tiny) tiny { return NewNtwirp_validate(b) },
	func(b tiny) tiny { return NewNtwirp_error(b) },
	func(b tiny) tiny { return NewNvalidate(b) },
}

// A decorator around a decorator forwards as each of them does.
//
//verif:reach panic,returned
func Verif_C01_stacked() {
	n := int(v.I64("n", -1<<31, 1<<31))
	s := &small{boom: v.Bool("panics")}
	if v.Bool("fails") {
		s.err = errBase
	}
	i, j := v.Choice("outer", len(tinies)), v.Choice("inner", len(renamed))
	v.Assume(s.err == nil || s.boom || i != 15 && j != 14) // twirp errors are errors of their own
	d := tinies[i](renamed[j](s))
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, n))
	defer cancel()
	var err error
	panicked, val := v.Catch(func() { err = d.Do(ctx) })
	v.Assert(s.calls == 1, "the implementation is called exactly once")
	v.Assert(s.ctx.Value(key{}) == any(n), "the context is the caller's or one derived from it")
	if s.boom {
		b, _ := val.(string)
		v.Assert(panicked && b == "boom", "a panic of the implementation reaches the caller")
		v.Reach("panic")
		return
	}
	v.Assert(!panicked && err == s.err, "the caller gets the implementation's error")
	v.Reach("returned")
}

//verif:reach returned
func Verif_C01_stacked_fallback() {
	s := &small{}
	var a tiny = NewtinyWithFallback(time.Second, s)
	if v.Bool("renamed") {
		a = NewNfallback(time.Second, a)
	}
	n := int(v.I64("n", -1<<31, 1<<31))
	err := a.Do(context.WithValue(context.Background(), key{}, n))
	v.Assert(s.calls == 1 && err == nil, "the implementation is called exactly once")
	v.Assert(s.ctx.Value(key{}) == any(n), "the context is the caller's or one derived from it")
	v.Reach("returned")
}
