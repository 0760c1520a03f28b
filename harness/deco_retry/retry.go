package retry

import (
	"context"
	"errors"
	"time"

	"deco.local/svc"
	"verif.local/zv/v"
)

var errMethods = []string{"Do", "Plain", "Ping", "Fetch", "Check"}

// attempts scripts the implementation: attempt k fails when the input fails.<k> says so.
type script struct {
	b     *svc.Base
	rets  []svc.Ret
	at    []time.Time
	onTry func(k int)
}

func newScript(m string, n int) *script {
	s := &script{b: &svc.Base{}}
	s.b.Hook = func(c svc.Call) svc.Ret {
		k := len(s.rets)
		v.Assert(k <= n || k == 0, "no more than 1+retries attempts")
		r := svc.Rets("ret", m)
		s.rets = append(s.rets, r)
		s.at = append(s.at, time.Now())
		if s.onTry != nil {
			s.onTry(k)
		}
		return r
	}
	return s
}

// Every sequence of failing and succeeding attempts, any retry count in the bound, any interval.
//
//verif:reach exhausted,recovered,noretry
func Verif_C02_attempts() {
	n := v.Choice("retries", v.Bound(4, 5)) - 1
	iv := time.Duration(v.I64("interval", 1, 1<<40))
	m := v.OneOf("method", errMethods...)
	s := newScript(m, n)
	d := NewSvcWithRetry(s.b, n, iv)
	ctx, cancel := svc.Ctx()
	defer cancel()
	arg := svc.Arg("arg", m, ctx)
	got := svc.Invoke(d, arg)
	end := time.Now()

	k := len(s.rets)
	v.Assert(k >= 1, "the implementation is called")
	for i := 0; i < k; i++ {
		svc.SameArgs(s.b.Calls[i], arg, "retry")
		if svc.HasCtx(m) {
			v.Assert(svc.Carried(s.b.Calls[i].Ctx), "every attempt gets the caller's context")
		}
		if i < k-1 {
			v.Assert(s.rets[i].Err != nil, "only a failed attempt is retried")
			v.Assert(s.at[i+1].Sub(s.at[0]) >= time.Duration(i+1)*iv, "an attempt does not start before its turn")
			v.Assert(s.at[i+1].Sub(s.at[i]) <= iv, "retries are not delayed by more than the interval")
		}
	}
	last := s.rets[k-1]
	svc.SameRets(got, last, "retry: the last attempt")
	v.Assert(last.Err == nil || k == 1+max(n, 0), "attempts go on until one succeeds or the retries are used up")
	v.Assert(end.Equal(s.at[k-1]), "the call returns as soon as the last attempt does")
	v.Assert(v.Goroutines() == 0, "nothing is left running")
	v.Observe("attempts", k)
	switch {
	case last.Err == nil && k > 1:
		v.Reach("recovered")
	case last.Err != nil && k > 1:
		v.Reach("exhausted")
	default:
		v.Reach("noretry")
	}
}

// The context ends while the decorator waits for the next attempt, or while an attempt runs.
//
//verif:reach waiting,during
func Verif_C02_cancel() {
	n := v.Choice("retries", 3) + 1
	m := v.OneOf("method", "Do", "Ping", "Fetch")
	iv := time.Duration(v.I64("interval", 1, 1<<40))
	s := newScript(m, n)
	d := NewSvcWithRetry(s.b, n, iv)
	var cancelled time.Time
	ctx, cancel := svc.Ctx()
	defer cancel()
	during := v.Choice("during", 3) // attempt that ends the context, 2 for none
	after := time.Duration(v.I64("after", 0, 1<<42))
	if during == 2 {
		ctx2, c2 := context.WithTimeout(ctx, after)
		defer c2()
		ctx = ctx2
		cancelled = time.Now().Add(after)
	}
	s.onTry = func(k int) {
		if k == during {
			cancelled = time.Now()
			cancel()
		}
	}
	arg := svc.Arg("arg", m, ctx)
	got := svc.Invoke(d, arg)
	end := time.Now()
	k := len(s.rets)
	svc.SameRets(got, s.rets[k-1], "retry: the last attempt")
	if s.rets[k-1].Err == nil || k == 1+n {
		return
	}
	// attempts were left: only the end of the context explains the return
	v.Assert(ctx.Err() != nil, "attempts stop early only when the context is done")
	v.Assert(!cancelled.IsZero() && (end.Equal(cancelled) || during == 2), "the end of the context ends the waiting at once")
	if during == 2 {
		if end.Equal(cancelled) {
			v.Reach("waiting")
		} else {
			v.Assert(!end.Before(cancelled) && end.Equal(s.at[k-1]), "the end of the context ends the waiting at once")
		}
	} else {
		v.Assert(k == during+1, "no attempt starts after the context is done")
		v.Reach("during")
	}
}

// An ended context stops the attempts when ticks have piled up during a slow attempt only if it is picked; but an attempt
// that outlasts the interval is still followed by the next one, never by two at once.
//
//verif:reach slow
func Verif_C02_slow() {
	n := 3
	m := v.OneOf("method", "Plain", "Ping")
	s := newScript(m, n)
	d := NewSvcWithRetry(s.b, n, 10*time.Millisecond)
	busy := 0
	slow := v.Choice("slow", 3)
	var ends []time.Time
	s.onTry = func(k int) {
		busy++
		v.Assert(busy == 1, "attempts do not overlap")
		if k == slow {
			time.Sleep(time.Duration(v.I64("takes", 1, 35)) * time.Millisecond)
		}
		busy--
		ends = append(ends, time.Now())
	}
	got := svc.Invoke(d, svc.Arg("arg", m, context.Background()))
	k := len(s.rets)
	svc.SameRets(got, s.rets[k-1], "retry: the last attempt")
	v.Assert(errors.Is(s.rets[k-1].Err, nil) || k == 1+n, "attempts go on until one succeeds or the retries are used up")
	for i := 1; i < k; i++ {
		v.Assert(s.at[i].Sub(ends[0]) >= time.Duration(i)*10*time.Millisecond, "an attempt does not start before its turn")
		v.Assert(s.at[i].Sub(ends[i-1]) <= 10*time.Millisecond, "retries are not delayed by more than the interval")
	}
	if k > slow+1 {
		v.Reach("slow")
	}
}

// Hundreds of attempts are counted like the first ones.
//
//verif:opt advances=1000 advancesT=1000
//verif:reach exhausted,recovered
func Verif_C02_long() {
	n := []int{130, 300}[v.Choice("retries", 2)]
	iv := time.Millisecond
	good := -1
	if v.Bool("recovers") {
		good = n - 1
	}
	tries := 0
	b := &svc.Base{Quiet: true}
	b.Hook = func(svc.Call) svc.Ret {
		tries++
		if tries-1 == good {
			return svc.Ret{}
		}
		return svc.Ret{Err: svc.ErrBase}
	}
	d := NewSvcWithRetry(b, n, iv)
	t0 := time.Now()
	got := svc.Invoke(d, svc.Call{M: "Check", I: 1})
	v.Assert(time.Now().Sub(t0) == time.Duration(tries-1)*iv, "attempts are one interval apart")
	if good < 0 {
		v.Assert(tries == n+1 && got.Err == svc.ErrBase, "attempts go on until one succeeds or the retries are used up")
		v.Reach("exhausted")
		return
	}
	v.Assert(tries == good+1 && got.Err == nil, "attempts go on until one succeeds or the retries are used up")
	v.Reach("recovered")
}
