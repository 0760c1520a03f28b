package circuitbreaker

import (
	"errors"
	"fmt"
	"time"

	"deco.local/svc"
	"verif.local/zv/v"
)

var (
	errIgn  = errors.New("ignored")
	errIgn2 = errors.New("ignored too")
)

// Any history of calls, outcomes and pauses, against the documented state machine.
//
//verif:reach refused,reopened,recovered,ignored,unaffected
//verif:opt timeT=700
func Verif_C03_history() {
	limit := int(v.I64("limit", 1, 3))
	iv := time.Duration(v.I64("interval", 1, 1<<40))
	b := &svc.Base{}
	var d svc.Svc = NewSvcWithCircuitBreaker(b, limit, iv, errIgn, errIgn2)
	ctx, cancel := svc.Ctx()
	defer cancel()

	failures := 0
	open := false
	var until time.Time
	steps := v.Bound(4, 6)
	for i := 0; i < steps; i++ {
		if open {
			time.Sleep(time.Duration(v.I64("pause", 0, 1<<41)))
		}
		m := v.OneOf("method", "Ping", "Plain", "Sum")
		now := time.Now()
		// the instant at which the interval ends is left open
		v.Assume(!open || !now.Equal(until))
		refuse := open && now.Before(until) && svc.HasErr(m)
		var ret svc.Ret
		kind := 0
		if svc.HasErr(m) && !refuse {
			kind = v.Choice("outcome", 4)
			how := 0
			if kind == 3 {
				how = v.Choice("wrapped", 3)
			}
			switch kind {
			case 1:
				ret.Err = svc.ErrBase
			case 2:
				ret.Err = errIgn2
			case 3:
				switch how {
				case 0:
					ret.Err = fmt.Errorf("wrapped: %w", errIgn)
				case 1:
					ret.Err = fmt.Errorf("again: %w", fmt.Errorf("wrapped: %w", errIgn2))
				case 2:
					ret.Err = errors.Join(svc.ErrBase, errIgn)
				}
			}
		}
		ret.I = i + 1
		if m == "Plain" {
			ret.Is = []int{i}
		}
		if m != "Sum" {
			ret.I = 0
		}
		arg := svc.Call{M: m, Ctx: ctx, S: "a", I: 3, J: 4}
		var took time.Duration
		if kind == 1 && i > 0 {
			took = time.Duration(v.I64("took", 0, 1<<41))
		}
		b.Hook = func(svc.Call) svc.Ret {
			time.Sleep(took)
			return ret
		}
		before := len(b.Calls)
		got := svc.Invoke(d, arg)
		called := len(b.Calls) - before
		if refuse {
			v.Assert(called == 0, "while the circuit is open the implementation is not called")
			v.Assert(got.Err != nil, "while the circuit is open calls fail at once")
			v.Assert(got.Err == nil || (!errors.Is(got.Err, svc.ErrBase) && !errors.Is(got.Err, errIgn)), "a refusal has its own error")
			v.Assert(got.Is == nil, "a refused call has no results")
			v.Assert(time.Now().Equal(now), "a refusal does not wait")
			v.Reach("refused")
			continue
		}
		v.Assert(called == 1, "the implementation is called once whenever the circuit is not open")
		svc.SameRets(got, ret, "circuit breaker")
		if !svc.HasErr(m) {
			if open {
				v.Reach("unaffected")
			}
			continue
		}
		switch {
		case kind == 1:
			failures++
			if failures >= limit {
				if open {
					v.Reach("reopened")
				}
				open, until = true, time.Now().Add(iv)
			}
		default:
			if open {
				v.Reach("recovered")
			}
			if kind > 1 {
				v.Reach("ignored")
			}
			failures, open = 0, false
		}
	}
}

// Failures of concurrent calls are all counted, calls do not wait for each other, and the state is not raced on.
//
//verif:opt preempt=2 preemptT=4
//verif:reach end
func Verif_C03_concurrent() {
	b := &svc.Base{Quiet: true}
	n := v.Bound(2, 3)
	d := NewSvcWithCircuitBreaker(b, n, time.Minute)
	gate := make(chan struct{})
	in := make(chan struct{}, n)
	blocked := v.Bool("blocked")
	b.Hook = func(c svc.Call) svc.Ret {
		if blocked {
			in <- struct{}{}
			<-gate
		}
		return svc.Ret{Err: svc.ErrBase}
	}
	done := make(chan error, n)
	for i := 0; i < n; i++ {
		go func() { done <- d.Check(nil, i) }()
	}
	if blocked {
		for i := 0; i < n; i++ {
			<-in // every call reaches the implementation although none has returned
		}
		close(gate)
	}
	for i := 0; i < n; i++ {
		v.Assert(<-done == svc.ErrBase, "each call gets the implementation's error")
	}
	b.Hook = func(c svc.Call) svc.Ret {
		v.Assert(false, "the circuit is open after enough concurrent failures")
		return svc.Ret{}
	}
	v.Assert(d.Check(nil, 0) != nil, "the circuit is open after enough concurrent failures")
	v.Reach("end")
}

// A success that races with a failure leaves a state some order of the two explains.
//
//verif:opt preempt=2 preemptT=4
//verif:reach open,closed
func Verif_C03_mixed() {
	b := &svc.Base{Quiet: true}
	d := NewSvcWithCircuitBreaker(b, 1, time.Minute)
	b.Hook = func(c svc.Call) svc.Ret {
		if c.I == 1 {
			return svc.Ret{Err: svc.ErrBase}
		}
		return svc.Ret{}
	}
	done := make(chan error, 2)
	go func() { done <- d.Check(nil, 1) }()
	go func() { done <- d.Check(nil, 0) }()
	<-done
	<-done
	calls := 0
	b.Hook = func(c svc.Call) svc.Ret { calls++; return svc.Ret{} }
	err := d.Check(nil, 2)
	v.Assert((err == nil) == (calls == 1), "a call either reaches the implementation or is refused")
	if err == nil {
		v.Reach("closed")
		v.Assert(d.Check(nil, 3) == nil, "a success keeps the circuit closed")
	} else {
		v.Reach("open")
		time.Sleep(2 * time.Minute)
		v.Assert(d.Check(nil, 3) == nil, "the circuit admits calls after the interval")
	}
}

// A panic of the implementation does not leave the breaker locked, and an unwinding call does not count as a success.
//
//verif:reach end
func Verif_C03_panic() {
	b := &svc.Base{Quiet: true}
	d := NewSvcWithCircuitBreaker(b, 2, time.Minute)
	m := v.OneOf("method", "Do", "Plain", "Ping", "Fetch", "Check")
	ctx, cancel := svc.Ctx()
	defer cancel()
	b.Hook = func(c svc.Call) svc.Ret { panic("x") }
	p, _ := v.Catch(func() { svc.Invoke(d, svc.Call{M: m, Ctx: ctx}) })
	v.Assert(p, "the panic reaches the caller")
	b.Hook = func(c svc.Call) svc.Ret { return svc.Ret{Err: svc.ErrBase} }
	v.Assert(d.Check(nil, 0) == svc.ErrBase, "later calls go through")
	v.Reach("end")
}

// Thousands of failures are counted like the first ones.
//
//verif:opt steps=60000000 stepsT=60000000
//verif:reach opened,closed
func Verif_C03_long() {
	limit := []int{130, 300, 33000, 66000}[v.Choice("limit", 4)]
	b := &svc.Base{Quiet: true}
	calls := 0
	var err error = svc.ErrBase
	b.Hook = func(svc.Call) svc.Ret { calls++; return svc.Ret{Err: err} }
	d := NewSvcWithCircuitBreaker(b, limit, time.Hour)
	reset := v.Bool("reset")
	for i := 1; i < limit; i++ {
		d.Check(nil, 1)
	}
	v.Assert(calls == limit-1, "the implementation is called once whenever the circuit is not open")
	if reset {
		err = nil
		d.Check(nil, 1)
		err = svc.ErrBase
		for i := 1; i < limit; i++ {
			d.Check(nil, 1)
		}
		v.Assert(calls == 2*limit-1, "a success resets the count of failures")
		v.Reach("closed")
	}
	at := calls
	v.Assert(d.Check(nil, 1) == svc.ErrBase && calls == at+1, "the failure that opens the circuit reaches the caller")
	v.Assert(d.Check(nil, 1) != nil && calls == at+1, "while the circuit is open the implementation is not called")
	time.Sleep(time.Hour + time.Second)
	d.Check(nil, 1)
	v.Assert(calls == at+2, "the circuit closes after the interval")
	d.Check(nil, 1)
	v.Assert(calls == at+2, "the next failure opens the circuit again at once")
	v.Reach("opened")
}
