package ratelimit

import (
	"context"
	"time"

	"deco.local/svc"
	"verif.local/zv/v"
)

var rates = []float64{10, 0.5, 1000, 2.5}

func delayOf(rps float64) time.Duration { return time.Duration(float64(time.Second) / rps) }

// One caller with any pauses: never more calls than the burst and the elapsed time allow, and no needless waiting.
//
//verif:opt preempt=0 preemptT=1
//verif:reach waited,immediate
func Verif_C05_sequence() {
	burst := v.Choice("burst", 3)
	rps := rates[v.Choice("rps", len(rates))]
	delay := delayOf(rps)
	b := &svc.Base{Quiet: true}
	var admitted []time.Time
	b.Hook = func(svc.Call) svc.Ret {
		admitted = append(admitted, time.Now())
		return svc.Ret{}
	}
	t0 := time.Now()
	d := NewSvcWithRateLimit(b, burst, rps)
	calls := v.Bound(4, 6)
	for i := 0; i < calls; i++ {
		if i > 0 {
			time.Sleep(delay / 4 * time.Duration(v.Choice("pause", 8)))
		}
		m := "Fire"
		if i == 1 {
			m = v.OneOf("method", "Fire", "Ping", "Check", "Ask")
		}
		asked := time.Now()
		r := svc.Invoke(d, svc.Call{M: m, Ctx: context.Background()})
		v.Assert(r.Err == nil, "a call that is admitted succeeds")
		v.Assert(len(admitted) == i+1, "every call reaches the implementation once")
		at := admitted[i]
		v.Assert(i+1 <= burst+int(at.Sub(t0)/delay), "calls never exceed the burst plus one per interval")
		v.Assert(at.Sub(asked) <= delay, "a call waits for one interval at most when nobody else is waiting")
		if i < burst {
			v.Assert(at.Equal(asked), "calls within the burst do not wait")
		}
		if at.Equal(asked) {
			v.Reach("immediate")
		} else {
			v.Reach("waited")
		}
	}
}

// After any idle time a burst is still a burst: the channel, the feeding goroutine and the ticker hold one tick each beyond it.
//
//verif:opt preempt=0 preemptT=1
//verif:reach end
func Verif_C05_idle() {
	burst := v.Choice("burst", 3)
	delay := 100 * time.Millisecond
	b := &svc.Base{Quiet: true}
	d := NewSvcWithRateLimit(b, burst, 10)
	time.Sleep(delay*time.Duration(v.Choice("idle", 8)) + delay/2)
	v.Settle()
	t0 := time.Now()
	n := 0
	for i := 0; i < burst+4; i++ {
		d.Fire(i)
		v.Settle()
		if time.Now().Equal(t0) {
			n++
		}
	}
	v.Assert(n <= burst+2, "idle time does not accumulate into a larger burst")
	v.Assert(time.Since(t0) <= delay*time.Duration(burst+4), "one call per interval is admitted")
	v.Reach("end")
}

// Concurrent callers share one budget.
//
//verif:opt preempt=0 preemptT=2
//verif:reach end
func Verif_C05_concurrent() {
	burst := v.Choice("burst", 3)
	delay := 100 * time.Millisecond
	b := &svc.Base{Quiet: true}
	n := v.Bound(3, 4)
	in := make(chan time.Time, n)
	b.Hook = func(svc.Call) svc.Ret {
		in <- time.Now()
		return svc.Ret{}
	}
	t0 := time.Now()
	d := NewSvcWithRateLimit(b, burst, 10)
	for i := 0; i < n; i++ {
		go d.Fire(i)
	}
	for i := 0; i < n; i++ {
		at := <-in
		v.Assert(i+1 <= burst+int(at.Sub(t0)/delay), "concurrent calls never exceed the burst plus one per interval")
		v.Assert(at.Sub(t0) <= delay*time.Duration(max(0, i+1-burst)), "waiting calls are admitted one per interval")
	}
	v.Reach("end")
}

// The end of the context ends the waiting of calls that can say so; the implementation is then not called.
//
//verif:opt preempt=0 preemptT=1
//verif:reach gaveup,admitted
func Verif_C05_context() {
	delay := 100 * time.Millisecond
	m := v.OneOf("method", "Do", "Ping", "Fetch")
	b := &svc.Base{}
	burst := v.Choice("burst", 2)
	d := NewSvcWithRateLimit(b, burst, 10)
	base, stop := svc.Ctx()
	defer stop()
	lim := time.Duration(v.I64("limit", 0, 150)) * time.Millisecond
	ctx, cancel := context.WithTimeout(base, lim)
	defer cancel()
	t0 := time.Now()
	r := svc.Invoke(d, svc.Call{M: m, Ctx: ctx})
	took := time.Since(t0)
	if r.Err != nil {
		v.Assert(r.Err == context.DeadlineExceeded, "a call that is not admitted reports the context's error")
		v.Assert(len(b.Calls) == 0, "a call that is not admitted does not reach the implementation")
		v.Assert(took == lim, "a call gives up exactly when its context is done")
		v.Assert(burst == 0 || lim == 0, "a call within the burst is admitted")
		v.Reach("gaveup")
		return
	}
	v.Assert(len(b.Calls) == 1, "an admitted call reaches the implementation once")
	v.Assert(took <= lim, "no call waits longer than its context lasts")
	if burst == 0 {
		v.Assert(took == delay, "a call beyond the burst waits for its interval")
	}
	v.Reach("admitted")
}

// A large burst and a long time are counted like small ones.
//
//verif:opt preempt=0 preemptT=0 advances=1000 advancesT=1000
//verif:reach end
func Verif_C05_long() {
	burst := []int{130, 300}[v.Choice("burst", 2)]
	b := &svc.Base{Quiet: true}
	d := NewSvcWithRateLimit(b, burst, 1000)
	t0 := time.Now()
	for i := 0; i < burst; i++ {
		d.Fire(i)
	}
	v.Assert(time.Now().Equal(t0), "calls within the burst do not wait")
	for i := 1; i <= 300; i++ {
		d.Fire(i)
		took := time.Now().Sub(t0)
		v.Assert(took == time.Duration(i)*time.Millisecond, "calls never exceed the burst plus one per interval")
	}
	v.Reach("end")
}
