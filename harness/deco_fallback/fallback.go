package fallback

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"deco.local/svc"
	"verif.local/zv/v"
)

const iv = 10 * time.Millisecond

// mu guards the records of the implementations.
var mu sync.Mutex

// impl is an implementation that takes some time.
type impl struct {
	*svc.Base
	started bool
	at      time.Time
	takes   time.Duration
	fails   bool
	calls   int
}

func (m *impl) end() time.Time { return m.at.Add(m.takes) }

// alike makes all implementations fail with the same text.
var alike bool

// failure is the error of an implementation.
type failure struct{ n int }

func (f failure) Error() string { return fmt.Sprintf("failure-%d", f.n) }

func fail(i int) error {
	if alike {
		return failure{0}
	}
	return failure{i}
}

func setup(n int, mayFail bool) (impls []*impl, d svc.Svc, first time.Time) {
	first = time.Now()
	var ss []svc.Svc
	for i := 0; i < n; i++ {
		m := &impl{Base: &svc.Base{Quiet: true}}
		m.takes = time.Duration(v.I64("takes", 0, 45)) * time.Millisecond
		m.fails = mayFail && v.Bool("fails")
		m.Hook = func(c svc.Call) svc.Ret {
			mu.Lock()
			m.calls++
			m.started, m.at = true, time.Now()
			mu.Unlock()
			time.Sleep(m.takes)
			if m.fails {
				return svc.Ret{Err: fail(i)}
			}
			return svc.Ret{I: 100 + i, S: "ok", B: true, O: &svc.Obj{N: i}, Is: []int{i}}
		}
		impls = append(impls, m)
		ss = append(ss, m)
	}
	return impls, NewSvcWithFallback(iv, ss...), first
}

func who(m string, r svc.Ret) int {
	switch m {
	case "Do", "Ask", "Sum":
		return r.I - 100
	case "Plain":
		if len(r.Is) == 1 {
			return r.Is[0]
		}
	case "Fetch":
		if r.O != nil {
			return r.O.N
		}
	}
	return -1
}

// order checks when the implementations were started.
func order(impls []*impl, t0, end time.Time) {
	for k, m := range impls {
		v.Assert(m.calls <= 1, "an implementation is called at most once per call")
		if !m.started {
			continue
		}
		// started in the given order, the first at once
		v.Assert(k > 0 || m.at.Equal(t0), "the first implementation is called at once")
		if k == 0 {
			continue
		}
		v.Assert(impls[k-1].started && !m.at.Before(impls[k-1].at), "implementations are called in order")
		// each start needs an earlier failure or an elapsed interval
		earned := int(m.at.Sub(t0) / iv)
		for j := 0; j < k; j++ {
			if impls[j].fails && !m.at.Before(impls[j].end()) {
				earned++
			}
		}
		v.Assert(k <= earned, "the next implementation is called only after a failure or after the interval")
		v.Assert(m.at.Sub(t0) <= time.Duration(k)*iv, "the next implementation is not held back longer than the interval")
		for _, p := range impls[:k] {
			if p.fails && !p.end().Before(impls[k-1].at) {
				v.Assert(!m.at.After(p.end()), "the next implementation is called as soon as an earlier one fails")
			}
		}
	}
	for k, m := range impls {
		if !m.started {
			if k > 0 && impls[k-1].started {
				for _, p := range impls[:k] {
					if p.fails && !p.end().Before(impls[k-1].at) {
						v.Assert(!p.end().Before(end), "the next implementation is called as soon as an earlier one fails")
					}
				}
			}
			v.Assert(k > 0 && end.Sub(t0) <= time.Duration(k)*iv, "the next implementation is called after the interval")
		}
	}
}

// The caller gets the first success, as soon as there is one, and the joined errors when every implementation fails.
//
//verif:opt preempt=0 preemptT=1 time=120
//verif:reach success,failure
func Verif_C04_first() {
	m := v.OneOf("method", "Do", "Plain", "Check", "Fetch")
	n := v.Choice("impls", v.Bound(2, 3)) + 1
	alike = n > 1 && v.Bool("alike")
	impls, d, t0 := setup(n, true)
	ctx, cancel := svc.Ctx()
	defer cancel()
	got := svc.Invoke(d, svc.Call{M: m, Ctx: ctx, S: "a", I: 1})
	end := time.Now()
	mu.Lock()
	order(impls, t0, end)
	if got.Err == nil {
		w := -1
		for k, p := range impls {
			if p.started && !p.fails && p.end().Equal(end) {
				w = k
			}
			if p.started && !p.fails {
				v.Assert(!p.end().Before(end), "the first success is returned, as soon as it is there")
			}
		}
		v.Assert(w >= 0, "success is reported only when an implementation succeeded")
		if m != "Check" {
			x := who(m, got)
			v.Assert(x >= 0 && x < n && impls[x].started && !impls[x].fails && impls[x].end().Equal(end), "the results are those of the first success")
		}
		v.Reach("success")
	} else {
		var last time.Time
		for i, p := range impls {
			v.Assert(p.started && p.fails, "an error is reported only when every implementation failed")
			v.Assert(strings.Contains(got.Err.Error(), fail(i).Error()), "the error tells every failure")
			if p.end().After(last) {
				last = p.end()
			}
		}
		v.Assert(end.Equal(last), "the error is reported as soon as every implementation failed")
		v.Reach("failure")
	}
	mu.Unlock()
	time.Sleep(time.Second)
	v.Settle()
	v.Assert(v.Goroutines() == 0, "nothing is left running when the implementations have returned")
}

// Methods without an error: the first implementation to return wins.
//
//verif:opt preempt=0 preemptT=1 time=120
//verif:reach end
func Verif_C04_noerror() {
	m := v.OneOf("method", "Ask", "Sum", "Fire", "Tick")
	n := v.Choice("impls", v.Bound(2, 3)) + 1
	impls, d, t0 := setup(n, false)
	ctx, cancel := svc.Ctx()
	defer cancel()
	got := svc.Invoke(d, svc.Call{M: m, Ctx: ctx, I: 1})
	end := time.Now()
	mu.Lock()
	order(impls, t0, end)
	any := false
	for _, p := range impls {
		if p.started {
			v.Assert(!p.end().Before(end), "the first implementation to return ends the call")
			any = any || p.end().Equal(end)
		}
	}
	v.Assert(any, "the call ends when an implementation returns")
	if m == "Ask" || m == "Sum" {
		x := who(m, got)
		v.Assert(x >= 0 && x < n && impls[x].started && impls[x].end().Equal(end), "the results are those of the first implementation to return")
	}
	mu.Unlock()
	time.Sleep(time.Second)
	v.Settle()
	v.Assert(v.Goroutines() == 0, "nothing is left running when the implementations have returned")
	v.Reach("end")
}

// No result is lost whatever the schedule: fast implementations, every interleaving within the preemption bound.
//
//verif:opt preempt=2 preemptT=3
//verif:reach end
func Verif_C04_schedules() {
	m := v.OneOf("method", "Check", "Sum", "Ping", "Ask")
	b := &svc.Base{Quiet: true}
	fail := svc.HasErr(m) && v.Bool("fails")
	b.Hook = func(c svc.Call) svc.Ret {
		if fail {
			return svc.Ret{Err: failure{7}}
		}
		return svc.Ret{I: 5}
	}
	d := NewSvcWithFallback(iv, b)
	got := svc.Invoke(d, svc.Call{M: m, Ctx: context.Background()})
	if fail {
		v.Assert(got.Err != nil && strings.Contains(got.Err.Error(), "failure-7"), "the error of the only implementation is reported")
	} else {
		v.Assert(got.Err == nil, "the success of the only implementation is reported")
	}
	v.Reach("end")
}

// The end of the context ends the call.
//
//verif:opt preempt=0 preemptT=1 time=120
//verif:reach cancelled,finished
func Verif_C04_context() {
	m := v.OneOf("method", "Do", "Ping", "Fetch")
	n := v.Choice("impls", 2) + 1
	impls, d, t0 := setup(n, true)
	lim := time.Duration(v.I64("limit", 0, 60)) * time.Millisecond
	base, stop := svc.Ctx()
	defer stop()
	ctx, cancel := context.WithTimeout(base, lim)
	defer cancel()
	got := svc.Invoke(d, svc.Call{M: m, Ctx: ctx})
	end := time.Now()
	mu.Lock()
	v.Assert(end.Sub(t0) <= lim, "the call does not outlast its context")
	if got.Err != nil && errors.Is(got.Err, context.DeadlineExceeded) {
		v.Assert(end.Sub(t0) == lim, "the context is blamed only when it is done")
		v.Reach("cancelled")
	} else {
		order(impls, t0, end)
		v.Reach("finished")
	}
	mu.Unlock()
	time.Sleep(time.Second)
	v.Settle()
	v.Assert(v.Goroutines() == 0, "nothing is left running when the implementations have returned")
}

// Every implementation gets the caller's arguments.
//
//verif:reach end
func Verif_C04_args() {
	m := v.OneOf("method", svc.Methods...)
	ctx, cancel := svc.Ctx()
	defer cancel()
	arg := svc.Arg("arg", m, ctx)
	a, b := &svc.Base{}, &svc.Base{}
	a.Quiet, b.Quiet = true, true
	note := func(p *svc.Base, c svc.Call) {
		mu.Lock()
		p.Calls = append(p.Calls, c)
		mu.Unlock()
	}
	a.Hook = func(c svc.Call) svc.Ret {
		note(a, c)
		if svc.HasErr(m) {
			return svc.Ret{Err: failure{0}}
		}
		time.Sleep(time.Hour)
		return svc.Ret{}
	}
	ret := svc.Rets("ret", m)
	ret.Err = nil
	b.Hook = func(c svc.Call) svc.Ret {
		note(b, c)
		return ret
	}
	got := svc.Invoke(NewSvcWithFallback(iv, a, b), arg)
	svc.SameRets(got, ret, "fallback")
	mu.Lock()
	defer mu.Unlock()
	v.Assert(len(a.Calls) == 1 && len(b.Calls) == 1, "both implementations are called")
	for _, c := range []svc.Call{a.Calls[0], b.Calls[0]} {
		svc.SameArgs(c, arg, "fallback")
		if svc.HasCtx(m) {
			v.Assert(svc.Carried(c.Ctx), "the context the implementation gets descends from the caller's")
			v.Assert(c.Ctx.Err() != nil, "the implementations' context ends with the call")
		}
	}
	v.Reach("end")
}

// Many implementations that fail at the same time, before or after all of them have started.
//
//verif:opt preempt=0 preemptT=1
//verif:reach success,failure
func Verif_C04_many() {
	n := 3 + v.Choice("impls", v.Bound(6, 14))
	takes := []time.Duration{0, iv / 2, iv * 3 / 2, 20 * iv}[v.Choice("takes", 4)]
	good := v.Choice("good", 3) * (n / 2) // 0 for none
	calls := 0
	var ss []svc.Svc
	for i := 0; i < n; i++ {
		b := &svc.Base{Quiet: true}
		b.Hook = func(svc.Call) svc.Ret {
			mu.Lock()
			calls++
			mu.Unlock()
			time.Sleep(takes)
			if good > 0 && i == good-1 {
				return svc.Ret{I: 100 + i, S: "ok"}
			}
			return svc.Ret{Err: failure{i}}
		}
		ss = append(ss, b)
	}
	d := NewSvcWithFallback(iv, ss...)
	ctx, cancel := svc.Ctx()
	defer cancel()
	got := svc.Invoke(d, svc.Call{M: v.OneOf("method", "Do", "Plain", "Check"), Ctx: ctx, S: "a", I: 1})
	if good > 0 {
		v.Assert(got.Err == nil, "the first success is returned")
		v.Reach("success")
	} else {
		v.Assert(got.Err != nil && calls == n, "an error is reported only when every implementation failed")
		for i := 0; i < n; i++ {
			v.Assert(got.Err == nil || strings.Contains(got.Err.Error(), failure{i}.Error()), "the error tells every failure")
		}
		v.Reach("failure")
	}
	time.Sleep(time.Second)
	v.Settle()
	v.Assert(v.Goroutines() == 0, "nothing is left running when the implementations have returned")
}
