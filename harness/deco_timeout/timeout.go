package timeout

import (
	"context"
	"time"

	"deco.local/svc"
	"verif.local/zv/v"
)

// Any configured timeouts, with or without a deadline of the caller: the implementation's context ends at the earlier one.
//
//verif:reach own,callers,none,plain
func Verif_C08_deadline() {
	cfg := SvcWithTimeoutConfig{
		DoTimeout:    time.Duration(v.I64("Do", -5, 1<<40)),
		AskTimeout:   time.Duration(v.I64("Ask", -5, 1<<40)),
		PingTimeout:  time.Duration(v.I64("Ping", -5, 1<<40)),
		FetchTimeout: time.Duration(v.I64("Fetch", -5, 1<<40)),
	}
	m := v.OneOf("method", svc.Methods...)
	var t time.Duration
	switch m {
	case "Do":
		t = cfg.DoTimeout
	case "Ask":
		t = cfg.AskTimeout
	case "Ping":
		t = cfg.PingTimeout
	case "Fetch":
		t = cfg.FetchTimeout
	}
	ctx, cancel := svc.Ctx()
	defer cancel()
	t0 := time.Now()
	own := v.Bool("caller has a deadline")
	lim := time.Duration(v.I64("deadline", 1, 1<<40))
	if own {
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, lim)
		defer c2()
	}
	b := &svc.Base{}
	waits := v.Bool("waits")
	b.Hook = func(c svc.Call) svc.Ret {
		if c.Ctx == nil {
			v.Assert(!svc.HasCtx(m), "the context is passed on")
			return svc.Ret{}
		}
		dl, ok := c.Ctx.Deadline()
		v.Assert(c.Ctx.Err() == nil, "the context is alive when the implementation is called")
		v.Assert(ok == (own || t > 0), "the implementation's context has a deadline exactly when one applies")
		if ok {
			want := t0.Add(lim)
			if !own || (t > 0 && t < lim) {
				want = t0.Add(t)
			}
			v.Assert(dl.Equal(want), "the deadline is the earlier of the caller's and the configured timeout")
		}
		if waits && ok {
			<-c.Ctx.Done()
			v.Assert(time.Now().Equal(dl), "the context ends at its deadline")
			return svc.Ret{Err: c.Ctx.Err()}
		}
		return svc.Ret{}
	}
	d := NewSvcWithTimeout(b, cfg)
	got := svc.Invoke(d, svc.Call{M: m, Ctx: ctx})
	v.Assert(len(b.Calls) == 1, "the implementation is called once")
	switch {
	case !svc.HasCtx(m):
		v.Reach("plain")
	case t > 0:
		v.Assert(b.Calls[0].Ctx.Err() != nil, "the derived context is released when the call returns")
		if !own && waits && svc.HasErr(m) {
			v.Assert(got.Err == context.DeadlineExceeded, "the implementation sees the deadline")
		}
		if !own {
			v.Assert(ctx.Err() == nil, "the caller's context is not ended by the timeout")
		}
		v.Reach("own")
	case own:
		v.Reach("callers")
	default:
		v.Assert(b.Calls[0].Ctx.Err() == nil, "without a timeout the context is not ended by the call")
		v.Reach("none")
	}
}
