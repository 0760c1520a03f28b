package syncpool

import (
	"sync"

	"deco.local/svc"
	"verif.local/zv/v"
)

// worker is an implementation that must not be used by two calls at once.
type worker struct {
	*svc.Base
	busy bool
	n    int
}

// Concurrent calls of any methods: an implementation serves one call at a time, every call is served, and a panic of the
// implementation gives it back.
//
//verif:opt preempt=1 preemptT=2
//verif:reach end
func Verif_C06_exclusive() {
	n := v.Choice("impls", v.Bound(2, 3)) + 1
	callers := v.Bound(3, 4)
	var mu sync.Mutex
	var ws []*worker
	var ss []svc.Svc
	mk := func() *worker {
		w := &worker{Base: &svc.Base{Quiet: true}}
		w.Hook = func(c svc.Call) svc.Ret {
			mu.Lock()
			v.Assert(!w.busy, "an implementation serves one call at a time")
			w.busy = true
			w.n++
			mu.Unlock()
			mu.Lock()
			w.busy = false
			mu.Unlock()
			if c.I == 13 {
				panic("boom")
			}
			return svc.Ret{I: c.I}
		}
		return w
	}
	for i := 0; i < n; i++ {
		w := mk()
		ws = append(ws, w)
		ss = append(ss, w)
	}
	d := NewSvcPool(ss...)
	boom := v.Bool("panics")
	done := make(chan bool, callers)
	for i := 0; i < callers; i++ {
		go func() {
			x := i
			if i == 0 && boom {
				x = 13
			}
			p, _ := v.Catch(func() {
				if i%2 == 0 {
					v.Assert(d.Sum(x, 0) == x, "the caller gets the implementation's results")
				} else {
					d.Fire(x)
				}
			})
			v.Assert(p == (x == 13), "a panic reaches its own caller only")
			done <- true
		}()
	}
	for i := 0; i < callers; i++ {
		<-done
	}
	mu.Lock()
	total := 0
	for _, w := range ws {
		total += w.n
	}
	mu.Unlock()
	v.Assert(total == callers, "every call is served once")
	v.Reach("end")
}

// As many calls as there are implementations run at the same time, one on each; one more waits until one is given back.
//
//verif:opt preempt=1 preemptT=2
//verif:reach end
func Verif_C06_capacity() {
	n := v.Choice("impls", v.Bound(2, 3)) + 1
	in := make(chan int, n+1)
	gate := make(chan struct{}, n+1)
	var ss []svc.Svc
	for i := 0; i < n; i++ {
		b := &svc.Base{Quiet: true}
		b.Hook = func(c svc.Call) svc.Ret {
			in <- i
			<-gate
			if c.M == "Fire" && c.I == 13 {
				panic("boom")
			}
			return svc.Ret{}
		}
		ss = append(ss, b)
	}
	d := NewSvcPool(ss...)
	m := v.OneOf("method", svc.Methods...)
	x := 0
	if v.Bool("panics") {
		x = 13
	}
	for i := 0; i < n; i++ {
		go func() {
			v.Catch(func() { svc.Invoke(d, svc.Call{M: m, I: x}) })
		}()
	}
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		k := <-in
		v.Assert(!seen[k], "a busy implementation is not used by another call")
		seen[k] = true
	}
	extra := make(chan bool, 1)
	go func() {
		v.Catch(func() { svc.Invoke(d, svc.Call{M: "Tick"}) })
		extra <- true
	}()
	v.Settle()
	v.Assert(len(in) == 0, "a call waits while every implementation is busy")
	gate <- struct{}{}
	<-in // the waiting call gets the implementation that was given back
	for i := 0; i < n; i++ {
		gate <- struct{}{}
	}
	<-extra
	// the pool is whole again
	for i := 0; i < n; i++ {
		go d.Tick()
	}
	seen = map[int]bool{}
	for i := 0; i < n; i++ {
		seen[<-in] = true
	}
	v.Assert(len(seen) == n, "implementations return to the pool after the call")
	for i := 0; i < n; i++ {
		gate <- struct{}{}
	}
	v.Settle()
	v.Assert(v.Goroutines() == 0, "nothing is left running")
	v.Reach("end")
}

// Histories of one caller: the pool keeps all of its implementations whatever the calls do.
//
//verif:reach end
func Verif_C06_history() {
	n := v.Choice("impls", 3) + 1
	var ss []svc.Svc
	used := make([]bool, n)
	last := -1
	for i := 0; i < n; i++ {
		b := &svc.Base{Quiet: true}
		b.Hook = func(c svc.Call) svc.Ret {
			used[i], last = true, i
			if c.I == 13 {
				panic("boom")
			}
			return svc.Ret{I: c.I + 1, Err: c.Err}
		}
		ss = append(ss, b)
	}
	d := NewSvcPool(ss...)
	for k := 0; k < n+2; k++ {
		x := 1
		if v.Bool("panics") {
			x = 13
		}
		var got svc.Ret
		last = -1
		m := v.OneOf("method", "Sum", "Ask", "Fire")
		p, _ := v.Catch(func() { got = svc.Invoke(d, svc.Call{M: m, I: x}) })
		v.Assert(last >= 0, "every call is served")
		v.Assert(p == (x == 13), "a panic reaches the caller")
		if !p && m != "Fire" {
			v.Assert(got.I == 2, "the caller gets the implementation's results")
		}
	}
	p, _ := v.Catch(func() { NewSvcPool() })
	v.Assert(p, "a pool needs implementations")
	v.Reach("end")
}
