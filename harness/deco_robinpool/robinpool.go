package robinpool

import (
	"sync"

	"deco.local/svc"
	"verif.local/zv/v"
)

func pool(n int) (ss []svc.Svc, log *[]int) {
	log = &[]int{}
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		b := &svc.Base{Quiet: true}
		b.Hook = func(c svc.Call) svc.Ret {
			mu.Lock()
			*log = append(*log, i)
			mu.Unlock()
			if c.I == 13 {
				panic("boom")
			}
			return svc.Ret{I: i}
		}
		ss = append(ss, b)
	}
	return
}

// Any sequence of calls of any methods: every window of as many calls as there are implementations uses each once.
//
//verif:reach end
func Verif_C07_rotation() {
	n := v.Choice("impls", v.Bound(4, 6)) + 1
	ss, log := pool(n)
	var d svc.Svc
	if v.Bool("must") {
		d = MustNewSvcRoundRobinPool(ss...)
	} else {
		p, err := NewSvcRoundRobinPool(ss...)
		v.Assert(err == nil && p != nil, "a pool of implementations is made")
		d = p
	}
	m := v.OneOf("method", svc.Methods...)
	calls := 2*n + 1
	for k := 0; k < calls; k++ {
		mm := m
		if k%2 == 1 {
			mm = "Sum"
		}
		x := 0
		if k == n/2 && v.Bool("panics") {
			x = 13
		}
		var got svc.Ret
		p, _ := v.Catch(func() { got = svc.Invoke(d, svc.Call{M: mm, I: x}) })
		v.Assert(len(*log) == k+1, "every call is served by one implementation")
		if mm == "Sum" && !p {
			v.Assert(got.I == (*log)[k], "the caller gets the results of the implementation that served the call")
		}
	}
	for s := 0; s+n <= calls; s++ {
		seen := map[int]bool{}
		for _, i := range (*log)[s : s+n] {
			seen[i] = true
		}
		v.Assert(len(seen) == n, "consecutive calls use every implementation once before any is used again")
	}
	v.Reach("end")
}

// Concurrent calls are spread evenly too, and the counter is not raced on.
//
//verif:opt preempt=2 preemptT=4
//verif:reach end
func Verif_C07_concurrent() {
	n := v.Choice("impls", 2) + 2
	ss, log := pool(n)
	d := MustNewSvcRoundRobinPool(ss...)
	rounds := 1
	if n == 2 {
		rounds = v.Bound(1, 2)
	}
	// calls made before put the counter anywhere, the last implementation included
	for i := v.Choice("before", v.Bound(3, 4)); i > 0; i-- {
		d.Tick()
	}
	*log = nil
	done := make(chan bool, n*rounds)
	for i := 0; i < n*rounds; i++ {
		go func() {
			if i%2 == 0 {
				d.Tick()
			} else {
				d.Fire(i)
			}
			done <- true
		}()
	}
	for i := 0; i < n*rounds; i++ {
		<-done
	}
	cnt := make([]int, n)
	for _, i := range *log {
		cnt[i]++
	}
	for i := range cnt {
		v.Assert(cnt[i] == rounds, "concurrent calls are spread evenly")
	}
	v.Reach("end")
}

//verif:reach end
func Verif_C07_empty() {
	_, err := NewSvcRoundRobinPool()
	v.Assert(err != nil, "an empty pool is refused with an error")
	p, _ := v.Catch(func() { MustNewSvcRoundRobinPool() })
	v.Assert(p, "an empty pool is refused with a panic by the Must constructor")
	v.Reach("end")
}

// Thousands of calls are as even as the first ones.
//
//verif:opt steps=20000000 stepsT=80000000
//verif:reach end
func Verif_C07_long() {
	n := []int{2, 3, 5, 7}[v.Choice("impls", 4)]
	counts := make([]int, n)
	var ss []svc.Svc
	for i := 0; i < n; i++ {
		b := &svc.Base{Quiet: true}
		b.Hook = func(c svc.Call) svc.Ret { counts[i]++; return svc.Ret{} }
		ss = append(ss, b)
	}
	d := MustNewSvcRoundRobinPool(ss...)
	for k := 1; k <= v.Bound(70000, 300000)/n; k++ {
		for i := 0; i < n; i++ {
			d.Tick()
		}
		for i := range counts {
			if counts[i] != k {
				v.Assert(false, "calls stay spread evenly")
				return
			}
		}
	}
	v.Reach("end")
}
