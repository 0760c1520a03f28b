package svc

import (
	"context"
	"sync"

	"verif.local/zv/v"
)

// Mark is an error that belongs to one caller.
type Mark struct{ N int }

func (m *Mark) Error() string { return "failed" }

// pure is an implementation without state: what it returns depends on its arguments only.
type pure struct {
	Wide
	fails bool
}

func (p *pure) err(o *Obj) error {
	if p.fails {
		return &Mark{o.N}
	}
	return nil
}

func (p *pure) Any(x any, more ...any) (any, error) {
	v.Assert(len(more) == 1 && more[0] == x, "a call hands on its own arguments")
	return x, p.err(x.(*Obj))
}
func (p *pure) Rest(c context.Context, n int, os ...*Obj) (int, error) {
	v.Assert(len(os) == 1 && c.Value(key{}) == any(os[0]), "a call hands on its own arguments and context")
	v.Assert(n == os[0].N, "a call hands on its own arguments")
	return n, p.err(os[0])
}
func (p *pure) Swap(c context.Context, from, to *Obj) (*Obj, *Obj) {
	v.Assert(from == to && c.Value(key{}) == any(from), "a call hands on its own arguments and context")
	return to, from
}
func (p *pure) Local(a string, b int, c bool) (string, string) { return a, a }
func (p *pure) Only(c context.Context)                         {}

// Pure returns an implementation that any number of goroutines may use.
func Pure(fails bool) Wide { return &pure{fails: fails} }

// Together calls a decorator of implementations made by Pure(fails) from several goroutines at once. The engine reports races.
// lose is how errors of the implementation are recognised.
func Together(what string, d Wide, fails bool, mark func(err error) (int, bool)) {
	n := 2
	done := make(chan bool, n)
	m := v.OneOf("first", "Any", "Rest", "Swap", "Local", "Only")
	for i := 0; i < n; i++ {
		o := &Obj{N: int(v.I64("n"+string(rune('0'+i)), 1, 1<<31))}
		m := m
		if i == 1 {
			m = v.OneOf("second", "Any", "Rest", "Swap")
		}
		go func() {
			ctx := context.WithValue(context.Background(), key{}, o)
			check := func(err error) {
				if !fails {
					v.Assert(err == nil, what+": a caller gets the outcome of its own call")
					return
				}
				n, ok := mark(err)
				v.Assert(ok && n == o.N, what+": a caller gets the error of its own call")
			}
			switch m {
			case "Any":
				x, err := d.Any(o, o)
				check(err)
				v.Assert(fails || x == any(o), what+": a caller gets the results of its own call")
			case "Rest":
				x, err := d.Rest(ctx, o.N, o)
				check(err)
				v.Assert(fails || x == o.N, what+": a caller gets the results of its own call")
			case "Swap":
				x, y := d.Swap(ctx, o, o)
				v.Assert(x == o && y == o, what+": a caller gets the results of its own call")
			case "Local":
				x, y := d.Local("s", o.N, true)
				v.Assert(x == "s" && y == "s", what+": a caller gets the results of its own call")
			case "Only":
				d.Only(ctx)
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	v.Reach("end")
}

// Flaky is an implementation whose every caller fails a number of times first.
type Flaky struct {
	pure
	Fails map[any]int
	lock  sync.Mutex
}

func (f *Flaky) Any(x any, more ...any) (any, error) {
	f.lock.Lock()
	defer f.lock.Unlock()
	v.Assert(len(more) == 1 && more[0] == x, "a call hands on its own arguments")
	if f.Fails[x]--; f.Fails[x] >= 0 {
		return nil, &Mark{x.(*Obj).N}
	}
	return x, nil
}
