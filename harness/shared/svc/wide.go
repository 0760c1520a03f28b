package svc

import (
	"context"
	"fmt"
	"io"

	"verif.local/zv/v"
)

// Wide has methods of unusual shapes.
type Wide interface {
	fmt.Stringer
	io.Writer
	Narrow
	Pair(error) (error, error)
	Later(n int, c context.Context) error
	Ctxs(ctxs ...context.Context) error
	Funcs(fs ...func(...int) error) (func() error, error)
	Unnamed(string, string, Obj, *Obj, []Obj, map[string]Obj, chan int) (string, string, bool)
	Blank(_ int, _ string) (_ int, _ error)
	First(bool) (err error, ok bool)
	Lit(x interface{ M() int }, s struct{ A int }) (interface{}, error)
	Chans(in <-chan int, out chan<- int) (<-chan int, error)
	Grouped(a, b int, c, d string) (x, y int, z error)
	Any(v any, more ...any) (any, error)
	Old(args ...interface{}) error
	Errs(error, ...error) error
	Raw(...[]byte) [][]byte
	Local(result string, err int, ctx bool) (ok, since string)
	Only(context.Context)
	Rest(context.Context, int, ...*Obj) (int, error)
	Swap(ctx context.Context, from, to *Obj) (to2, from2 *Obj)
	Deep(ctx context.Context, f func(context.Context, ...string) (int, error), m map[[2]int][]*Obj) (func(int) string, [2]int, error)
}

// Narrow is embedded by Wide.
type Narrow interface {
	Narrow(p []byte, q [2]*Obj) ([]byte, [2]*Obj)
}

// W is a call of Wide: its arguments or results in order.
type W struct {
	M string
	A []any
}

type wide struct {
	calls []W
	hook  func(m string) []any
}

func (w *wide) on(m string, a ...any) []any {
	w.calls = append(w.calls, W{m, a})
	return w.hook(m)
}

func errOf(x any) error { e, _ := x.(error); return e }

func (w *wide) String() string { return w.on("String")[0].(string) }
func (w *wide) Write(p []byte) (int, error) {
	r := w.on("Write", p)
	return r[0].(int), errOf(r[1])
}
func (w *wide) Narrow(p []byte, q [2]*Obj) ([]byte, [2]*Obj) {
	r := w.on("Narrow", p, q)
	return r[0].([]byte), r[1].([2]*Obj)
}
func (w *wide) Pair(e error) (error, error) {
	r := w.on("Pair", e)
	return errOf(r[0]), errOf(r[1])
}
func (w *wide) Later(n int, c context.Context) error { return errOf(w.on("Later", n, c)[0]) }
func (w *wide) Ctxs(ctxs ...context.Context) error   { return errOf(w.on("Ctxs", ctxs)[0]) }
func (w *wide) Funcs(fs ...func(...int) error) (func() error, error) {
	r := w.on("Funcs", fs)
	return r[0].(func() error), errOf(r[1])
}
func (w *wide) Unnamed(a, b string, o Obj, p *Obj, s []Obj, m map[string]Obj, c chan int) (string, string, bool) {
	r := w.on("Unnamed", a, b, o.N, p, s, m, c)
	return r[0].(string), r[1].(string), r[2].(bool)
}
func (w *wide) Blank(n int, s string) (int, error) {
	r := w.on("Blank", n, s)
	return r[0].(int), errOf(r[1])
}
func (w *wide) First(b bool) (error, bool) {
	r := w.on("First", b)
	return errOf(r[0]), r[1].(bool)
}
func (w *wide) Lit(x interface{ M() int }, s struct{ A int }) (interface{}, error) {
	r := w.on("Lit", x, s.A)
	return r[0], errOf(r[1])
}
func (w *wide) Chans(in <-chan int, out chan<- int) (<-chan int, error) {
	r := w.on("Chans", in, out)
	return r[0].(<-chan int), errOf(r[1])
}
func (w *wide) Grouped(a, b int, c, d string) (int, int, error) {
	r := w.on("Grouped", a, b, c, d)
	return r[0].(int), r[1].(int), errOf(r[2])
}
func (w *wide) Any(x any, more ...any) (any, error) {
	r := w.on("Any", x, more)
	return r[0], errOf(r[1])
}
func (w *wide) Old(xs ...interface{}) error     { return errOf(w.on("Old", xs)[0]) }
func (w *wide) Errs(e error, es ...error) error { return errOf(w.on("Errs", e, es)[0]) }
func (w *wide) Raw(bs ...[]byte) [][]byte       { return w.on("Raw", bs)[0].([][]byte) }
func (w *wide) Local(a string, b int, c bool) (string, string) {
	r := w.on("Local", a, b, c)
	return r[0].(string), r[1].(string)
}
func (w *wide) Only(c context.Context) { w.on("Only", c) }
func (w *wide) Rest(c context.Context, n int, os ...*Obj) (int, error) {
	r := w.on("Rest", c, n, os)
	return r[0].(int), errOf(r[1])
}
func (w *wide) Swap(c context.Context, from, to *Obj) (*Obj, *Obj) {
	r := w.on("Swap", c, from, to)
	return r[0].(*Obj), r[1].(*Obj)
}
func (w *wide) Deep(c context.Context, f func(context.Context, ...string) (int, error), m map[[2]int][]*Obj) (func(int) string, [2]int, error) {
	r := w.on("Deep", c, f, m)
	return r[0].(func(int) string), r[1].([2]int), errOf(r[2])
}

type em struct{ n int }

func (e *em) M() int { return e.n }

// same compares an argument or a result with the one handed over.
func same(a, b any) bool {
	switch x := a.(type) {
	case context.Context:
		y, ok := b.(context.Context)
		return ok && Carried(x) == Carried(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case []Obj:
		y, ok := b.([]Obj)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case []*Obj:
		y, ok := b.([]*Obj)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case []any:
		y, ok := b.([]any)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case [][]byte:
		y, ok := b.([][]byte)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case []error:
		y, ok := b.([]error)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case []context.Context:
		y, ok := b.([]context.Context)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case []func(...int) error:
		y, ok := b.([]func(...int) error)
		return ok && len(x) == len(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case map[string]Obj:
		y, ok := b.(map[string]Obj)
		if !ok {
			return false
		}
		x["mark"] = Obj{N: 77}
		return y["mark"].N == 77
	case map[[2]int][]*Obj:
		y, ok := b.(map[[2]int][]*Obj)
		if !ok {
			return false
		}
		x[[2]int{7, 7}] = []*Obj{nil}
		return len(y[[2]int{7, 7}]) == 1
	case func() error:
		y, ok := b.(func() error)
		return ok && x() == y()
	case func(int) string:
		y, ok := b.(func(int) string)
		return ok && x(5) == y(5)
	case func(context.Context, ...string) (int, error):
		y, ok := b.(func(context.Context, ...string) (int, error))
		if !ok {
			return false
		}
		m, e := x(context.Background(), "a", "b")
		n, f := y(context.Background(), "a", "b")
		return m == n && e == f
	}
	return a == b
}

var errOne, errTwo = fmt.Errorf("one"), fmt.Errorf("two")

// WidePass checks one call of any method of Wide through a decorator.
func WidePass(what string, mk func(Wide) Wide) { WidePassWith(what, mk, true, v.Bool("panics")) }

// WidePassWith is WidePass where the implementation may fail if fails is set and panics if boom is.
func WidePassWith(what string, mk func(Wide) Wide, fails, boom bool) {
	w := &wide{}
	d := mk(w)
	ctx, cancel := Ctx()
	defer cancel()
	var last error
	if fails {
		switch v.Choice("err", 3) {
		case 1:
			last = ErrBase
		case 2:
			last = io.EOF
		}
	}
	n, k := int(v.I64("n", -1<<31, 1<<31)), int(v.I64("k", -1<<31, 1<<31))
	s, t := v.Str("s", 1), v.StrUpTo("t", 2)
	p, q := &Obj{N: 1}, &Obj{N: 2}
	var first error
	if v.Bool("other") {
		first = errTwo
	}
	var ret []any
	w.hook = func(string) []any {
		if boom {
			panic("boom")
		}
		return ret
	}
	var arg, got []any
	var m string
	call := func(name string, args, rets []any, f func()) {
		m, arg, ret = name, args, rets
		panicked, val := v.Catch(f)
		if boom {
			b, _ := val.(string)
			v.Assert(panicked && b == "boom", what+": a panic of the implementation reaches the caller")
			v.Reach("panic")
			return
		}
		v.Assert(!panicked, what+": the decorator does not panic")
		v.Reach("returned")
	}
	many := v.Choice("many", 3) // nil, empty, some
	switch v.Choice("method", 22) {
	case 0:
		call("String", nil, []any{s}, func() { got = []any{d.String()} })
	case 1:
		b := []byte("ab")
		call("Write", []any{b}, []any{n, last}, func() { x, y := d.Write(b); got = []any{x, y} })
	case 2:
		b, c := []byte("ab"), []byte("c")
		call("Narrow", []any{b, [2]*Obj{p, q}}, []any{c, [2]*Obj{q, p}}, func() { x, y := d.Narrow(b, [2]*Obj{p, q}); got = []any{x, y} })
	case 3:
		call("Pair", []any{first}, []any{errOne, last}, func() { x, y := d.Pair(first); got = []any{x, y} })
	case 4:
		call("Later", []any{n, ctx}, []any{last}, func() { got = []any{d.Later(n, ctx)} })
	case 5:
		cs := [][]context.Context{nil, {}, {context.Background(), ctx}}[many]
		call("Ctxs", []any{cs}, []any{last}, func() { got = []any{d.Ctxs(cs...)} })
	case 6:
		fs := [][]func(...int) error{nil, {}, {func(...int) error { return errOne }}}[many]
		r := func() error { return errTwo }
		call("Funcs", []any{fs}, []any{r, last}, func() { x, y := d.Funcs(fs...); got = []any{x, y} })
	case 7:
		os, om, c := []Obj{{N: 3}}, map[string]Obj{"a": {N: 4}}, make(chan int)
		call("Unnamed", []any{s, t, n, p, os, om, c}, []any{t, s, first != nil}, func() {
			x, y, z := d.Unnamed(s, t, Obj{N: n}, p, os, om, c)
			got = []any{x, y, z}
		})
	case 8:
		call("Blank", []any{n, s}, []any{k, last}, func() { x, y := d.Blank(n, s); got = []any{x, y} })
	case 9:
		call("First", []any{first == nil}, []any{first, n > 0}, func() { x, y := d.First(first == nil); got = []any{x, y} })
	case 10:
		e := &em{5}
		call("Lit", []any{e, n}, []any{p, last}, func() { x, y := d.Lit(e, struct{ A int }{n}); got = []any{x, y} })
	case 11:
		var in, r <-chan int = make(chan int), make(chan int)
		var out chan<- int = make(chan int)
		call("Chans", []any{in, out}, []any{r, last}, func() { x, y := d.Chans(in, out); got = []any{x, y} })
	case 12:
		call("Grouped", []any{n, k, s, t}, []any{k, n, last}, func() { x, y, z := d.Grouped(n, k, s, t); got = []any{x, y, z} })
	case 13:
		as := [][]any{nil, {}, {n, p}}[many]
		call("Any", []any{q, as}, []any{p, last}, func() { x, y := d.Any(q, as...); got = []any{x, y} })
	case 14:
		call("Local", []any{s, n, first == nil}, []any{s, t}, func() { x, y := d.Local(s, n, first == nil); got = []any{x, y} })
	case 15:
		call("Only", []any{ctx}, nil, func() { d.Only(ctx); got = nil })
	case 16:
		os := [][]*Obj{nil, {}, {p, q}}[many]
		call("Rest", []any{ctx, n, os}, []any{k, last}, func() { x, y := d.Rest(ctx, n, os...); got = []any{x, y} })
	case 17:
		call("Swap", []any{ctx, p, q}, []any{q, p}, func() { x, y := d.Swap(ctx, p, q); got = []any{x, y} })
	case 18:
		f := func(_ context.Context, xs ...string) (int, error) { return len(xs), errOne }
		mm := map[[2]int][]*Obj{}
		r := func(i int) string { return fmt.Sprint(i) }
		call("Deep", []any{ctx, f, mm}, []any{r, [2]int{n, k}, last}, func() { x, y, z := d.Deep(ctx, f, mm); got = []any{x, y, z} })
	case 19:
		as := [][]any{nil, {}, {n, p}}[many]
		call("Old", []any{as}, []any{last}, func() { got = []any{d.Old(as...)} })
	case 20:
		es := [][]error{nil, {}, {errTwo, errOne}}[many]
		call("Errs", []any{first, es}, []any{last}, func() { got = []any{d.Errs(first, es...)} })
	case 21:
		bs := [][][]byte{nil, {}, {[]byte("a"), nil}}[many]
		r := [][]byte{nil}
		call("Raw", []any{bs}, []any{r}, func() { got = []any{d.Raw(bs...)} })
	}
	v.Assert(len(w.calls) == 1, what+": the implementation is called exactly once per call")
	v.Assert(w.calls[0].M == m, what+": the same method of the implementation is called")
	v.Assert(len(w.calls[0].A) == len(arg), what+": every argument is handed over")
	for i, a := range w.calls[0].A {
		v.Assert(same(arg[i], a), what+": arguments reach the implementation unchanged and in order")
	}
	if boom {
		return
	}
	v.Assert(len(got) == len(ret), what+": every result is handed back")
	for i, r := range got {
		v.Assert(same(ret[i], r), what+": results reach the caller unchanged and in order")
	}
}
