package own

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/sirupsen/logrus"

	"verif.local/zv/v"
)

var errBase = errors.New("base")

type call struct {
	m string
	a []any
}

type impl struct {
	calls []call
	boom  bool
	err   error
	it    item
	p     *item
	m     map[string]*item
	ch    chan item
}

func (w *impl) on(m string, a ...any) {
	w.calls = append(w.calls, call{m, a})
	if w.boom {
		panic("boom")
	}
}

func (w *impl) hidden(i *item, more ...*item) (map[string]*item, error) {
	w.on("hidden", i, more)
	return w.m, w.err
}
func (w *impl) Get(ctx context.Context, i item) (*item, error) {
	w.on("Get", ctx.Value(key{}), i)
	return w.p, w.err
}
func (w *impl) Boxed(b Box[*item], f func(item) Box[int]) (Box[item], error) {
	w.on("Boxed", b, f(w.it))
	return Box[item]{w.it}, w.err
}
func (w *impl) put(i item, p *item) item { w.on("put", i, p); return w.it }
func (w *impl) Clash(e item) (item, error) {
	w.on("Clash", e)
	return w.it, w.err
}
func (w *impl) Chan(c chan<- item, d <-chan *item) chan item { w.on("Chan", c, d); return w.ch }
func (w *impl) named(c item, o *Box[Own]) (struct {
	A *item `json:"a"`
}, item) {
	w.on("named", c, o)
	return struct {
		A *item `json:"a"`
	}{w.p}, w.it
}

type key struct{}

func pass(what string, mk func(Own) Own, fails, boom bool) {
	k := int(v.I64("k", -1<<31, 1<<31))
	n := int(v.I64("n", -1<<31, 1<<31))
	w := &impl{boom: boom, it: item{k}, p: &item{1}, m: map[string]*item{}, ch: make(chan item)}
	if fails && v.Bool("fails") {
		w.err = errBase
	}
	d := mk(w)
	i, p, q := item{n}, &item{2}, &item{3}
	var name string
	var args []any
	do := func(m string, f func(), a ...any) {
		name, args = m, a
		panicked, val := v.Catch(f)
		if boom {
			b, _ := val.(string)
			v.Assert(panicked && b == "boom", what+": a panic of the implementation reaches the caller")
			v.Reach("panic")
			return
		}
		v.Assert(!panicked, what+": the decorator does not panic")
		v.Reach("returned")
	}
	ok := func(c bool) { v.Assert(c, what+": the caller gets the implementation's results") }
	switch v.Choice("method", 7) {
	case 0:
		more := [][]*item{nil, {}, {p, q}}[v.Choice("many", 3)]
		do("hidden", func() {
			m, err := d.hidden(p, more...)
			w.m["x"] = p
			ok(m["x"] == p && err == w.err)
		}, p)
		if len(w.calls) == 1 && w.calls[0].m == "hidden" {
			got, is := w.calls[0].a[1].([]*item)
			v.Assert(is && len(got) == len(more) && (got == nil) == (more == nil) && (len(more) == 0 || &got[0] == &more[0]), what+": the variadic slice is the caller's")
			w.calls[0].a = w.calls[0].a[:1]
		}
	case 1:
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, k))
		defer cancel()
		do("Get", func() {
			r, err := d.Get(ctx, i)
			ok(r == w.p && err == w.err)
		}, k, i)
	case 2:
		f := func(x item) Box[int] { return Box[int]{x.n + 1} }
		do("Boxed", func() {
			r, err := d.Boxed(Box[*item]{q}, f)
			ok(r == Box[item]{w.it} && err == w.err)
		}, Box[*item]{q}, Box[int]{k + 1})
	case 3:
		do("put", func() { ok(d.put(i, p) == w.it) }, i, p)
	case 4:
		do("Clash", func() {
			r, err := d.Clash(i)
			ok(r == w.it && err == w.err)
		}, i)
	case 5:
		c, e := make(chan item), make(chan *item)
		do("Chan", func() { ok(d.Chan(c, e) == w.ch) }, (chan<- item)(c), (<-chan *item)(e))
	case 6:
		o := &Box[Own]{d}
		do("named", func() {
			r, x := d.named(i, o)
			ok(r.A == w.p && x == w.it)
		}, i, o)
	}
	v.Assert(len(w.calls) == 1, what+": the implementation is called exactly once")
	v.Assert(w.calls[0].m == name, what+": the same method is called")
	v.Assert(len(w.calls[0].a) == len(args), what+": all arguments are passed")
	for j, a := range args {
		v.Assert(w.calls[0].a[j] == a, what+": the implementation gets the caller's arguments")
	}
}

// Decorators in the package of the interface itself.
//
//verif:reach panic,returned
func Verif_C01_own() {
	second := time.Second
	mk := []func(b Own) Own{
		func(b Own) Own { return NewOwnWithCircuitBreaker(b, 1, second) },
		func(b Own) Own { return NewOwnAPMTracing(b) },
		func(b Own) Own { return NewOwnWithGRPCValidation(b) },
		func(b Own) Own { return NewOwnWithLog(b, io.Discard, io.Discard) },
		func(b Own) Own { return NewOwnWithLogrus(b, logrus.NewEntry(logrus.New())) },
		func(b Own) Own { return NewOwnWithTracing(b, "inst") },
		func(b Own) Own { return NewOwnOtel(b, "inst") },
		func(b Own) Own { return NewOwnOpentracing(b, "inst") },
		func(b Own) Own { return NewOwnWithPrometheus(b, "inst") },
		func(b Own) Own { return NewOwnWithRateLimit(b, 1, 10) },
		func(b Own) Own { return Newagain(b, 0, second) },
		func(b Own) Own { return MustNewOwnRoundRobinPool(b) },
		func(b Own) Own { return NewOwnPool(b) },
		func(b Own) Own { return NewOwnWithTimeout(b, OwnWithTimeoutConfig{GetTimeout: second}) },
		func(b Own) Own { return NewOwnWithTwirpValidation(b) },
		func(b Own) Own { return NewOwnWithValidation(b) },
	}
	i := v.Choice("decorator", len(mk))
	pass("own package", mk[i], true, v.Bool("panics"))
}

//verif:reach panic,returned
func Verif_C01_own_twirp() {
	pass("twirp_error", func(b Own) Own { return NewOwnWithTwirpError(b) }, false, v.Bool("panics"))
}

//verif:reach returned
func Verif_C01_own_fallback() {
	pass("fallback", func(b Own) Own { return NewOwnWithFallback(time.Second, b) }, false, false)
}
