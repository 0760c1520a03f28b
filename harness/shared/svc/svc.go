// Package svc declares the interface the decorators are generated for and a scripted implementation of it.
package svc

import (
	"context"
	"errors"
	"io"

	"verif.local/zv/v"
)

// Obj is a type of the package that must be qualified by its users.
type Obj struct{ N int }

// Svc has methods of all the shapes the templates distinguish.
type Svc interface {
	Do(ctx context.Context, n int, rest ...string) (out string, count int, err error)
	Plain(a string, o *Obj) ([]int, error)
	Ask(c context.Context, k int) (int, bool)
	Sum(a, b int) (total int)
	Fire(x int)
	Tick()
	Ping(context.Context) error
	Fetch(ctx context.Context, m map[string]int, f func(int) int) (*Obj, error)
	Check(err error, ctx int) error
}

// Call is one recorded call.
type Call struct {
	M     string
	Ctx   context.Context
	I, J  int
	S     string
	Rest  []string
	O     *Obj
	Map   map[string]int
	Fn    func(int) int
	Err   error
	NoCtx bool
}

// Ret is what a call returns.
type Ret struct {
	S   string
	I   int
	B   bool
	Is  []int
	O   *Obj
	Err error
}

// Base is a scripted implementation. Hook decides the results of a call; it may panic or block.
type Base struct {
	Calls []Call
	Hook  func(c Call) Ret
	// Quiet leaves Calls alone.
	Quiet bool
}

func (b *Base) on(c Call) Ret {
	if !b.Quiet {
		b.Calls = append(b.Calls, c)
	}
	if b.Hook == nil {
		return Ret{}
	}
	return b.Hook(c)
}

func (b *Base) Do(ctx context.Context, n int, rest ...string) (string, int, error) {
	r := b.on(Call{M: "Do", Ctx: ctx, I: n, Rest: rest})
	return r.S, r.I, r.Err
}
func (b *Base) Plain(a string, o *Obj) ([]int, error) {
	r := b.on(Call{M: "Plain", S: a, O: o, NoCtx: true})
	return r.Is, r.Err
}
func (b *Base) Ask(c context.Context, k int) (int, bool) {
	r := b.on(Call{M: "Ask", Ctx: c, I: k})
	return r.I, r.B
}
func (b *Base) Sum(x, y int) int {
	return b.on(Call{M: "Sum", I: x, J: y, NoCtx: true}).I
}
func (b *Base) Fire(x int) { b.on(Call{M: "Fire", I: x, NoCtx: true}) }
func (b *Base) Tick()      { b.on(Call{M: "Tick", NoCtx: true}) }
func (b *Base) Ping(ctx context.Context) error {
	return b.on(Call{M: "Ping", Ctx: ctx}).Err
}
func (b *Base) Fetch(ctx context.Context, m map[string]int, f func(int) int) (*Obj, error) {
	r := b.on(Call{M: "Fetch", Ctx: ctx, Map: m, Fn: f})
	return r.O, r.Err
}
func (b *Base) Check(err error, ctx int) error {
	return b.on(Call{M: "Check", Err: err, I: ctx, NoCtx: true}).Err
}

// Methods names the methods of Svc.
var Methods = []string{"Do", "Plain", "Ask", "Sum", "Fire", "Tick", "Ping", "Fetch", "Check"}

// HasErr tells whether the method returns an error.
func HasErr(m string) bool {
	return m == "Do" || m == "Plain" || m == "Ping" || m == "Fetch" || m == "Check"
}

// HasCtx tells whether the method accepts a context.
func HasCtx(m string) bool { return m == "Do" || m == "Ask" || m == "Ping" || m == "Fetch" }

// Arg makes the arguments of a call, taking the plain values from the inputs.
func Arg(label, m string, ctx context.Context) Call {
	c := Call{M: m, NoCtx: !HasCtx(m)}
	if HasCtx(m) {
		c.Ctx = ctx
	}
	switch m {
	case "Do":
		c.I = int(v.I64(label+".n", -1<<31, 1<<31))
		switch v.Choice(label+".rest", 3) {
		case 1:
			c.Rest = []string{}
		case 2:
			c.Rest = []string{v.Str(label+".r0", 1), "tail"}
		}
	case "Plain":
		c.S = v.StrUpTo(label+".a", 2)
		if v.Bool(label + ".o") {
			c.O = &Obj{N: 7}
		}
	case "Ask", "Fire":
		c.I = int(v.I64(label+".k", -1<<31, 1<<31))
	case "Check":
		c.I = int(v.I64(label+".k", -1<<31, 1<<31))
		if v.Bool(label + ".e") {
			c.Err = errArg
		}
	case "Sum":
		c.I, c.J = int(v.I64(label+".x", -1<<31, 1<<31)), int(v.I64(label+".y", -1<<31, 1<<31))
	case "Fetch":
		c.Map = map[string]int{"k": 1}
		c.Fn = func(i int) int { return i + 41 }
	}
	return c
}

var errArg = errors.New("argument")

// ErrBase is an error an implementation returns.
var ErrBase = errors.New("base failed")

// Rets makes the results of a call.
func Rets(label, m string) Ret {
	var r Ret
	switch m {
	case "Do":
		r.S, r.I = v.Str(label+".out", 1), int(v.I64(label+".count", -1<<31, 1<<31))
	case "Plain":
		if v.Bool(label + ".is") {
			r.Is = []int{3, 4}
		}
	case "Ask":
		r.I, r.B = int(v.I64(label+".i", -1<<31, 1<<31)), v.Bool(label+".b")
	case "Sum":
		r.I = int(v.I64(label+".i", -1<<31, 1<<31))
	case "Fetch":
		if v.Bool(label + ".o") {
			r.O = &Obj{N: 9}
		}
	}
	if HasErr(m) {
		switch v.Choice(label+".err", 3) {
		case 1:
			r.Err = ErrBase
		case 2:
			r.Err = io.EOF
		}
	}
	return r
}

// Invoke calls the method with the arguments.
func Invoke(s Svc, c Call) (r Ret) {
	switch c.M {
	case "Do":
		r.S, r.I, r.Err = s.Do(c.Ctx, c.I, c.Rest...)
	case "Plain":
		r.Is, r.Err = s.Plain(c.S, c.O)
	case "Ask":
		r.I, r.B = s.Ask(c.Ctx, c.I)
	case "Sum":
		r.I = s.Sum(c.I, c.J)
	case "Fire":
		s.Fire(c.I)
	case "Tick":
		s.Tick()
	case "Ping":
		r.Err = s.Ping(c.Ctx)
	case "Fetch":
		r.O, r.Err = s.Fetch(c.Ctx, c.Map, c.Fn)
	case "Check":
		r.Err = s.Check(c.Err, c.I)
	}
	return
}

// SameArgs asserts that the implementation got the caller's arguments, the context aside.
func SameArgs(got, want Call, what string) {
	v.Assert(got.M == want.M, what+": the same method of the implementation is called")
	v.Assert(v.And(got.I == want.I, v.And(got.J == want.J, v.Eq(got.S, want.S))), what+": plain arguments reach the implementation unchanged")
	v.Assert(got.O == want.O, what+": pointer arguments reach the implementation unchanged")
	v.Assert(got.Err == want.Err, what+": error arguments reach the implementation unchanged")
	v.Assert(len(got.Rest) == len(want.Rest) && (got.Rest == nil) == (want.Rest == nil), what+": the variadic argument keeps its length")
	if len(got.Rest) == len(want.Rest) && len(want.Rest) > 0 {
		v.Assert(&got.Rest[0] == &want.Rest[0], what+": the variadic argument is the caller's slice")
		v.Assert(v.And(v.Eq(got.Rest[0], want.Rest[0]), v.Eq(got.Rest[1], want.Rest[1])), what+": the variadic elements are unchanged")
	}
	v.Assert((got.Map == nil) == (want.Map == nil) && len(got.Map) == len(want.Map), what+": map arguments reach the implementation unchanged")
	v.Assert((got.Fn == nil) == (want.Fn == nil) && (got.Fn == nil || got.Fn(1) == want.Fn(1)), what+": function arguments reach the implementation unchanged")
}

// SameRets asserts that the caller gets the implementation's results.
func SameRets(got, want Ret, what string) {
	v.Assert(v.And(v.Eq(got.S, want.S), v.And(got.I == want.I, got.B == want.B)), what+": plain results reach the caller unchanged")
	v.Assert(got.O == want.O && len(got.Is) == len(want.Is) && (len(got.Is) == 0 || &got.Is[0] == &want.Is[0]), what+": reference results reach the caller unchanged")
	v.Assert(got.Err == want.Err, what+": the error reaches the caller unchanged")
}

type key struct{}

// Ctx makes a context that carries a value and can be cancelled.
func Ctx() (context.Context, context.CancelFunc) {
	return context.WithCancel(context.WithValue(context.Background(), key{}, "carried"))
}

// Carried reports whether the context descends from one made by Ctx.
func Carried(ctx context.Context) bool { s, _ := ctx.Value(key{}).(string); return s == "carried" }

// Pass checks one call of any method through a decorator: the implementation is called exactly once with the caller's
// arguments, the caller gets its results, and a panic of the implementation reaches the caller. prep runs before the call.
func Pass(what string, mk func(Svc) Svc) { PassWith(what, mk, HasErr) }

// PassWith is Pass where the implementation fails only in the given methods.
func PassWith(what string, mk func(Svc) Svc, fails func(m string) bool) {
	b := &Base{}
	d := mk(b)
	m := v.OneOf("method", Methods...)
	ctx, cancel := Ctx()
	defer cancel()
	arg := Arg("arg", m, ctx)
	ret := Rets("ret", m)
	if !fails(m) {
		v.Assume(ret.Err == nil)
	}
	boom := v.Bool("panics")
	live, dead := true, true
	b.Hook = func(c Call) Ret {
		if c.Ctx != nil {
			live = c.Ctx.Err() == nil
			if !boom {
				cancel()
				dead = c.Ctx.Err() == context.Canceled
			}
		}
		if boom {
			panic("boom " + c.M)
		}
		return ret
	}
	var got Ret
	panicked, val := v.Catch(func() { got = Invoke(d, arg) })
	v.Assert(len(b.Calls) == 1, what+": the implementation is called exactly once per call")
	c := b.Calls[0]
	SameArgs(c, arg, what)
	if HasCtx(m) {
		v.Assert(Carried(c.Ctx), what+": the context the implementation gets descends from the caller's")
		v.Assert(live, what+": the context the implementation gets is alive while the caller's is")
		v.Assert(dead, what+": cancelling the caller's context cancels the one the implementation got")
	}
	if boom {
		s, _ := val.(string)
		v.Assert(panicked && s == "boom "+m, what+": a panic of the implementation reaches the caller")
		v.Reach("panic")
		return
	}
	v.Assert(!panicked, what+": the decorator does not panic")
	SameRets(got, ret, what)
	v.Reach("returned")
}
