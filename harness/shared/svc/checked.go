package svc

import (
	"context"

	"verif.local/zv/v"
)

// Req is an argument that validates itself through a pointer.
type Req struct {
	Err   error
	Asked int
}

func (r *Req) Validate() error {
	if r == nil {
		return nil
	}
	r.Asked++
	return r.Err
}

// Val validates itself as a value.
type Val struct {
	Err   error
	Asked *int
}

func (x Val) Validate() error { *x.Asked++; return x.Err }

// Validator is an interface argument.
type Validator interface{ Validate() error }

// Odd has a Validate method of another kind.
type Odd struct{ Asked *int }

func (o Odd) Validate(strict bool) error { *o.Asked++; return ErrBase }

// Checked has arguments of all the kinds the validating decorators distinguish.
type Checked interface {
	One(ctx context.Context, a *Req, n int) (string, error)
	Two(a *Req, b Val) (int, error)
	Iface(x Validator, o Odd) error
	Any(ctx context.Context, x interface{}) error
	Three(a, b, c *Req) error
	NoErr(a *Req) int
	Named(ctx *Req, n int) error
	Later(n int, ctx *Req) error
	Both(c context.Context, ctx *Req) error
	Many(a *Req, more ...Validator) error
	Unnamed(*Req, Val) (int, error)
}

type checked struct {
	calls int
	err   error
}

func (k *checked) One(ctx context.Context, a *Req, n int) (string, error) {
	k.calls++
	return "one", k.err
}
func (k *checked) Two(a *Req, b Val) (int, error)               { k.calls++; return 2, k.err }
func (k *checked) Iface(x Validator, o Odd) error               { k.calls++; return k.err }
func (k *checked) Any(ctx context.Context, x interface{}) error { k.calls++; return k.err }
func (k *checked) Three(a, b, c *Req) error                     { k.calls++; return k.err }
func (k *checked) Named(ctx *Req, n int) error                  { k.calls++; return k.err }
func (k *checked) Later(n int, ctx *Req) error                  { k.calls++; return k.err }
func (k *checked) Both(c context.Context, ctx *Req) error       { k.calls++; return k.err }
func (k *checked) Many(a *Req, more ...Validator) error         { k.calls++; return k.err }
func (k *checked) Unnamed(*Req, Val) (int, error)               { k.calls++; return 2, k.err }
func (k *checked) NoErr(a *Req) int                             { k.calls++; return 5 }

// named is a validation error with its own text.
type named struct{ s string }

func (n *named) Error() string { return n.s }

// Gate checks that calls reach the implementation only when every argument that can validate itself agrees, that the
// first refusal in argument order decides the error, and that everything else passes.
func Gate(mk func(Checked) Checked, refusal func(got, cause error) bool, kinds ...func(text string) error) {
	k := &checked{}
	if v.Bool("base fails") {
		k.err = ErrBase
	}
	d := mk(k)
	odd := 0
	vals := 0
	var want error // the first refusal
	fail := func(i string) error {
		if !v.Bool("invalid" + i) {
			return nil
		}
		text := "bad " + v.Str("text"+i, 1)
		e := error(&named{text})
		if want == nil && len(kinds) > 0 {
			if c := v.Choice("kind", 1+len(kinds)); c > 0 {
				e = kinds[c-1](text)
			}
		}
		if want == nil {
			want = e
		}
		return e
	}
	var rs []*Req
	req := func(i string) *Req {
		if v.Choice("nil"+i, 2) == 1 {
			return nil
		}
		r := &Req{Err: fail(i)}
		rs = append(rs, r)
		return r
	}
	var err error
	zero := true
	gated := true
	switch v.Choice("method", 11) {
	case 0:
		var s string
		s, err = d.One(context.Background(), req("0"), 3)
		zero = s == ""
		v.Assert(zero || s == "one", "results pass unchanged")
	case 1:
		r := req("0")
		var n int
		n, err = d.Two(r, Val{Err: fail("1"), Asked: &vals})
		zero = n == 0
		v.Assert(zero || n == 2, "results pass unchanged")
	case 2:
		var x Validator
		switch v.Choice("dyn", 3) {
		case 0:
			x = req("0")
		case 1:
			x = Val{Err: fail("0"), Asked: &vals}
		}
		err = d.Iface(x, Odd{&odd})
	case 3:
		var x interface{}
		switch v.Choice("dyn", 4) {
		case 0:
			x = req("0")
		case 1:
			x = Val{Err: fail("0"), Asked: &vals}
		case 2:
			x = 7
		}
		err = d.Any(context.Background(), x)
	case 4:
		err = d.Three(req("0"), req("1"), req("2"))
	case 6:
		err = d.Named(req("0"), 1)
	case 7:
		err = d.Later(1, req("0"))
	case 8:
		err = d.Both(context.Background(), req("0"))
	case 9:
		// the elements of a variadic argument are no arguments of their own
		err = d.Many(req("0"), Val{Err: ErrBase, Asked: &vals})
	case 10:
		r := req("0")
		var n int
		n, err = d.Unnamed(r, Val{Err: fail("1"), Asked: &vals})
		zero = n == 0
		v.Assert(zero || n == 2, "results pass unchanged")
	case 5:
		v.Assert(d.NoErr(req("0")) == 5, "methods without an error pass")
		gated = false
	}
	v.Assert(odd == 0, "only Validate() error counts as validation")
	if !gated {
		v.Assert(k.calls == 1, "methods without an error are not gated")
		v.Reach("ungated")
		return
	}
	if want != nil {
		v.Assert(k.calls == 0, "an invalid argument keeps the call from the implementation")
		v.Assert(err != nil && refusal(err, want), "the refusal tells the first invalid argument's error")
		v.Assert(zero, "a refused call has no results")
		v.Reach("refused")
		return
	}
	v.Assert(k.calls == 1, "a call with valid arguments reaches the implementation once")
	v.Assert(err == k.err, "the implementation's error passes unchanged")
	for _, r := range rs {
		v.Assert(r.Asked >= 1, "every argument that can validate itself is asked")
	}
	v.Reach("admitted")
}
