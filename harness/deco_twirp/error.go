package twirp

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"deco.local/svc"
	"github.com/twitchtv/twirp"

	"verif.local/zv/v"
)

// jsonMarshal stands in for encoding/json.Marshal inside the engine, for the arguments used here.
//
//verif:replace encoding/json.Marshal
func jsonMarshal(x any) ([]byte, error) {
	switch y := x.(type) {
	case string:
		return []byte("\"" + y + "\""), nil
	case int:
		return []byte(itoa(y)), nil
	case *svc.Obj:
		if y == nil {
			return []byte("null"), nil
		}
		return []byte("{\"N\":" + itoa(y.N) + "}"), nil
	case []string:
		if y == nil {
			return []byte("null"), nil
		}
		return []byte("[\"" + strings.Join(y, "\",\"") + "\"]"), nil
	case map[string]int:
		return []byte("{\"k\":1}"), nil
	case nil:
		return []byte("null"), nil
	case error:
		return []byte("{}"), nil
	}
	return nil, errors.New("json: unsupported type")
}

// encoders are the writers of the encoders.
var encoders = map[*json.Encoder]io.Writer{}

//verif:replace encoding/json.NewEncoder
func newEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = w
	return e
}

//verif:replace (*encoding/json.Encoder).SetEscapeHTML
func setEscapeHTML(e *json.Encoder, on bool) {}

//verif:replace (*encoding/json.Encoder).Encode
func encode(e *json.Encoder, x any) error {
	b, err := jsonMarshal(x)
	if err == nil {
		_, err = encoders[e].Write(append(b, '\n'))
	}
	return err
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}
	return itoa(n/10) + string([]byte{'0' + byte(n%10)})
}

// A failing call gets a twirp error that carries the request; a successful one is left alone.
//
//verif:reach ok,twirp,plain,norequest
func Verif_C10_error() {
	m := v.OneOf("method", svc.Methods...)
	b := &svc.Base{}
	kind := 0
	var cause error
	if svc.HasErr(m) {
		kind = v.Choice("fails", 4)
	}
	msg := "bad " + v.StrOf("msg", 1, "az")
	switch kind {
	case 1:
		cause = errors.New(msg)
	case 2:
		cause = twirp.NewError(twirp.NotFound, msg).WithMeta("own", "kept")
	case 3:
		// only the cause of the error is a twirp error
		cause = fmt.Errorf("%s: %w", msg, twirp.NewError(twirp.NotFound, "inner"))
		msg += ": twirp error not_found: inner"
	}
	b.Hook = func(svc.Call) svc.Ret { return svc.Ret{S: "s", I: 4, Err: cause} }
	d := NewSvcWithTwirpError(b)
	ctx, cancel := svc.Ctx()
	defer cancel()
	arg := svc.Call{M: m, Ctx: ctx, I: 3, J: 4, S: v.StrOf("s", 1, "az09"), O: &svc.Obj{N: 7}, Rest: []string{"x", "y"}, Map: map[string]int{"k": 1}, Fn: func(i int) int { return i }}
	got := svc.Invoke(d, arg)
	v.Assert(len(b.Calls) == 1, "the implementation is called exactly once per call")
	svc.SameArgs(b.Calls[0], relevant(arg), "twirp_error")
	if m == "Do" {
		v.Assert(got.S == "s" && got.I == 4, "results pass unchanged")
	}
	if cause == nil {
		v.Assert(got.Err == nil, "a success stays a success")
		v.Reach("ok")
		return
	}
	if m == "Ping" {
		v.Assert(got.Err == cause, "without request arguments the error passes unchanged")
		v.Reach("norequest")
		return
	}
	te, ok := got.Err.(twirp.Error)
	v.Assert(ok, "a failure becomes a twirp error")
	if !ok {
		return
	}
	v.Assert(v.Eq(te.Msg(), msg), "the message is kept")
	if kind == 2 {
		v.Assert(te.Code() == twirp.NotFound, "a twirp error keeps its code")
		v.Assert(te.Meta("own") == "kept", "a twirp error keeps its metadata")
		v.Reach("twirp")
	} else {
		v.Assert(te.Code() == twirp.Internal, "any other error becomes an internal error")
		v.Assert(errors.Is(got.Err, cause), "the internal error wraps its cause")
		v.Reach("plain")
	}
	req := te.Meta("request")
	want := map[string]string{"Do": "3", "Plain": "\"" + arg.S + "\"", "Fetch": "{\"k\":1}", "Check": "null"}[m]
	v.Assert(v.Eq(req, want), "the request metadata is the JSON form of the request, the first argument after the context")
}

// relevant keeps the fields the method takes.
func relevant(c svc.Call) svc.Call {
	r := svc.Call{M: c.M, Ctx: c.Ctx}
	switch c.M {
	case "Do":
		r.I, r.Rest = c.I, c.Rest
	case "Plain":
		r.S, r.O = c.S, c.O
	case "Ask", "Fire", "Check":
		r.I = c.I
	case "Sum":
		r.I, r.J = c.I, c.J
	case "Fetch":
		r.Map, r.Fn = c.Map, c.Fn
	}
	return r
}

//verif:reach returned,panic
func Verif_C01_twirperror() {
	svc.PassWith("twirp_error", func(b svc.Svc) svc.Svc { return NewSvcWithTwirpError(b) }, func(m string) bool { return false })
}
