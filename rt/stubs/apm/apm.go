// Package apm stands in for go.elastic.co/apm/v2: spans and errors are kept.
package apm

import "context"

// Silent turns recording off, for callers on several goroutines.
var Silent bool

// Label is one label of a span.
type Label struct {
	Key   string
	Value interface{}
}

type SpanContext struct{ Labels []Label }

func (c *SpanContext) SetLabel(key string, value interface{}) {
	c.Labels = append(c.Labels, Label{key, value})
}

type SpanData struct {
	Name, Type string
	Context    SpanContext
}

type Span struct {
	*SpanData
	Parent *Span
	Ended  int
	Errs   []error
}

func (s *Span) End() { s.Ended++ }

type ctxKey struct{}

// Recorded lists every span and Captured every error.
var (
	Recorded []*Span
	Captured []*Error
)

type SpanOptions struct{}

func StartSpan(ctx context.Context, name, spanType string) (*Span, context.Context) {
	p, _ := ctx.Value(ctxKey{}).(*Span)
	s := &Span{SpanData: &SpanData{Name: name, Type: spanType}, Parent: p}
	if !Silent {
		Recorded = append(Recorded, s)
	}
	return s, context.WithValue(ctx, ctxKey{}, s)
}

func SpanFromContext(ctx context.Context) *Span { s, _ := ctx.Value(ctxKey{}).(*Span); return s }

type Error struct {
	Err  error
	Span *Span
	Sent int
}

func (e *Error) Send() { e.Sent++ }

func CaptureError(ctx context.Context, err error) *Error {
	e := &Error{Err: err, Span: SpanFromContext(ctx)}
	if !Silent {
		Captured = append(Captured, e)
	}
	return e
}
