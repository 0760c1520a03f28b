// Package trace stands in for go.opentelemetry.io/otel/trace.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

// Silent turns recording off, for callers on several goroutines.
var Silent bool

type SpanEndOption interface{ end() }
type SpanStartOption interface{ start() }
type EventOption interface{ event() }
type TracerOption interface{ tracer() }

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
}

type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}

// Rec is a recorded span.
type Rec struct {
	Tracer, Name string
	Parent       *Rec
	Errs         []error
	Status       codes.Code
	Desc         string
	Attrs        []attribute.KeyValue
	Ended        int
}

func (r *Rec) End(options ...SpanEndOption)                  { r.Ended++ }
func (r *Rec) AddEvent(name string, options ...EventOption)  {}
func (r *Rec) IsRecording() bool                             { return true }
func (r *Rec) RecordError(err error, options ...EventOption) { r.Errs = append(r.Errs, err) }
func (r *Rec) SetStatus(code codes.Code, description string) { r.Status, r.Desc = code, description }
func (r *Rec) SetName(name string)                           { r.Name = name }
func (r *Rec) SetAttributes(kv ...attribute.KeyValue)        { r.Attrs = append(r.Attrs, kv...) }

type ctxKey struct{}

// Recorded lists every span.
var Recorded []*Rec

// T is a tracer.
type T struct{ Name string }

func (t T) Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span) {
	p, _ := ctx.Value(ctxKey{}).(*Rec)
	s := &Rec{Tracer: t.Name, Name: spanName, Parent: p}
	if !Silent {
		Recorded = append(Recorded, s)
	}
	return context.WithValue(ctx, ctxKey{}, s), s
}

func SpanFromContext(ctx context.Context) Span { s, _ := ctx.Value(ctxKey{}).(*Rec); return s }
func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, ctxKey{}, s)
}
