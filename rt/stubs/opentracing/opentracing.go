// Package opentracing stands in for github.com/opentracing/opentracing-go: spans are kept.
package opentracing

import (
	"context"

	"github.com/opentracing/opentracing-go/log"
)

// Silent turns recording off, for callers on several goroutines.
var Silent bool

type Span interface {
	Finish()
	SetOperationName(operationName string) Span
	SetTag(key string, value interface{}) Span
	LogFields(fields ...log.Field)
	LogKV(alternatingKeyValues ...interface{})
}

type StartSpanOption interface{ apply() }

// Rec is a recorded span.
type Rec struct {
	Name     string
	Parent   *Rec
	Tags     []log.Field
	Logs     []log.Field
	Finished int
}

func (r *Rec) Finish()                                    { r.Finished++ }
func (r *Rec) SetOperationName(operationName string) Span { r.Name = operationName; return r }
func (r *Rec) SetTag(key string, value interface{}) Span {
	r.Tags = append(r.Tags, log.Field{K: key, V: value})
	return r
}
func (r *Rec) LogFields(fields ...log.Field) { r.Logs = append(r.Logs, fields...) }
func (r *Rec) LogKV(kv ...interface{}) {
	for i := 0; i+1 < len(kv); i += 2 {
		k, _ := kv[i].(string)
		r.Logs = append(r.Logs, log.Field{K: k, V: kv[i+1]})
	}
}

type ctxKey struct{}

// Recorded lists every span.
var Recorded []*Rec

func StartSpanFromContext(ctx context.Context, operationName string, opts ...StartSpanOption) (Span, context.Context) {
	p, _ := ctx.Value(ctxKey{}).(*Rec)
	s := &Rec{Name: operationName, Parent: p}
	if !Silent {
		Recorded = append(Recorded, s)
	}
	return s, context.WithValue(ctx, ctxKey{}, s)
}

func SpanFromContext(ctx context.Context) Span { s, _ := ctx.Value(ctxKey{}).(*Rec); return s }
func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, ctxKey{}, s)
}
