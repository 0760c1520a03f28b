// Package trace stands in for go.opencensus.io/trace: spans are kept.
package trace

import "context"

// Silent turns recording off, for callers on several goroutines.
var Silent bool

type Attribute struct {
	K string
	V interface{}
}

func (a Attribute) Key() string        { return a.K }
func (a Attribute) Value() interface{} { return a.V }

func BoolAttribute(key string, value bool) Attribute       { return Attribute{key, value} }
func StringAttribute(key string, value string) Attribute   { return Attribute{key, value} }
func Int64Attribute(key string, value int64) Attribute     { return Attribute{key, value} }
func Float64Attribute(key string, value float64) Attribute { return Attribute{key, value} }

type Status struct {
	Code    int32
	Message string
}

const (
	StatusCodeOK      = 0
	StatusCodeUnknown = 2
)

type Span struct {
	Name   string
	Parent *Span
	Attrs  []Attribute
	Ended  int
	St     Status
}

func (s *Span) AddAttributes(as ...Attribute)       { s.Attrs = append(s.Attrs, as...) }
func (s *Span) Annotate(as []Attribute, str string) {}
func (s *Span) SetStatus(st Status)                 { s.St = st }
func (s *Span) SetName(n string)                    { s.Name = n }
func (s *Span) IsRecordingEvents() bool             { return true }
func (s *Span) End()                                { s.Ended++ }

type StartOption func(*Span)

type ctxKey struct{}

// Recorded lists every span.
var Recorded []*Span

func StartSpan(ctx context.Context, name string, o ...StartOption) (context.Context, *Span) {
	p, _ := ctx.Value(ctxKey{}).(*Span)
	s := &Span{Name: name, Parent: p}
	if !Silent {
		Recorded = append(Recorded, s)
	}
	return context.WithValue(ctx, ctxKey{}, s), s
}

func FromContext(ctx context.Context) *Span { s, _ := ctx.Value(ctxKey{}).(*Span); return s }
func NewContext(ctx context.Context, s *Span) context.Context {
	return context.WithValue(ctx, ctxKey{}, s)
}
