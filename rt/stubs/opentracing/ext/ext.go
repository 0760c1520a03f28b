// Package ext stands in for github.com/opentracing/opentracing-go/ext.
package ext

import (
	opentracing "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/log"
)

type boolTagName string

func (tag boolTagName) Set(span opentracing.Span, value bool) { span.SetTag(string(tag), value) }

type stringTagName string

func (tag stringTagName) Set(span opentracing.Span, value string) { span.SetTag(string(tag), value) }

var (
	Error     = boolTagName("error")
	Component = stringTagName("component")
)

func LogError(span opentracing.Span, err error, fields ...log.Field) {
	Error.Set(span, true)
	span.LogFields(append([]log.Field{log.Event("error"), log.Error(err)}, fields...)...)
}
