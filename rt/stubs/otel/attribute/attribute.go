// Package attribute stands in for go.opentelemetry.io/otel/attribute.
package attribute

type Key string
type KeyValue struct {
	Key   Key
	Value interface{}
}

func String(k, v string) KeyValue          { return KeyValue{Key(k), v} }
func Bool(k string, v bool) KeyValue       { return KeyValue{Key(k), v} }
func Int(k string, v int) KeyValue         { return KeyValue{Key(k), v} }
func Int64(k string, v int64) KeyValue     { return KeyValue{Key(k), v} }
func Float64(k string, v float64) KeyValue { return KeyValue{Key(k), v} }
