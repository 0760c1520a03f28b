// Package log stands in for github.com/opentracing/opentracing-go/log.
package log

type Field struct {
	K string
	V interface{}
}

func (f Field) Key() string        { return f.K }
func (f Field) Value() interface{} { return f.V }

func String(key, val string) Field             { return Field{key, val} }
func Bool(key string, val bool) Field          { return Field{key, val} }
func Int(key string, val int) Field            { return Field{key, val} }
func Error(err error) Field                    { return Field{"error.object", err} }
func Object(key string, obj interface{}) Field { return Field{key, obj} }
func Event(val string) Field                   { return Field{"event", val} }
func Message(val string) Field                 { return Field{"message", val} }
