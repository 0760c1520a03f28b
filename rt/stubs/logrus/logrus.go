// Package logrus stands in for github.com/sirupsen/logrus: entries are kept instead of written.
package logrus

import "fmt"

// Silent turns recording off, for callers on several goroutines.
var Silent bool

type Level uint32

const (
	PanicLevel Level = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
	TraceLevel
)

type Fields map[string]interface{}

// Record is one logged entry.
type Record struct {
	Level Level
	Msg   string
	Data  Fields
}

type Logger struct{ Records []Record }

func New() *Logger { return &Logger{} }

type Entry struct {
	Logger *Logger
	Data   Fields
}

func NewEntry(l *Logger) *Entry { return &Entry{Logger: l, Data: Fields{}} }

func (e *Entry) WithFields(f Fields) *Entry {
	d := Fields{}
	for k, v := range e.Data {
		d[k] = v
	}
	for k, v := range f {
		d[k] = v
	}
	return &Entry{Logger: e.Logger, Data: d}
}
func (e *Entry) WithField(k string, v interface{}) *Entry { return e.WithFields(Fields{k: v}) }
func (e *Entry) WithError(err error) *Entry               { return e.WithField("error", err) }
func (e *Entry) Log(l Level, args ...interface{}) {
	if !Silent {
		e.Logger.Records = append(e.Logger.Records, Record{l, fmt.Sprint(args...), e.Data})
	}
}
func (e *Entry) Logf(l Level, f string, args ...interface{}) { e.Log(l, fmt.Sprintf(f, args...)) }
func (e *Entry) Trace(args ...interface{})                   { e.Log(TraceLevel, args...) }
func (e *Entry) Debug(args ...interface{})                   { e.Log(DebugLevel, args...) }
func (e *Entry) Info(args ...interface{})                    { e.Log(InfoLevel, args...) }
func (e *Entry) Print(args ...interface{})                   { e.Log(InfoLevel, args...) }
func (e *Entry) Warn(args ...interface{})                    { e.Log(WarnLevel, args...) }
func (e *Entry) Warning(args ...interface{})                 { e.Log(WarnLevel, args...) }
func (e *Entry) Error(args ...interface{})                   { e.Log(ErrorLevel, args...) }
func (e *Entry) Debugf(f string, args ...interface{})        { e.Logf(DebugLevel, f, args...) }
func (e *Entry) Infof(f string, args ...interface{})         { e.Logf(InfoLevel, f, args...) }
func (e *Entry) Warnf(f string, args ...interface{})         { e.Logf(WarnLevel, f, args...) }
func (e *Entry) Errorf(f string, args ...interface{})        { e.Logf(ErrorLevel, f, args...) }
func (e *Entry) Debugln(args ...interface{})                 { e.Log(DebugLevel, args...) }
func (e *Entry) Infoln(args ...interface{})                  { e.Log(InfoLevel, args...) }
func (e *Entry) Errorln(args ...interface{})                 { e.Log(ErrorLevel, args...) }
