// Package twirp stands in for github.com/twitchtv/twirp.
package twirp

import "fmt"

type ErrorCode string

const (
	Canceled           ErrorCode = "canceled"
	Unknown            ErrorCode = "unknown"
	InvalidArgument    ErrorCode = "invalid_argument"
	Malformed          ErrorCode = "malformed"
	DeadlineExceeded   ErrorCode = "deadline_exceeded"
	NotFound           ErrorCode = "not_found"
	BadRoute           ErrorCode = "bad_route"
	AlreadyExists      ErrorCode = "already_exists"
	PermissionDenied   ErrorCode = "permission_denied"
	Unauthenticated    ErrorCode = "unauthenticated"
	ResourceExhausted  ErrorCode = "resource_exhausted"
	FailedPrecondition ErrorCode = "failed_precondition"
	Aborted            ErrorCode = "aborted"
	OutOfRange         ErrorCode = "out_of_range"
	Unimplemented      ErrorCode = "unimplemented"
	Internal           ErrorCode = "internal"
	Unavailable        ErrorCode = "unavailable"
	DataLoss           ErrorCode = "dataloss"
)

// Error is a Twirp error.
type Error interface {
	Code() ErrorCode
	Msg() string
	WithMeta(key string, val string) Error
	Meta(key string) string
	MetaMap() map[string]string
	Error() string
}

type twerr struct {
	code ErrorCode
	msg  string
	meta map[string]string
}

func (e *twerr) Code() ErrorCode { return e.code }
func (e *twerr) Msg() string     { return e.msg }
func (e *twerr) Meta(key string) string {
	return e.meta[key]
}
func (e *twerr) MetaMap() map[string]string { return e.meta }
func (e *twerr) WithMeta(key, val string) Error {
	n := &twerr{code: e.code, msg: e.msg, meta: map[string]string{}}
	for k, v := range e.meta {
		n.meta[k] = v
	}
	n.meta[key] = val
	return n
}
func (e *twerr) Error() string { return "twirp error " + string(e.code) + ": " + e.msg }

type wrapped struct {
	wrapper Error
	cause   error
}

func (e *wrapped) Code() ErrorCode            { return e.wrapper.Code() }
func (e *wrapped) Msg() string                { return e.wrapper.Msg() }
func (e *wrapped) Meta(key string) string     { return e.wrapper.Meta(key) }
func (e *wrapped) MetaMap() map[string]string { return e.wrapper.MetaMap() }
func (e *wrapped) WithMeta(key, val string) Error {
	return &wrapped{e.wrapper.WithMeta(key, val), e.cause}
}
func (e *wrapped) Error() string { return e.wrapper.Error() }
func (e *wrapped) Unwrap() error { return e.cause }
func (e *wrapped) Cause() error  { return e.cause }

func NewError(code ErrorCode, msg string) Error { return &twerr{code: code, msg: msg} }
func NewErrorf(code ErrorCode, msg string, a ...interface{}) Error {
	return NewError(code, fmt.Sprintf(msg, a...))
}
func WrapError(twerr Error, err error) Error { return &wrapped{twerr, err} }
func InternalErrorWith(err error) Error {
	return WrapError(NewError(Internal, err.Error()).WithMeta("cause", fmt.Sprintf("%T", err)), err)
}
func InternalError(msg string) Error            { return NewError(Internal, msg) }
func InternalErrorf(msg string, a ...any) Error { return NewError(Internal, fmt.Sprintf(msg, a...)) }
func InvalidArgumentError(argument, msg string) Error {
	return NewError(InvalidArgument, argument+" "+msg).WithMeta("argument", argument)
}
func NotFoundError(msg string) Error { return NewError(NotFound, msg) }
