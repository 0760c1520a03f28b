// Package status stands in for google.golang.org/grpc/status.
package status

import (
	"fmt"

	"google.golang.org/grpc/codes"
)

type Status struct {
	c codes.Code
	m string
}

func (s *Status) Code() codes.Code {
	if s == nil {
		return codes.OK
	}
	return s.c
}
func (s *Status) Message() string {
	if s == nil {
		return ""
	}
	return s.m
}
func (s *Status) Err() error {
	if s.Code() == codes.OK {
		return nil
	}
	return &statusErr{s}
}

type statusErr struct{ s *Status }

func (e *statusErr) Error() string {
	return fmt.Sprintf("rpc error: code = %d desc = %s", e.s.c, e.s.m)
}
func (e *statusErr) GRPCStatus() *Status { return e.s }

func New(c codes.Code, msg string) *Status               { return &Status{c, msg} }
func Newf(c codes.Code, format string, a ...any) *Status { return New(c, fmt.Sprintf(format, a...)) }
func Error(c codes.Code, msg string) error               { return New(c, msg).Err() }
func Errorf(c codes.Code, format string, a ...interface{}) error {
	return Error(c, fmt.Sprintf(format, a...))
}
func FromError(err error) (*Status, bool) {
	if err == nil {
		return nil, true
	}
	if e, ok := err.(interface{ GRPCStatus() *Status }); ok {
		return e.GRPCStatus(), true
	}
	return New(codes.Unknown, err.Error()), false
}
func Convert(err error) *Status { s, _ := FromError(err); return s }
func Code(err error) codes.Code { return Convert(err).Code() }
