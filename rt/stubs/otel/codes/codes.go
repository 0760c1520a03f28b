// Package codes stands in for go.opentelemetry.io/otel/codes.
package codes

type Code uint32

const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)
