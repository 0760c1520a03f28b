// Package promauto stands in for github.com/prometheus/client_golang/prometheus/promauto.
package promauto

import "github.com/prometheus/client_golang/prometheus"

func NewSummaryVec(o prometheus.SummaryOpts, names []string) *prometheus.SummaryVec {
	return prometheus.NewSummaryVec(o, names)
}
func NewHistogramVec(o prometheus.HistogramOpts, names []string) *prometheus.HistogramVec {
	return prometheus.NewHistogramVec(o, names)
}
