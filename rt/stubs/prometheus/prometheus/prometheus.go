// Package prometheus stands in for github.com/prometheus/client_golang/prometheus: observations are kept.
package prometheus

import "time"

// Silent turns recording off, for callers on several goroutines.
var Silent bool

type Labels map[string]string

type SummaryOpts struct {
	Namespace, Subsystem, Name, Help string
	ConstLabels                      Labels
	Objectives                       map[float64]float64
	MaxAge                           time.Duration
	AgeBuckets, BufCap               uint32
}

type HistogramOpts struct {
	Namespace, Subsystem, Name, Help string
	ConstLabels                      Labels
	Buckets                          []float64
}

type Observer interface{ Observe(float64) }

// Observation is one observed value.
type Observation struct {
	Metric string
	Names  []string
	Labels []string
	Value  float64
}

// Recorded lists every observation.
var Recorded []Observation

// Vec is a metric vector.
type Vec struct {
	Name  string
	Names []string
}

type child struct {
	v  *Vec
	lv []string
}

func (c child) Observe(f float64) {
	if !Silent {
		Recorded = append(Recorded, Observation{c.v.Name, c.v.Names, c.lv, f})
	}
}

func (v *Vec) WithLabelValues(lvs ...string) Observer {
	if len(lvs) != len(v.Names) {
		panic("inconsistent label cardinality")
	}
	return child{v, lvs}
}

func (v *Vec) With(l Labels) Observer {
	lv := make([]string, len(v.Names))
	if len(l) != len(v.Names) {
		panic("inconsistent label cardinality")
	}
	for i, n := range v.Names {
		x, ok := l[n]
		if !ok {
			panic("inconsistent label names")
		}
		lv[i] = x
	}
	return child{v, lv}
}

type SummaryVec struct{ Vec }
type HistogramVec struct{ Vec }

func NewSummaryVec(o SummaryOpts, names []string) *SummaryVec {
	return &SummaryVec{Vec{o.Name, names}}
}
func NewHistogramVec(o HistogramOpts, names []string) *HistogramVec {
	return &HistogramVec{Vec{o.Name, names}}
}
