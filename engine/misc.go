package main

import (
	"go/token"
	"math"
)

const (
	tokADD = token.ADD
	tokSUB = token.SUB
	tokQUO = token.QUO
	tokAND = token.AND
	tokOR  = token.OR
)

func f64bits(f float64) uint64     { return math.Float64bits(f) }
func f64frombits(u uint64) float64 { return math.Float64frombits(u) }
