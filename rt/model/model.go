// Package model holds Go-written stand-ins the symbolic engine uses for library code it does not execute.
package model

import "unicode/utf8"

// RuntimeError is the type of run-time panics inside the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

// RuneToString is the conversion string(rune).
func RuneToString(r rune) string {
	var b [utf8.UTFMax]byte
	n := utf8.EncodeRune(b[:], r)
	return string(b[:n])
}

// RType stands for reflect.Type where only these methods are used.
type RType struct {
	Name0 string
	Cmp   bool
}

func (t *RType) Comparable() bool { return t.Cmp }
func (t *RType) String() string   { return t.Name0 }
