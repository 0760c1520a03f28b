package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: bool, C (concrete integer, zero-extended), *Term (symbolic bool or integer), float64, complex128,
// string, *SymStr, Slice, Struct, Array, *Value (pointer), *MapV, *ChanV, *Closure, Iface, Tuple, *NativeObj,
// Poison, or nil for nil funcs and unsafe pointers.
type Value interface{}

type C uint64

// SymStr is a string of concrete length with at least one symbolic byte.
type SymStr struct{ b []Value }

type Slice struct{ v []Value }
type Struct []Value
type Array []Value
type Tuple []Value

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(st *State, fr *frame, args []Value) Value
}

type Iface struct {
	t types.Type
	v Value
}

type Poison string

// NativeObj wraps a host object behind a pointer-like handle.
type NativeObj struct{ x any }

type mapEnt struct {
	k, v Value
	dead bool
}

type MapV struct {
	kt, vt types.Type
	ents   []*mapEnt
	idx    map[string]*mapEnt
	nsym   int
	live   int
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(C); !ok {
			return &SymStr{b}
		}
	}
	bb := make([]byte, len(b))
	for i, x := range b {
		bb[i] = byte(x.(C))
	}
	return string(bb)
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	checkPoison(v)
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return C(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = byteC[s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	checkPoison(v)
	panic(fmt.Sprintf("strBytes %T", v))
}

var byteC [256]Value

func init() {
	for i := range byteC {
		byteC[i] = C(i)
	}
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		if lo == 0 && hi == len(s.b) {
			return s
		}
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			checkPoison(b)
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		checkPoison(a)
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return &SymStr{r}
}

func checkPoison(v Value) {
	if p, ok := v.(Poison); ok {
		unsup("use of value that could not be initialised: %s", string(p))
	}
}

type intKind struct {
	w      uint8
	signed bool
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (intKind, bool) {
	b := basicOf(t)
	if b == nil {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := intInfo(u); ok {
			return C(0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Array:
		r := make(Array, u.Len())
		if u.Len() > 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				for i := range r {
					r[i] = zero(u.Elem())
				}
			default:
				z := zero(u.Elem())
				for i := range r {
					r[i] = z
				}
			}
		}
		return r
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = zero(u.Field(i).Type())
		}
		return r
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		return zero(u)
	}
	panic(fmt.Sprintf("zero: %v", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

// keyEnc gives a canonical encoding of a fully concrete comparable value.
func keyEnc(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case bool:
		fmt.Fprintf(sb, "b%v;", x)
	case C:
		fmt.Fprintf(sb, "i%d;", uint64(x))
	case float64:
		fmt.Fprintf(sb, "f%g;", x)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(x), x)
	case *Value:
		fmt.Fprintf(sb, "p%p;", x)
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", x)
	case *NativeObj:
		fmt.Fprintf(sb, "n%p;", x)
	case Iface:
		if x.t == nil {
			sb.WriteString("I0;")
			return true
		}
		fmt.Fprintf(sb, "I%s:", x.t.String())
		return keyEnc(x.v, sb)
	case Struct:
		sb.WriteString("S{")
		for _, f := range x {
			if !keyEnc(f, sb) {
				return false
			}
		}
		sb.WriteString("}")
	case Array:
		sb.WriteString("A{")
		for _, f := range x {
			if !keyEnc(f, sb) {
				return false
			}
		}
		sb.WriteString("}")
	case *Term, *SymStr:
		return false
	case Poison:
		checkPoison(v)
	default:
		unsup("map key %T", v)
	}
	return true
}

func concKey(v Value) (string, bool) {
	if s, ok := v.(string); ok {
		return s, true
	}
	if c, ok := v.(C); ok {
		return fmt.Sprintf("\x00i%d", uint64(c)), true
	}
	var sb strings.Builder
	sb.WriteString("\x00\x01")
	if keyEnc(v, &sb) {
		return sb.String(), true
	}
	return "", false
}
