package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) unop(x *ssa.UnOp) Value {
	st := fr.st
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		if _, ok := v.(*NativeObj); ok {
			unsup("dereference of host object in %s", fr.info.name)
		}
		r := st.load(asPtr(v))
		if p, ok := r.(Poison); ok {
			// loading is allowed during initialisation of unused tables; using it is not
			if st.initDep == 0 {
				unsup("use of value that could not be initialised: %s", string(p))
			}
		}
		return r
	case token.ARROW:
		ch, ok := v.(*ChanV)
		if !ok {
			checkPoison(v)
		}
		r, k := st.chanRecv(ch, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, k}
		}
		return r
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return st.val(st.tm.Not(b))
		}
	case token.SUB:
		switch n := v.(type) {
		case C:
			k, _ := intInfo(x.Type())
			return C(-uint64(n) & wmask(k.w))
		case *Term:
			return st.val(st.tm.Neg(n))
		case float64:
			return -n
		case complex128:
			return -n
		}
	case token.XOR:
		switch n := v.(type) {
		case C:
			k, _ := intInfo(x.Type())
			return C(^uint64(n) & wmask(k.w))
		case *Term:
			return st.val(st.tm.Bnot(n))
		}
	}
	checkPoison(v)
	panic(fmt.Sprintf("unop %s on %T", x.Op, v))
}

func (st *State) binop(fr *frame, op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return st.equal(fr, t, x, y)
	case token.NEQ:
		return st.not(st.equal(fr, t, x, y))
	}
	checkPoison(x)
	checkPoison(y)
	if k, ok := intInfo(t); ok {
		return st.intop(fr, op, k, x, y, yt)
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		if basicOf(t).Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return st.strLess(x, y)
		case token.GTR:
			return st.strLess(y, x)
		case token.LEQ:
			return st.not(st.strLess(y, x))
		case token.GEQ:
			return st.not(st.strLess(x, y))
		}
	case bool, *Term:
		p, q := st.term(x, 0), st.term(y, 0)
		switch op {
		case token.AND, token.LAND:
			return st.val(st.tm.And(p, q))
		case token.OR, token.LOR:
			return st.val(st.tm.Or(p, q))
		}
	}
	panic(fmt.Sprintf("binop %s on %T,%T", op, x, y))
}

func (st *State) not(v Value) Value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return st.val(st.tm.Not(b))
	}
	checkPoison(v)
	panic("not")
}

// strLess is a term for x < y over strings of concrete length.
func (st *State) strLess(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := st.tm.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		p, q := st.term(a[i], 8), st.term(b[i], 8)
		r = st.tm.Ite(st.tm.Eq(p, q), r, st.tm.Ult(p, q))
	}
	return st.val(r)
}

func (st *State) intop(fr *frame, op token.Token, k intKind, x, y Value, yt types.Type) Value {
	if op == token.SHL || op == token.SHR {
		return st.shift(op, k, x, y, yt)
	}
	a, okA := x.(C)
	b, okB := y.(C)
	if okA && okB {
		u, v := uint64(a), uint64(b)
		m := wmask(k.w)
		s, t := sx(u, k.w), sx(v, k.w)
		switch op {
		case token.ADD:
			return C((u + v) & m)
		case token.SUB:
			return C((u - v) & m)
		case token.MUL:
			return C((u * v) & m)
		case token.QUO, token.REM:
			if v == 0 {
				st.rtPanic("integer divide by zero")
			}
			var o Op
			switch {
			case op == token.QUO && k.signed:
				o = OSdiv
			case op == token.QUO:
				o = OUdiv
			case k.signed:
				o = OSrem
			default:
				o = OUrem
			}
			return C(evalBin(o, k.w, u, v))
		case token.AND:
			return C(u & v)
		case token.OR:
			return C(u | v)
		case token.XOR:
			return C(u ^ v)
		case token.AND_NOT:
			return C(u &^ v)
		case token.LSS:
			if k.signed {
				return s < t
			}
			return u < v
		case token.LEQ:
			if k.signed {
				return s <= t
			}
			return u <= v
		case token.GTR:
			if k.signed {
				return s > t
			}
			return u > v
		case token.GEQ:
			if k.signed {
				return s >= t
			}
			return u >= v
		}
		panic("intop " + op.String())
	}
	p, q := st.term(x, k.w), st.term(y, k.w)
	tm := st.tm
	less := func(p, q *Term) *Term {
		if k.signed {
			return tm.Slt(p, q)
		}
		return tm.Ult(p, q)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = tm.Bin(OAdd, p, q)
	case token.SUB:
		r = tm.Bin(OSub, p, q)
	case token.MUL:
		r = tm.Bin(OMul, p, q)
	case token.QUO, token.REM:
		if st.decide(st.val(tm.Eq(q, tm.Const(k.w, 0)))) {
			st.rtPanic("integer divide by zero")
		}
		o := OUdiv
		switch {
		case op == token.QUO && k.signed:
			o = OSdiv
		case op == token.QUO:
			o = OUdiv
		case k.signed:
			o = OSrem
		default:
			o = OUrem
		}
		r = tm.Bin(o, p, q)
	case token.AND:
		r = tm.Bin(OBand, p, q)
	case token.OR:
		r = tm.Bin(OBor, p, q)
	case token.XOR:
		r = tm.Bin(OBxor, p, q)
	case token.AND_NOT:
		r = tm.Bin(OBand, p, tm.Bnot(q))
	case token.LSS:
		r = less(p, q)
	case token.GTR:
		r = less(q, p)
	case token.LEQ:
		r = tm.Not(less(q, p))
	case token.GEQ:
		r = tm.Not(less(p, q))
	default:
		panic("intop " + op.String())
	}
	return st.val(r)
}

func (st *State) shift(op token.Token, k intKind, x, y Value, yt types.Type) Value {
	yk, ok := intInfo(yt)
	if !ok {
		yk = intKind{64, false}
	}
	if c, ok := y.(C); ok {
		n := sx(uint64(c), yk.w)
		if !yk.signed {
			n = int64(c)
			if uint64(c) > 200 {
				n = 200
			}
		}
		if n < 0 {
			st.rtPanic("negative shift amount")
		}
		if n > 200 {
			n = 200
		}
		if a, ok := x.(C); ok {
			switch {
			case op == token.SHL:
				return C(evalBin(OShl, k.w, uint64(a), uint64(n)))
			case k.signed:
				return C(evalBin(OAshr, k.w, uint64(a), uint64(n)))
			default:
				return C(evalBin(OLshr, k.w, uint64(a), uint64(n)))
			}
		}
		y = C(uint64(n))
		yk = intKind{64, false}
	}
	q := st.term(y, yk.w)
	if yk.signed {
		if st.decide(st.val(st.tm.Slt(q, st.tm.Const(yk.w, 0)))) {
			st.rtPanic("negative shift amount")
		}
	}
	p := st.term(x, k.w)
	tm := st.tm
	o := OLshr
	if op == token.SHL {
		o = OShl
	} else if k.signed {
		o = OAshr
	}
	// amounts beyond the width saturate
	var sh *Term
	if yk.w > k.w {
		big := tm.Not(tm.Ult(q, tm.Const(yk.w, uint64(k.w))))
		sh = tm.Ite(big, tm.Const(k.w, uint64(k.w)&wmask(k.w)), tm.Trunc(q, k.w))
	} else {
		sh = tm.Zext(q, k.w)
	}
	return st.val(tm.Bin(o, p, sh))
}

// equal yields a bool or a boolean term for x == y at type t.
func (st *State) equal(fr *frame, t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return st.val(st.tm.Eq(st.term(x, 0), st.term(y, 0)))
	case C:
		if b, ok := y.(C); ok {
			return a == b
		}
		b, ok := y.(*Term)
		if !ok {
			checkPoison(y)
			panic(fmt.Sprintf("equal %T %T", x, y))
		}
		return st.val(st.tm.Eq(st.tm.Const(b.w, uint64(a)), b))
	case *Term:
		return st.val(st.tm.Eq(a, st.term(y, a.w)))
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case string, *SymStr:
		checkPoison(y)
		if b, ok := y.(string); ok {
			if aa, ok := x.(string); ok {
				return aa == b
			}
		}
		if strLen(x) != strLen(y) {
			return false
		}
		p, q := strBytes(x), strBytes(y)
		r := st.tm.tTrue
		for i := range p {
			r = st.tm.And(r, st.tm.Eq(st.term(p[i], 8), st.term(q[i], 8)))
			if r.isFalse() {
				return false
			}
		}
		return st.val(r)
	case *Value:
		switch b := y.(type) {
		case *Value:
			return a == b
		case *NativeObj, nil:
			return a == nil && y == nil
		}
	case *ChanV:
		return a == y.(*ChanV)
	case *MapV:
		b, _ := y.(*MapV)
		return a == b
	case *Closure:
		b, _ := y.(*Closure)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		return a == b
	case *NativeObj:
		if b, ok := y.(*NativeObj); ok {
			return a == b
		}
		return false
	case nil:
		switch b := y.(type) {
		case nil:
			return true
		case *Closure:
			return b == nil
		case *Value:
			return b == nil
		}
		return false
	case Slice:
		b := y.(Slice)
		return a.v == nil && b.v == nil
	case Struct:
		b := y.(Struct)
		s := t.Underlying().(*types.Struct)
		r := st.tm.tTrue
		for i := range a {
			if s.Field(i).Name() == "_" {
				continue
			}
			r = st.tm.And(r, st.term(st.equal(fr, s.Field(i).Type(), a[i], b[i]), 0))
			if r.isFalse() {
				return false
			}
		}
		return st.val(r)
	case Array:
		b := y.(Array)
		el := t.Underlying().(*types.Array).Elem()
		r := st.tm.tTrue
		for i := range a {
			r = st.tm.And(r, st.term(st.equal(fr, el, a[i], b[i]), 0))
		}
		return st.val(r)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			// comparison of an interface with a concrete value
			b = Iface{t, y}
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			st.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return st.equal(fr, a.t, a.v, b.v)
	}
	checkPoison(x)
	checkPoison(y)
	panic(fmt.Sprintf("equal %T %T", x, y))
}

func (st *State) convInt(v Value, from, to intKind) Value {
	switch x := v.(type) {
	case C:
		if from.signed {
			return C(uint64(sx(uint64(x), from.w)) & wmask(to.w))
		}
		return C(uint64(x) & wmask(to.w))
	case *Term:
		if to.w < from.w {
			return st.val(st.tm.Trunc(x, to.w))
		}
		if from.signed {
			return st.val(st.tm.Sext(x, to.w))
		}
		return st.val(st.tm.Zext(x, to.w))
	}
	checkPoison(v)
	panic(fmt.Sprintf("convInt %T", v))
}

func typeParamCore(t types.Type) types.Type {
	return t
}

func (st *State) convert(fr *frame, from, to types.Type, v Value) Value {
	checkPoison(v)
	uf, ut := from.Underlying(), to.Underlying()
	if kf, ok := intInfo(uf); ok {
		if kt, ok := intInfo(ut); ok {
			return st.convInt(v, kf, kt)
		}
		if isFloat(ut) {
			c := st.concretize(v)
			if kf.signed {
				return float64(sx(uint64(c), kf.w))
			}
			return float64(uint64(c))
		}
		if isString(ut) {
			v = st.convInt(v, kf, intKind{32, true})
			if c, ok := v.(C); ok {
				return string(rune(sx(uint64(c), 32)))
			}
			return st.callFn(fr, st.eng.mustFunc(modelPath, "RuneToString"), []Value{v}, nil)
		}
		if b := basicOf(ut); b != nil && b.Kind() == types.UnsafePointer {
			unsup("integer to unsafe.Pointer")
		}
	}
	if isFloat(uf) {
		f := v.(float64)
		if kt, ok := intInfo(ut); ok {
			if kt.signed {
				return C(uint64(int64(f)) & wmask(kt.w))
			}
			if f >= math.MaxInt64 {
				return C(uint64(f) & wmask(kt.w))
			}
			return C(uint64(int64(f)) & wmask(kt.w))
		}
		if b := basicOf(ut); b != nil && b.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	}
	if b := basicOf(uf); b != nil && b.Info()&types.IsComplex != 0 {
		return v
	}
	if isString(uf) {
		if isString(ut) {
			return v
		}
		if s, ok := ut.(*types.Slice); ok {
			if k, _ := intInfo(s.Elem()); k.w == 8 {
				b := strBytes(v)
				r := make([]Value, len(b))
				copy(r, b)
				return Slice{r}
			}
			if s2, ok := v.(string); ok {
				rs := []rune(s2)
				r := make([]Value, len(rs))
				for i := range rs {
					r[i] = C(uint64(uint32(rs[i])))
				}
				return Slice{r}
			}
			var r []Value = []Value{}
			for p := 0; p < strLen(v); {
				c, n := st.decodeRune(fr, v, p)
				r = append(r, c)
				p += n
			}
			return Slice{r}
		}
	}
	if s, ok := uf.(*types.Slice); ok {
		if isString(ut) {
			sl := v.(Slice)
			if k, _ := intInfo(s.Elem()); k.w == 8 {
				if st.hb != nil {
					for i := range sl.v {
						st.hbAccess(&sl.v[i], false)
					}
				}
				r := make([]Value, len(sl.v))
				copy(r, sl.v)
				return mkStr(r)
			}
			var r Value = ""
			for _, e := range sl.v {
				r = strConcat(r, st.convert(fr, s.Elem(), to, e))
			}
			return r
		}
		if _, ok := ut.(*types.Slice); ok {
			return v
		}
		if a, ok := ut.(*types.Array); ok {
			sl := v.(Slice)
			if int64(len(sl.v)) < a.Len() {
				st.rtPanic("cannot convert slice to array: length too small")
			}
			return copyVal(Array(sl.v[:a.Len()]))
		}
	}
	if bf := basicOf(uf); bf != nil && bf.Kind() == types.UnsafePointer {
		return v
	}
	if bt := basicOf(ut); bt != nil && bt.Kind() == types.UnsafePointer {
		return v
	}
	if _, ok := intInfo(ut); ok {
		unsup("conversion %s to %s", from, to)
	}
	return v
}

func (st *State) callBuiltin(fr *frame, f *ssa.Builtin, args []Value, site ssa.Instruction) Value {
	for _, a := range args {
		checkPoison(a)
	}
	switch f.Name() {
	case "ssa:deferstack":
		return &NativeObj{fr}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			st.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return C(uint64(strLen(x)))
		case Slice:
			return C(uint64(len(x.v)))
		case *MapV:
			if x == nil {
				return C(0)
			}
			if st.hb != nil {
				st.hbObj(x, false)
			}
			return C(uint64(x.live))
		case *ChanV:
			if x == nil {
				return C(0)
			}
			return C(uint64(len(x.buf)))
		case Array:
			return C(uint64(len(x)))
		case *Value:
			return C(uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return C(uint64(cap(x.v)))
		case *ChanV:
			if x == nil {
				return C(0)
			}
			return C(uint64(x.cap))
		case Array:
			return C(uint64(len(x)))
		case *Value:
			return C(uint64(len((*x).(Array))))
		}
	case "append":
		a := args[0].(Slice)
		if len(args) == 1 {
			return a
		}
		var b []Value
		switch y := args[1].(type) {
		case Slice:
			b = y.v
		case string, *SymStr:
			b = strBytes(y)
		default:
			panic(fmt.Sprintf("append %T", y))
		}
		if len(b) == 0 {
			return a
		}
		n := len(a.v)
		if n+len(b) <= cap(a.v) {
			r := a.v[:n+len(b)]
			for i, e := range b {
				if st.hb != nil {
					st.hbAccess(&b[i], false)
				}
				st.store(&r[n+i], copyVal(e))
			}
			return Slice{r}
		}
		nc := 2 * cap(a.v)
		if nc < n+len(b) {
			nc = n + len(b)
		}
		if st.hb != nil {
			for i := range a.v {
				st.hbAccess(&a.v[i], false)
			}
			for i := range b {
				st.hbAccess(&b[i], false)
			}
		}
		r := make([]Value, n+len(b), nc)
		for i, e := range a.v {
			r[i] = copyVal(e)
		}
		for i, e := range b {
			r[n+i] = copyVal(e)
		}
		// spare capacity holds zero values
		if nc > len(r) {
			et := site.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
			z := zero(et)
			ext := r[:nc]
			for i := len(r); i < nc; i++ {
				ext[i] = copyVal(z)
			}
		}
		return Slice{r}
	case "copy":
		a := args[0].(Slice)
		var b []Value
		switch y := args[1].(type) {
		case Slice:
			b = y.v
		default:
			b = strBytes(y)
		}
		n := len(a.v)
		if len(b) < n {
			n = len(b)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			if st.hb != nil {
				st.hbAccess(&b[i], false)
			}
			tmp[i] = copyVal(b[i])
		}
		for i := range tmp {
			st.store(&a.v[i], tmp[i])
		}
		return C(uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if st.hb != nil && m != nil {
			st.hbObj(m, true)
		}
		st.mapDelete(fr, m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*mapEnt(nil), x.ents...) {
					st.mapDelete(fr, x, e.k)
				}
			}
		case Slice:
			for i := range x.v {
				et := site.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Slice).Elem()
				st.store(&x.v[i], zero(et))
			}
		}
		return nil
	case "close":
		st.chanClose(args[0].(*ChanV))
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			if tp, ok := fr.caller.panicVal.(targetPanic); ok {
				i, ok := tp.v.(Iface)
				if ok && i.t == nil {
					return Iface{st.eng.rtErrType, "panic called with nil argument"}
				}
				return tp.v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := site.(ssa.Value).Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if f.Name() == "max" {
				op = token.GTR
			}
			c := st.binop(fr, op, t, a, r, t)
			if ct, ok := c.(*Term); ok {
				if k, ok := intInfo(t); ok {
					r = st.val(st.tm.Ite(ct, st.term(a, k.w), st.term(r, k.w)))
					continue
				}
			}
			if st.decide(c) {
				r = a
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "String": // unsafe.String
		n := int(st.concretize(args[1]))
		if n == 0 {
			return ""
		}
		unsup("unsafe.String")
	case "SliceData", "StringData", "Slice", "Add":
		unsup("unsafe.%s", f.Name())
	}
	panic(fmt.Sprintf("builtin %s on %T", f.Name(), args[0]))
}
