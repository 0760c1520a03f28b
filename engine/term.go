package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is the operator of a term. Width 0 means boolean, otherwise a bit-vector.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OSlt
	OZext
	OSext
	OExtract
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot",
	ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OSlt: "bvslt"}

// Term is a hash-consed SMT term over booleans and bit-vectors.
type Term struct {
	op   Op
	w    uint8
	k    uint64 // constant value; low bit for OExtract
	name string
	a    [3]*Term
	id   uint32
	vars []*Term // sorted by id
	size uint32

	mask    *[4]uint64 // cached truth table, single 8-bit variable only
	defined bool
}

type termKey struct {
	op         Op
	w          uint8
	k          uint64
	name       string
	a0, a1, a2 uint32
}

// TermMgr owns a hash-consing table. One per worker, never shared.
type TermMgr struct {
	tab    map[termKey]*Term
	nextID uint32
	tTrue  *Term
	tFalse *Term
}

func newTermMgr() *TermMgr {
	m := &TermMgr{tab: map[termKey]*Term{}, nextID: 1}
	m.tTrue = m.mk(OConst, 0, 1, "")
	m.tFalse = m.mk(OConst, 0, 0, "")
	return m
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (m *TermMgr) mk(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	var a [3]*Term
	copy(a[:], args)
	key := termKey{op, w, k, name, tid(a[0]), tid(a[1]), tid(a[2])}
	if t, ok := m.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, name: name, a: a, id: m.nextID, size: 1}
	m.nextID++
	if op == OVar {
		t.vars = []*Term{t}
	} else {
		for _, x := range args {
			t.vars = mergeVars(t.vars, x.vars)
			t.size += x.size
		}
	}
	m.tab[key] = t
	return t
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			r = append(r, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func wmask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (m *TermMgr) Bool(b bool) *Term {
	if b {
		return m.tTrue
	}
	return m.tFalse
}
func (m *TermMgr) Const(w uint8, v uint64) *Term { return m.mk(OConst, w, v&wmask(w), "") }
func (m *TermMgr) Var(name string, w uint8) *Term {
	return m.mk(OVar, w, 0, name)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (m *TermMgr) Not(x *Term) *Term {
	if x.isConst() {
		return m.Bool(x.k == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return m.mk(ONot, 0, 0, "", x)
}

func (m *TermMgr) And(x, y *Term) *Term {
	switch {
	case x.isFalse() || y.isFalse():
		return m.tFalse
	case x.isTrue():
		return y
	case y.isTrue():
		return x
	case x == y:
		return x
	case x.op == ONot && x.a[0] == y, y.op == ONot && y.a[0] == x:
		return m.tFalse
	}
	return m.mk(OAnd, 0, 0, "", x, y)
}

func (m *TermMgr) Or(x, y *Term) *Term {
	switch {
	case x.isTrue() || y.isTrue():
		return m.tTrue
	case x.isFalse():
		return y
	case y.isFalse():
		return x
	case x == y:
		return x
	case x.op == ONot && x.a[0] == y, y.op == ONot && y.a[0] == x:
		return m.tTrue
	}
	return m.mk(OOr, 0, 0, "", x, y)
}

func (m *TermMgr) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() {
			return m.Or(c, y)
		}
		if x.isFalse() {
			return m.And(m.Not(c), y)
		}
		if y.isTrue() {
			return m.Or(m.Not(c), x)
		}
		if y.isFalse() {
			return m.And(c, x)
		}
	}
	return m.mk(OIte, x.w, 0, "", c, x, y)
}

func (m *TermMgr) Eq(x, y *Term) *Term {
	if x == y {
		return m.tTrue
	}
	if x.isConst() && y.isConst() {
		return m.Bool(x.k == y.k)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return m.Not(x)
		}
		return m.mk(OEq, 0, 0, "", x, y)
	}
	if y.isConst() {
		switch x.op {
		case OZext:
			in := x.a[0]
			if y.k&^wmask(in.w) != 0 {
				return m.tFalse
			}
			return m.Eq(in, m.Const(in.w, y.k))
		case OSext:
			in := x.a[0]
			tr := y.k & wmask(in.w)
			if uint64(sx(tr, in.w))&wmask(x.w) != y.k {
				return m.tFalse
			}
			return m.Eq(in, m.Const(in.w, tr))
		case OIte:
			if x.a[1].isConst() || x.a[2].isConst() {
				return m.Ite(x.a[0], m.Eq(x.a[1], y), m.Eq(x.a[2], y))
			}
		case OAdd:
			if x.a[1].isConst() {
				return m.Eq(x.a[0], m.Const(x.w, y.k-x.a[1].k))
			}
		case OBxor:
			if x.a[1].isConst() {
				return m.Eq(x.a[0], m.Const(x.w, y.k^x.a[1].k))
			}
		}
	} else {
		if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
			return m.Eq(x.a[0], y.a[0])
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return m.mk(OEq, 0, 0, "", x, y)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	mk := wmask(w)
	switch op {
	case OAdd:
		return (x + y) & mk
	case OSub:
		return (x - y) & mk
	case OMul:
		return (x * y) & mk
	case OUdiv:
		if y == 0 {
			return mk
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return mk
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & mk
		}
		return uint64(a/b) & mk
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mk
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mk
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & mk
	}
	panic("evalBin")
}

func (m *TermMgr) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch %d %d op %s", x.w, y.w, opSMT[op]))
	}
	if x.isConst() && y.isConst() {
		return m.Const(x.w, evalBin(op, x.w, x.k, y.k))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if x.isConst() {
			x, y = y, x
		}
	}
	if y.isConst() {
		switch op {
		case OSub:
			return m.Bin(OAdd, x, m.Const(x.w, -y.k))
		case OAdd:
			if y.k == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].isConst() {
				return m.Bin(OAdd, x.a[0], m.Const(x.w, x.a[1].k+y.k))
			}
		case OBor, OBxor, OShl, OLshr, OAshr:
			if y.k == 0 {
				return x
			}
		case OMul:
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
			if bits.OnesCount64(y.k) == 1 {
				return m.Bin(OShl, x, m.Const(x.w, uint64(bits.TrailingZeros64(y.k))))
			}
		case OUdiv:
			if bits.OnesCount64(y.k) == 1 {
				return m.Bin(OLshr, x, m.Const(x.w, uint64(bits.TrailingZeros64(y.k))))
			}
		case OUrem:
			if bits.OnesCount64(y.k) == 1 {
				return m.Bin(OBand, x, m.Const(x.w, y.k-1))
			}
		case OBand:
			if y.k == 0 {
				return y
			}
			if y.k == wmask(x.w) {
				return x
			}
			if x.op == OZext && y.k&wmask(x.a[0].w) == wmask(x.a[0].w) {
				return x
			}
		}
		if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() && op != OUdiv {
			return m.Ite(x.a[0], m.Bin(op, x.a[1], y), m.Bin(op, x.a[2], y))
		}
	}
	if op == OSub && x == y {
		return m.Const(x.w, 0)
	}
	return m.mk(op, x.w, 0, "", x, y)
}

func (m *TermMgr) Ult(x, y *Term) *Term {
	if x == y {
		return m.tFalse
	}
	if x.isConst() && y.isConst() {
		return m.Bool(x.k < y.k)
	}
	if y.isConst() {
		if y.k == 0 {
			return m.tFalse
		}
		if x.op == OZext {
			in := x.a[0]
			if y.k > wmask(in.w) {
				return m.tTrue
			}
			return m.Ult(in, m.Const(in.w, y.k))
		}
		if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
			return m.Ite(x.a[0], m.Ult(x.a[1], y), m.Ult(x.a[2], y))
		}
	}
	if x.isConst() {
		if x.k == wmask(x.w) {
			return m.tFalse
		}
		if y.op == OZext {
			in := y.a[0]
			if x.k >= wmask(in.w) {
				return m.tFalse
			}
			return m.Ult(m.Const(in.w, x.k), in)
		}
		if y.op == OIte && y.a[1].isConst() && y.a[2].isConst() {
			return m.Ite(y.a[0], m.Ult(x, y.a[1]), m.Ult(x, y.a[2]))
		}
	}
	if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		return m.Ult(x.a[0], y.a[0])
	}
	return m.mk(OUlt, 0, 0, "", x, y)
}

func (m *TermMgr) Slt(x, y *Term) *Term {
	if x == y {
		return m.tFalse
	}
	if x.isConst() && y.isConst() {
		return m.Bool(sx(x.k, x.w) < sx(y.k, y.w))
	}
	// zero-extended values are non-negative
	if x.op == OZext && y.isConst() {
		if sx(y.k, y.w) <= 0 {
			return m.tFalse
		}
		return m.Ult(x, y)
	}
	if y.op == OZext && x.isConst() {
		if sx(x.k, x.w) < 0 {
			return m.tTrue
		}
		return m.Ult(x, y)
	}
	if x.op == OZext && y.op == OZext {
		return m.Ult(x, y)
	}
	if x.op == OIte && y.isConst() && x.a[1].isConst() && x.a[2].isConst() {
		return m.Ite(x.a[0], m.Slt(x.a[1], y), m.Slt(x.a[2], y))
	}
	if y.op == OIte && x.isConst() && y.a[1].isConst() && y.a[2].isConst() {
		return m.Ite(y.a[0], m.Slt(x, y.a[1]), m.Slt(x, y.a[2]))
	}
	return m.mk(OSlt, 0, 0, "", x, y)
}

func (m *TermMgr) Bnot(x *Term) *Term {
	if x.isConst() {
		return m.Const(x.w, ^x.k)
	}
	return m.mk(OBnot, x.w, 0, "", x)
}

func (m *TermMgr) Neg(x *Term) *Term {
	if x.isConst() {
		return m.Const(x.w, -x.k)
	}
	return m.mk(ONeg, x.w, 0, "", x)
}

func (m *TermMgr) Zext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return m.Const(w, x.k)
	}
	if x.op == OZext {
		return m.Zext(x.a[0], w)
	}
	if x.op == OIte && x.a[1].isConst() && x.a[2].isConst() {
		return m.Ite(x.a[0], m.Zext(x.a[1], w), m.Zext(x.a[2], w))
	}
	return m.mk(OZext, w, 0, "", x)
}

func (m *TermMgr) Sext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return m.Const(w, uint64(sx(x.k, x.w)))
	}
	if x.op == OZext {
		return m.Zext(x.a[0], w)
	}
	return m.mk(OSext, w, 0, "", x)
}

// Trunc extracts the low w bits.
func (m *TermMgr) Trunc(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return m.Const(w, x.k)
	}
	if x.op == OZext || x.op == OSext {
		in := x.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return m.Trunc(in, w)
		}
		if x.op == OZext {
			return m.Zext(in, w)
		}
		return m.Sext(in, w)
	}
	switch x.op {
	case OAdd, OSub, OBand, OBor, OBxor:
		return m.Bin(x.op, m.Trunc(x.a[0], w), m.Trunc(x.a[1], w))
	case OIte:
		return m.Ite(x.a[0], m.Trunc(x.a[1], w), m.Trunc(x.a[2], w))
	}
	return m.mk(OExtract, w, 0, "", x)
}

// Model assigns values to variables; missing variables are 0.
type Model map[*Term]uint64

type evaluator struct {
	model Model
	memo  map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return e.model[t]
	}
	if t.size > 6 {
		if v, ok := e.memo[t]; ok {
			return v
		}
	}
	var r uint64
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a[0])
	case OAnd:
		r = e.eval(t.a[0])
		if r == 1 {
			r = e.eval(t.a[1])
		}
	case OOr:
		r = e.eval(t.a[0])
		if r == 0 {
			r = e.eval(t.a[1])
		}
	case OIte:
		if e.eval(t.a[0]) == 1 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OEq:
		r = b(e.eval(t.a[0]) == e.eval(t.a[1]))
	case OUlt:
		r = b(e.eval(t.a[0]) < e.eval(t.a[1]))
	case OSlt:
		r = b(sx(e.eval(t.a[0]), t.a[0].w) < sx(e.eval(t.a[1]), t.a[1].w))
	case OBnot:
		r = ^e.eval(t.a[0]) & wmask(t.w)
	case ONeg:
		r = -e.eval(t.a[0]) & wmask(t.w)
	case OZext:
		r = e.eval(t.a[0])
	case OSext:
		r = uint64(sx(e.eval(t.a[0]), t.a[0].w)) & wmask(t.w)
	case OExtract:
		r = e.eval(t.a[0]) & wmask(t.w)
	default:
		r = evalBin(t.op, t.w, e.eval(t.a[0]), e.eval(t.a[1]))
	}
	if t.size > 6 {
		e.memo[t] = r
	}
	return r
}

func (m Model) eval(t *Term) uint64 {
	e := evaluator{m, map[*Term]uint64{}}
	return e.eval(t)
}

// truthMask returns for a boolean term over one 8-bit variable the set of values for which it is true.
func (t *Term) truthMask() *[4]uint64 {
	if t.mask != nil {
		return t.mask
	}
	v := t.vars[0]
	var r [4]uint64
	for i := 0; i < 256; i++ {
		if (Model{v: uint64(i)}).eval(t) == 1 {
			r[i/64] |= 1 << (i % 64)
		}
	}
	t.mask = &r
	return t.mask
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(w uint8, k uint64) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constSMT(t.w, t.k)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// body renders one node in terms of references to its children.
func (t *Term) body() string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a[0].ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + opSMT[t.op])
	for _, x := range t.a {
		if x != nil {
			sb.WriteString(" " + x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
