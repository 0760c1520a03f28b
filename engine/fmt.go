package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// outBuf collects formatted output that may contain symbolic bytes.
type outBuf struct{ b []Value }

func (o *outBuf) str(s string) {
	for i := 0; i < len(s); i++ {
		o.b = append(o.b, byteC[s[i]])
	}
}
func (o *outBuf) val(v Value) {
	if s, ok := v.(string); ok {
		o.str(s)
		return
	}
	o.b = append(o.b, strBytes(v)...)
}

func qualifier(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string {
	s := types.TypeString(t, qualifier)
	return strings.ReplaceAll(s, "interface{}", "interface {}")
}

// callMethod calls a niladic method returning a string when the value has it.
func (st *State) strMethod(fr *frame, i Iface, name string) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	f := st.eng.findMethod(i.t, nil, name)
	if f == nil {
		return nil, false
	}
	sig := f.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
		return nil, false
	}
	return st.call(fr, st.eng.closure(f), []Value{i.v}, nil), true
}

func (st *State) fmtVal(fr *frame, o *outBuf, verb byte, plus, sharp bool, v Value, t types.Type, depth int) {
	checkPoison(v)
	if t == nil {
		if verb == 'T' || verb == 'v' {
			o.str("<nil>")
		} else {
			o.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if i, ok := v.(Iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			if i.t == nil {
				o.str("<nil>")
				return
			}
			st.fmtVal(fr, o, verb, plus, sharp, i.v, i.t, depth)
			return
		}
	}
	if verb == 'T' {
		o.str(typeName(t))
		return
	}
	if !(verb == 'v' && sharp) && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') && depth < 20 {
		if p, ok := v.(*Value); !ok || p != nil {
			i := Iface{t, v}
			if st.eng.findMethod(t, nil, "Format") != nil && st.isFormatter(t) {
				// pkg/errors and friends: %v and %s print Error()
				if plus {
					unsup("%%+v of a Formatter")
				}
			}
			s, ok := st.strMethod(fr, i, "Error")
			if !ok {
				s, ok = st.strMethod(fr, i, "String")
			}
			if ok {
				st.fmtVal(fr, o, verb, plus, sharp, s, types.Typ[types.String], depth+1)
				return
			}
		} else if verb == 'v' || verb == 's' {
			o.str("<nil>")
			return
		}
	}
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			switch verb {
			case 'q':
				st.quote(fr, o, v)
			case 'x':
				o.str(fmt.Sprintf("%x", st.concStr(fr, v)))
			case 'v', 's':
				if sharp {
					st.quote(fr, o, v)
				} else {
					o.val(v)
				}
			default:
				o.str("%!" + string(verb) + "(" + typeName(t) + "=")
				o.val(v)
				o.str(")")
			}
			return
		case b.Info()&types.IsBoolean != 0:
			bb := st.decide(v)
			if verb == 't' || verb == 'v' {
				o.str(strconv.FormatBool(bb))
			} else {
				o.str(fmt.Sprintf("%%!%c(%s=%v)", verb, typeName(t), bb))
			}
			return
		case b.Info()&types.IsFloat != 0:
			f := v.(float64)
			var x any = f
			if b.Kind() == types.Float32 {
				x = float32(f)
			}
			o.str(fmt.Sprintf("%"+string(verb), x))
			return
		case b.Info()&types.IsComplex != 0:
			o.str(fmt.Sprintf("%"+string(verb), v))
			return
		}
		if k, ok := intInfo(b); ok {
			if t, ok := v.(*Term); ok && !t.isConst() && (verb == 'd' || verb == 'v' && !sharp) {
				st.decimal(fr, o, v, k)
				return
			}
			c := st.concretize(v)
			var x any = uint64(c)
			if k.signed {
				x = sx(uint64(c), k.w)
				if k.w == 32 && (verb == 'c' || verb == 'q' || verb == 'U') {
					x = rune(sx(uint64(c), k.w))
				}
			}
			if verb == 's' {
				o.str(fmt.Sprintf("%%!s(%s=%d)", typeName(t), x))
				return
			}
			o.str(fmt.Sprintf("%"+string(verb), x))
			return
		}
	}
	switch x := v.(type) {
	case Slice:
		el := u.(*types.Slice).Elem()
		if k, ok := intInfo(el); ok && k.w == 8 && !k.signed && (verb == 's' || verb == 'q') {
			s := mkStr(append([]Value(nil), x.v...))
			st.fmtVal(fr, o, verb, plus, sharp, s, types.Typ[types.String], depth+1)
			return
		}
		if sharp {
			o.str(typeName(t))
			if x.v == nil {
				o.str("(nil)")
				return
			}
			o.str("{")
			for i, e := range x.v {
				if i > 0 {
					o.str(", ")
				}
				st.fmtVal(fr, o, verb, plus, sharp, e, el, depth+1)
			}
			o.str("}")
			return
		}
		o.str("[")
		for i, e := range x.v {
			if i > 0 {
				o.str(" ")
			}
			st.fmtVal(fr, o, verb, plus, sharp, e, el, depth+1)
		}
		o.str("]")
		return
	case Array:
		el := u.(*types.Array).Elem()
		o.str("[")
		for i, e := range x {
			if i > 0 {
				o.str(" ")
			}
			st.fmtVal(fr, o, verb, plus, sharp, e, el, depth+1)
		}
		o.str("]")
		return
	case Struct:
		s := u.(*types.Struct)
		if sharp {
			o.str(typeName(t))
		}
		o.str("{")
		for i, e := range x {
			if i > 0 {
				if sharp {
					o.str(", ")
				} else {
					o.str(" ")
				}
			}
			if plus || sharp {
				o.str(s.Field(i).Name() + ":")
			}
			st.fmtVal(fr, o, verb, plus, sharp, e, s.Field(i).Type(), depth+1)
		}
		o.str("}")
		return
	case *MapV:
		m := u.(*types.Map)
		o.str("map[")
		if x != nil {
			for i, e := range st.sortedEnts(fr, x, m.Key()) {
				if i > 0 {
					o.str(" ")
				}
				st.fmtVal(fr, o, verb, plus, sharp, e.k, m.Key(), depth+1)
				o.str(":")
				st.fmtVal(fr, o, verb, plus, sharp, e.v, m.Elem(), depth+1)
			}
		}
		o.str("]")
		return
	case *Value:
		if x == nil {
			o.str("<nil>")
			return
		}
		if depth == 0 {
			switch (*x).(type) {
			case Struct, Array, Slice, *MapV:
				o.str("&")
				st.fmtVal(fr, o, verb, plus, sharp, *x, u.(*types.Pointer).Elem(), depth+1)
				return
			}
		}
		o.str("0xc000010000")
		return
	case *Closure:
		if x == nil {
			o.str("<nil>")
			return
		}
		o.str("0x480000")
		return
	case *ChanV:
		if x == nil {
			o.str("<nil>")
			return
		}
		o.str("0xc000020000")
		return
	}
	unsup("format %%%c of %s", verb, t)
}

func (st *State) isFormatter(t types.Type) bool {
	p := st.eng.pkgs["fmt"]
	if p == nil {
		return false
	}
	m, ok := p.Members["Formatter"].(interface{ Type() types.Type })
	if !ok {
		return false
	}
	it, ok := m.Type().Underlying().(*types.Interface)
	return ok && st.eng.implements(t, it)
}

func (st *State) quote(fr *frame, o *outBuf, v Value) {
	if s, ok := v.(string); ok {
		o.str(strconv.Quote(s))
		return
	}
	o.val(st.callFn(fr, st.eng.mustFunc("strconv", "Quote"), []Value{v}, nil))
}

// decimal writes a symbolic integer digit by digit; only its sign and the number of digits are decided.
func (st *State) decimal(fr *frame, o *outBuf, v Value, k intKind) {
	w := intKind{64, false}
	x := st.convInt(v, k, w)
	if k.signed && st.decide(st.intop(fr, token.LSS, k, v, C(0), nil)) {
		o.str("-")
		x = st.intop(fr, token.SUB, w, C(0), x, nil)
	}
	n, p := 1, uint64(10)
	for ; n < 20 && !st.decide(st.intop(fr, token.LSS, w, x, C(p), nil)); n++ {
		if n == 19 {
			n++
			break
		}
		p *= 10
	}
	d := w
	switch { // short numbers are divided in few bits
	case n <= 2:
		d.w = 8
	case n <= 4:
		d.w = 16
	case n <= 9:
		d.w = 32
	}
	x = st.convInt(x, w, d)
	ds := make([]Value, n)
	for i := n - 1; i >= 0; i-- {
		q := st.intop(fr, token.REM, d, x, C(10), nil)
		ds[i] = st.convInt(st.intop(fr, token.ADD, d, q, C('0'), nil), d, intKind{8, false})
		x = st.intop(fr, token.QUO, d, x, C(10), nil)
	}
	o.val(mkStr(ds))
}

// concStr forces every byte of a string to a concrete value.
func (st *State) concStr(fr *frame, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(st.concretize(b[i]))
	}
	return string(r)
}

func (st *State) sortedEnts(fr *frame, m *MapV, kt types.Type) []*mapEnt {
	var es []*mapEnt
	for _, e := range m.ents {
		if !e.dead {
			es = append(es, e)
		}
	}
	less := func(a, b *mapEnt) bool {
		x, y := a.k, b.k
		if i, ok := x.(Iface); ok {
			x = i.v
			if j, ok := y.(Iface); ok {
				y = j.v
			}
		}
		switch p := x.(type) {
		case string:
			if q, ok := y.(string); ok {
				return p < q
			}
			return st.decide(st.strLess(x, y))
		case *SymStr:
			return st.decide(st.strLess(x, y))
		case C:
			if q, ok := y.(C); ok {
				k, _ := intInfo(kt)
				if k.signed {
					return sx(uint64(p), k.w) < sx(uint64(q), k.w)
				}
				return p < q
			}
		case float64:
			return p < y.(float64)
		case bool:
			q, _ := y.(bool)
			return !p && q
		}
		return false
	}
	// insertion sort: comparisons may fork
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && less(es[j], es[j-1]); j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}

func (st *State) sprintf(fr *frame, format string, args []Value) Value {
	o := &outBuf{}
	ai, indexed := 0, false
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			o.str(format[i:j])
			i = j
			continue
		}
		i++
		minus, plus, sharp, zero, space := false, false, false, false, false
	flags:
		for i < len(format) {
			switch format[i] {
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case ' ':
				space = true
			default:
				break flags
			}
			i++
		}
		width, hasW := 0, false
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			hasW = true
			i++
		}
		if i < len(format) && format[i] == '*' {
			if ai >= len(args) {
				unsup("format %%* without argument")
			}
			w := int(int64(st.concretize(args[ai].(Iface).v)))
			ai, i, hasW = ai+1, i+1, true
			if w < 0 {
				w, minus, zero = -w, true, false
			}
			width = w
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i < len(format) && format[i] == '[' {
			n, j := 0, i+1
			for j < len(format) && format[j] >= '0' && format[j] <= '9' {
				n = n*10 + int(format[j]-'0')
				j++
			}
			if j >= len(format) || format[j] != ']' || n < 1 || n > len(args) {
				unsup("indexed format")
			}
			ai, i, indexed = n-1, j+1, true
		}
		if i >= len(format) {
			o.str("%!(NOVERB)")
			break
		}
		verb := format[i]
		if verb >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(format[i:])
			o.str("%!" + string(r) + "(NOVERB)")
			i += n
			continue
		}
		i++
		if verb == '%' {
			o.str("%")
			continue
		}
		if ai >= len(args) {
			o.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'w' {
			verb = 'v'
		}
		if (space || zero || prec >= 0 || (plus && verb == 'd')) && a.t != nil {
			spec := "%"
			if zero {
				spec += "0"
			}
			if plus {
				spec += "+"
			}
			if space {
				spec += " "
			}
			if hasW {
				spec += strconv.Itoa(width)
			}
			if prec >= 0 {
				spec += "." + strconv.Itoa(prec)
			}
			spec += string(verb)
			if k, ok := intInfo(a.t); ok {
				c := st.concretize(a.v)
				if k.signed {
					o.str(fmt.Sprintf(spec, sx(uint64(c), k.w)))
				} else {
					o.str(fmt.Sprintf(spec, uint64(c)))
				}
				continue
			}
			if f, ok := a.v.(float64); ok {
				o.str(fmt.Sprintf(spec, f))
				continue
			}
			if isString(a.t) {
				o.str(fmt.Sprintf(spec, st.concStr(fr, a.v)))
				continue
			}
			unsup("format %s", spec)
		}
		sub := &outBuf{}
		switch verb {
		case 'v', 's', 'q', 'd', 't', 'T', 'x', 'X', 'f', 'g', 'e', 'c', 'U', 'b', 'o':
			if verb == 'T' && a.t == nil {
				sub.str("<nil>")
			} else {
				st.fmtVal(fr, sub, verb, plus, sharp, a.v, a.t, 0)
			}
		default:
			sub.str("%!" + string(verb) + "(")
			if a.t == nil {
				sub.str("<nil>")
			} else {
				sub.str(typeName(a.t) + "=")
				st.fmtVal(fr, sub, 'v', false, false, a.v, a.t, 0)
			}
			sub.str(")")
		}
		if hasW {
			n := st.runeCount(fr, mkStr(sub.b))
			if n < width {
				pad := strings.Repeat(" ", width-n)
				if minus {
					sub.str(pad)
				} else {
					x := &outBuf{}
					x.str(pad)
					x.b = append(x.b, sub.b...)
					sub = x
				}
			}
		}
		o.b = append(o.b, sub.b...)
	}
	if !indexed && ai < len(args) {
		o.str("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				o.str(", ")
			}
			a := args[k].(Iface)
			if a.t == nil {
				o.str("<nil>")
			} else {
				o.str(typeName(a.t) + "=")
				st.fmtVal(fr, o, 'v', false, false, a.v, a.t, 0)
			}
		}
		o.str(")")
	}
	return mkStr(o.b)
}

func (st *State) runeCount(fr *frame, v Value) int {
	if s, ok := v.(string); ok {
		return utf8.RuneCountInString(s)
	}
	n := 0
	for p := 0; p < strLen(v); n++ {
		_, k := st.decodeRune(fr, v, p)
		p += k
	}
	return n
}

func (st *State) sprint(fr *frame, args []Value, ln bool) Value {
	o := &outBuf{}
	prevStr := false
	for i, x := range args {
		a := x.(Iface)
		isS := a.t != nil && isString(a.t) && a.t == types.Typ[types.String]
		if a.t != nil && isString(a.t) {
			isS = true
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			o.str(" ")
		}
		if a.t == nil {
			o.str("<nil>")
		} else {
			st.fmtVal(fr, o, 'v', false, false, a.v, a.t, 0)
		}
		prevStr = isS
	}
	if ln {
		o.str("\n")
	}
	return mkStr(o.b)
}

// fmtString makes a format usable: symbolic formats are forced to concrete values.
func (st *State) fmtString(fr *frame, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	// decide first whether any byte is a verb introducer: without one the format is literal text
	for _, b := range strBytes(v) {
		if t, ok := b.(*Term); ok {
			st.concretize(t)
		}
	}
	return st.concStr(fr, v)
}

// sprintfV handles formats with symbolic bytes: when no symbolic byte can be '%', literal parts stay symbolic.
func (st *State) sprintfV(fr *frame, f Value, args []Value) Value {
	if s, ok := f.(string); ok {
		return st.sprintf(fr, s, args)
	}
	b := strBytes(f)
	anySym := false
	for _, x := range b {
		if t, ok := x.(*Term); ok {
			if st.decide(st.val(st.tm.Eq(t, st.tm.Const(8, '%')))) {
				anySym = true
			}
		}
	}
	if anySym {
		// a symbolic byte is '%': resolve the bytes that follow it
		return st.sprintf(fr, st.concStr(fr, f), args)
	}
	// split at concrete '%' verbs; symbolic bytes inside a verb specification are made concrete
	ph := make([]byte, len(b))
	idx := map[int]Value{}
	for i, x := range b {
		if c, ok := x.(C); ok {
			ph[i] = byte(c)
		} else {
			ph[i] = 0xff
			idx[i] = x
		}
	}
	o := &outBuf{}
	i := 0
	ai := 0
	for i < len(b) {
		if ph[i] != '%' {
			o.b = append(o.b, b[i])
			i++
			continue
		}
		j := i + 1
		for j < len(b) && strings.IndexByte("+-# 0123456789.", ph[j]) >= 0 {
			j++
		}
		if j >= len(b) || idx[j] != nil {
			return st.sprintf(fr, st.concStr(fr, f), args)
		}
		spec := string(ph[i : j+1])
		if ph[j] == '%' {
			o.str("%")
		} else {
			n := ai + 1
			if n > len(args) {
				n = len(args)
				o.val(st.sprintf(fr, spec, nil))
			} else {
				o.val(st.sprintf(fr, spec, args[ai:n]))
			}
			ai = n
		}
		i = j + 1
	}
	if ai < len(args) {
		o.val(st.sprintf(fr, "", args[ai:]))
	}
	return mkStr(o.b)
}

func sortStrings(s []string) { sort.Strings(s) }
