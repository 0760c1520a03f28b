package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	slots  map[ssa.Value]int32
	n      int
	name   string
	intr   intrinsic
	fast   func(a []Value) (Value, bool)
	repl   *ssa.Function
	noop   bool
	mu     sync.Mutex
	inRepo bool
}

type intrinsic func(st *State, fr *frame, args []Value) Value

type deferred struct {
	fn   Value
	args []Value
	site ssa.Instruction
}

type frame struct {
	st        *State
	g         *goroutine
	fn        *ssa.Function
	info      *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	caller    *frame
	defers    []deferred
	result    Value
	panicking bool
	panicVal  any
	cur       ssa.Instruction
	depth     int
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct{ v Value }

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.fninfo.Load(fn); ok {
		return i.(*fnInfo)
	}
	i := &fnInfo{name: fnName(fn)}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	base := i.name
	if o := fn.Origin(); o != nil {
		base = fnName(o)
	}
	if f, ok := intrinsics[i.name]; ok {
		i.intr = f
	} else if f, ok := intrinsics[base]; ok {
		i.intr = f
	}
	i.fast = fastpaths[i.name]
	if r, ok := e.replace[i.name]; ok {
		i.repl = r
	} else if r, ok := e.replace[base]; ok {
		i.repl = r
	}
	if i.repl == fn {
		i.repl = nil
	}
	i.slots = map[ssa.Value]int32{}
	add := func(v ssa.Value) {
		i.slots[v] = int32(i.n)
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	if pk != nil {
		i.inRepo = e.isSubject(pk.Pkg.Path())
	}
	r, _ := e.fninfo.LoadOrStore(fn, i)
	return r.(*fnInfo)
}

func fnName(fn *ssa.Function) string {
	return fn.String()
}

func (st *State) constVal(c *ssa.Const) Value {
	if v, ok := st.consts[c]; ok {
		return v
	}
	v := st.mkConst(c)
	st.consts[c] = v
	return v
}

func (st *State) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok && tp != nil {
		unsup("constant of interface type")
	}
	b := t.(*types.Basic)
	if k, ok := intInfo(b); ok {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return C(uint64(i) & wmask(k.w))
		}
		u, _ := constant.Uint64Val(v)
		return C(u & wmask(k.w))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Kind() == types.UnsafePointer:
		return (*Value)(nil)
	}
	panic("mkConst " + c.String())
}

func (st *State) globalAddr(g *ssa.Global) *Value {
	if p, ok := st.globals[g]; ok {
		if g.Pkg != nil && !st.inited[g.Pkg] {
			st.initPkg(g.Pkg)
		}
		return p
	}
	st.allocGlobals(g.Pkg)
	if !st.inited[g.Pkg] {
		st.initPkg(g.Pkg)
	}
	return st.globals[g]
}

func (st *State) allocGlobals(p *ssa.Package) {
	for _, m := range p.Members {
		if gv, ok := m.(*ssa.Global); ok {
			if _, ok := st.globals[gv]; !ok {
				cell := new(Value)
				*cell = zero(gv.Type().Underlying().(*types.Pointer).Elem())
				st.globals[gv] = cell
			}
		}
	}
}

var skipInit = map[string]bool{"runtime": true, "syscall": true, "internal/poll": true, "internal/cpu": true, "reflect": true,
	"internal/godebug": true, "net": true, "crypto/tls": true, "crypto/x509": true, "internal/abi": true}

// initPkg runs the package's variable initialisers and init functions once per worker, outside any path.
func (st *State) initPkg(p *ssa.Package) {
	if st.inited[p] {
		return
	}
	st.inited[p] = true
	p.Build()
	st.allocGlobals(p)
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	lg := st.logging
	st.logging = false
	st.initDep++
	steps := st.steps
	defer func() {
		st.logging = lg
		st.initDep--
		st.steps = steps
	}()
	info := st.eng.info(fn)
	fr := &frame{st: st, g: st.cur, fn: fn, info: info, env: make([]Value, info.n), block: fn.Blocks[0]}
	for fr.block != nil {
		b := fr.block
		next := (*ssa.BasicBlock)(nil)
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				if c, ok := fr.get(x.Cond).(bool); ok && c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			default:
				st.tolerant(fr, in)
			}
		}
		fr.prev, fr.block = b, next
	}
}

// tolerant executes one initialiser instruction; what cannot be executed yields a poison value.
func (st *State) tolerant(fr *frame, in ssa.Instruction) {
	gdepth := st.cur
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case killed:
				panic(r)
			case unsupported:
				st.poison(fr, in, x.msg)
			case targetPanic:
				st.poison(fr, in, "panic in initialiser")
			case pathEnd:
				st.poison(fr, in, "path end in initialiser: "+x.why)
			default:
				st.poison(fr, in, fmt.Sprint(r))
			}
			st.cur = gdepth
		}
	}()
	fr.cur = in
	fr.visit(in)
}

func (st *State) poison(fr *frame, in ssa.Instruction, msg string) {
	if v, ok := in.(ssa.Value); ok {
		fr.env[fr.info.slots[v]] = Poison(fr.fn.Pkg.Pkg.Path() + " init: " + msg)
	}
	if s, ok := in.(*ssa.Store); ok {
		if g, ok := s.Addr.(*ssa.Global); ok {
			*st.globals[g] = Poison(g.String() + ": " + msg)
		}
	}
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.st.constVal(x)
	case *ssa.Global:
		return fr.st.globalAddr(x)
	case *ssa.Function:
		return fr.st.eng.closure(x)
	case *ssa.Builtin:
		return x
	}
	return fr.env[fr.info.slots[v]]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.info.slots[v]] = x }

func (e *Engine) closure(f *ssa.Function) *Closure {
	if c, ok := e.closures.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := e.closures.LoadOrStore(f, &Closure{fn: f})
	return c.(*Closure)
}

func (st *State) rtPanic(msg string) {
	panic(targetPanic{Iface{st.eng.rtErrType, msg}})
}

func (st *State) where() string {
	if st.cur == nil || st.cur.top == nil {
		return "?"
	}
	var ss []string
	n := 0
	for f := st.cur.top; f != nil && n < 8; f = f.caller {
		p := ""
		if f.cur != nil {
			for _, c := range []token.Pos{f.cur.Pos()} {
				if c.IsValid() {
					ps := st.eng.fset.Position(c)
					p = fmt.Sprintf("%s:%d", shortPath(ps.Filename), ps.Line)
				}
			}
		}
		ss = append(ss, f.fn.Name()+"@"+p)
		n++
	}
	return strings.Join(ss, " < ")
}

func shortPath(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		if j := strings.LastIndex(s[:i], "/"); j >= 0 {
			return s[j+1:]
		}
	}
	return s
}

// call invokes a function value.
func (st *State) call(caller *frame, fv Value, args []Value, site ssa.Instruction) Value {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.native != nil {
			return f.native(st, caller, args)
		}
		return st.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return st.callBuiltin(caller, f, args, site)
	case nil:
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	checkPoison(fv)
	panic(fmt.Sprintf("call of %T", fv))
}

func (st *State) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	info := st.eng.info(fn)
	if info.repl != nil {
		return st.callFn(caller, info.repl, args, nil)
	}
	if info.intr != nil {
		return info.intr(st, caller, args)
	}
	if info.fast != nil {
		if r, ok := info.fast(args); ok {
			return r
		}
	}
	if fn.Blocks == nil {
		unsup("no body for %s", info.name)
	}
	if info.inRepo && !st.funcs[fn] {
		st.funcs[fn] = true
	}
	fr := &frame{st: st, g: st.cur, fn: fn, info: info, env: make([]Value, info.n), block: fn.Blocks[0], caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 400 {
			st.unit.noteIncomplete("call depth bound 400 reached in " + info.name)
			panic(pathEnd{"depth"})
		}
	}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range env {
		fr.env[len(fn.Params)+i] = env[i]
	}
	old := st.cur.top
	st.cur.top = fr
	g := st.cur
	fr.run()
	g.top = old
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		switch r.(type) {
		case targetPanic:
		default:
			if r != nil {
				panic(r)
			}
			return
		}
		fr.g.top = fr
		fr.panicking = true
		fr.panicVal = r
		fr.runDefers()
		if fr.panicking {
			panic(fr.panicVal)
		}
		// recovered
		if fr.fn.Recover != nil {
			fr.block = fr.fn.Recover
			fr.prev = nil
			fr.loop()
		} else {
			fr.block = nil
			res := fr.fn.Signature.Results()
			if res.Len() > 0 {
				fr.result = zero(res)
			}
		}
	}()
	fr.loop()
}

func (fr *frame) loop() {
	for fr.block != nil {
		b := fr.block
		jumped := false
		for _, in := range b.Instrs {
			fr.cur = in
			switch fr.step(in) {
			case 1:
				return
			case 2:
				jumped = true
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("block without terminator in " + fr.info.name)
		}
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(targetPanic); is {
				fr.g.top = fr
				fr.panicking = true
				fr.panicVal = tp
				return
			}
			if r != nil {
				panic(r)
			}
		}
	}()
	fr.st.call(fr, d.fn, d.args, d.site)
	ok = true
}

func (fr *frame) step(in ssa.Instruction) int {
	st := fr.st
	st.steps++
	if st.steps > st.maxSteps && st.initDep == 0 {
		st.unit.noteIncomplete(fmt.Sprintf("step bound %d reached (%s)", st.maxSteps, st.where()))
		panic(pathEnd{"steps"})
	}
	switch x := in.(type) {
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = fr.get(x.Results[0])
		default:
			r := make(Tuple, len(x.Results))
			for i, v := range x.Results {
				r[i] = fr.get(v)
			}
			fr.result = r
		}
		fr.block = nil
		return 1
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			panic(fr.panicVal)
		}
	case *ssa.Panic:
		panic(targetPanic{fr.get(x.X)})
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return 2
	case *ssa.If:
		c := fr.get(x.Cond)
		i := 1
		if b, ok := c.(bool); ok {
			if b {
				i = 0
			}
		} else if st.decide(c) {
			i = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[i]
		fr.phis()
		return 2
	case *ssa.Phi:
		// evaluated on block entry
	default:
		fr.visit(in)
	}
	return 0
}

func (fr *frame) phis() {
	b := fr.block
	var vals []Value
	idx := -1
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			for i, pr := range b.Preds {
				if pr == fr.prev {
					idx = i
					break
				}
			}
		}
		vals = append(vals, fr.get(p.Edges[idx]))
	}
	for i := range vals {
		fr.set(b.Instrs[i].(*ssa.Phi), vals[i])
	}
}

func (st *State) load(p *Value) Value {
	if p == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	if st.hb != nil {
		st.hbAccess(p, false)
	}
	v := *p
	switch v.(type) {
	case Struct, Array:
		return copyVal(v)
	}
	return v
}

func (st *State) store(p *Value, v Value) {
	if p == nil {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	if st.hb != nil {
		st.hbAccess(p, true)
	}
	st.storeRaw(p, v)
}

func (st *State) storeRaw(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				st.storeRaw(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				st.storeRaw(&d[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	st.log(p)
	*p = v
}

func asPtr(v Value) *Value {
	if p, ok := v.(*Value); ok {
		return p
	}
	checkPoison(v)
	if v == nil {
		return nil
	}
	if _, ok := v.(*NativeObj); ok {
		unsup("dereference of host object")
	}
	panic(fmt.Sprintf("pointer expected, got %T", v))
}

func (fr *frame) visit(in ssa.Instruction) {
	st := fr.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		for i, pr := range fr.block.Preds {
			if pr == fr.prev {
				fr.set(x, fr.get(x.Edges[i]))
				break
			}
		}
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, st.binop(fr, x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepare(&x.Call)
		fr.set(x, st.call(fr, fn, args, in))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, st.convert(fr, x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, st.convert(fr, x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.MakeInterface:
		v := fr.get(x.X)
		checkPoison(v)
		fr.set(x, Iface{x.X.Type(), copyVal(v)})
	case *ssa.Extract:
		t := fr.get(x.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			checkPoison(t)
			panic(fmt.Sprintf("extract from %T in %s: %s", t, fr.info.name, in))
		}
		fr.set(x, tt[x.Index])
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Store:
		st.store(asPtr(fr.get(x.Addr)), fr.get(x.Val))
	case *ssa.Defer:
		fn, args := fr.prepare(&x.Call)
		if x.DeferStack != nil {
			d := fr.get(x.DeferStack).(*NativeObj).x.(*frame)
			d.defers = append(d.defers, deferred{fn, args, in})
		} else {
			fr.defers = append(fr.defers, deferred{fn, args, in})
		}
	case *ssa.Go:
		fn, args := fr.prepare(&x.Call)
		st.spawn(fr, fn, args, in)
	case *ssa.MakeChan:
		n := sx(uint64(st.concretize(fr.get(x.Size))), 64)
		if n < 0 {
			st.rtPanic("makechan: size out of range")
		}
		fr.set(x, &ChanV{cap: int(n), et: x.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.set(x, p)
	case *ssa.MakeSlice:
		ln := int64(st.concretize(fr.get(x.Len)))
		cp := int64(st.concretize(fr.get(x.Cap)))
		if ln < 0 || cp < ln {
			st.rtPanic("makeslice: len out of range")
		}
		if cp > 1<<22 {
			unsup("very large make")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, cp)
		z := zero(el)
		switch z.(type) {
		case Struct, Array:
			for i := range s {
				s[i] = zero(el)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
		fr.set(x, Slice{s[:ln]})
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		fr.set(x, newMap(m))
	case *ssa.Range:
		fr.set(x, st.rangeIter(fr.get(x.X), x.X.Type()))
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.FieldAddr:
		p := asPtr(fr.get(x.X))
		if p == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			checkPoison(*p)
			unsup("field address in %T (%s)", *p, in)
		}
		fr.set(x, &s[x.Field])
	case *ssa.Field:
		s := fr.get(x.X)
		ss, ok := s.(Struct)
		if !ok {
			checkPoison(s)
			panic(fmt.Sprintf("field of %T", s))
		}
		fr.set(x, ss[x.Field])
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(x))
	case *ssa.Index:
		fr.set(x, fr.index(x))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MapUpdate:
		m := fr.get(x.Map)
		mm, ok := m.(*MapV)
		if !ok {
			checkPoison(m)
		}
		if mm == nil {
			st.rtPanic("assignment to entry in nil map")
		}
		if st.hb != nil {
			st.hbObj(mm, true)
		}
		st.mapSet(fr, mm, fr.get(x.Key), fr.get(x.Value))
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.Send:
		c := fr.get(x.Chan)
		ch, ok := c.(*ChanV)
		if !ok {
			checkPoison(c)
		}
		st.chanSend(ch, fr.get(x.X))
	case *ssa.Select:
		fr.set(x, st.sel(fr, x))
	default:
		unsup("instruction %T", in)
	}
}

func (fr *frame) prepare(c *ssa.CallCommon) (Value, []Value) {
	st := fr.st
	var fn Value
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		r := fr.get(c.Value)
		recv, ok := r.(Iface)
		if !ok {
			checkPoison(r)
			panic(fmt.Sprintf("invoke on %T", r))
		}
		if recv.t == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn = st.lookupMethod(recv.t, c.Method)
		args = append(args, recv.v)
	} else {
		fn = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m string
}

func (st *State) lookupMethod(t types.Type, m *types.Func) Value {
	f := st.eng.findMethod(t, m.Pkg(), m.Name())
	if f == nil {
		unsup("no method %s on %s", m.Name(), t)
	}
	return st.eng.closure(f)
}

func (e *Engine) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := methKey{t, name}
	if f, ok := e.meths.Load(key); ok {
		return f.(*ssa.Function)
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		sel = e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	}
	if sel == nil {
		return nil
	}
	f := e.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	e.meths.Store(key, f)
	return f
}

func (fr *frame) slice(x *ssa.Slice) Value {
	st := fr.st
	v := fr.get(x.X)
	bound := func(e ssa.Value, def int) int {
		if e == nil {
			return def
		}
		return int(sx(uint64(st.concretize(fr.get(e))), 64))
	}
	switch s := v.(type) {
	case string, *SymStr:
		n := strLen(s)
		lo := bound(x.Low, 0)
		hi := bound(x.High, n)
		if lo < 0 || hi < lo || hi > n {
			st.rtPanic("slice bounds out of range")
		}
		return strSlice(s, lo, hi)
	case Slice:
		lo := bound(x.Low, 0)
		hi := bound(x.High, len(s.v))
		mx := bound(x.Max, cap(s.v))
		if lo < 0 || hi < lo || mx < hi || mx > cap(s.v) {
			st.rtPanic("slice bounds out of range")
		}
		if s.v == nil {
			return s
		}
		return Slice{s.v[lo:hi:mx]}
	case *Value:
		if s == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := []Value((*s).(Array))
		lo := bound(x.Low, 0)
		hi := bound(x.High, len(a))
		mx := bound(x.Max, cap(a))
		if lo < 0 || hi < lo || mx < hi || mx > cap(a) {
			st.rtPanic("slice bounds out of range")
		}
		return Slice{a[lo:hi:mx]}
	}
	checkPoison(v)
	panic(fmt.Sprintf("slice of %T", v))
}

// boundsCheck forks on whether 0 <= idx < n.
func (st *State) boundsCheck(idx Value, n int, it types.Type) Value {
	switch i := idx.(type) {
	case C:
		k, _ := intInfo(it)
		v := sx(uint64(i), k.w)
		if !k.signed {
			v = int64(i)
			if uint64(i) > 1<<62 {
				v = -1
			}
		}
		if v < 0 || v >= int64(n) {
			st.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return C(v)
	case *Term:
		k, _ := intInfo(it)
		t := i
		if k.signed {
			t = st.tm.Sext(i, 64)
		} else {
			t = st.tm.Zext(i, 64)
		}
		if !st.decide(st.val(st.tm.Ult(t, st.tm.Const(64, uint64(n))))) {
			st.rtPanic("index out of range")
		}
		return st.val(t)
	}
	checkPoison(idx)
	panic("boundsCheck")
}

func (fr *frame) indexAddr(x *ssa.IndexAddr) Value {
	st := fr.st
	v := fr.get(x.X)
	var arr []Value
	switch s := v.(type) {
	case Slice:
		arr = s.v
	case *Value:
		if s == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(Array)
		if !ok {
			checkPoison(*s)
		}
		arr = a
	default:
		checkPoison(v)
		panic(fmt.Sprintf("indexaddr %T", v))
	}
	idx := st.boundsCheck(fr.get(x.Index), len(arr), x.Index.Type())
	if t, ok := idx.(*Term); ok {
		// a read through a symbolic index becomes one term when every use is a load
		if onlyLoaded(x) && len(arr) <= 4096 {
			if r := st.tableRead(arr, t, x.Type().Underlying().(*types.Pointer).Elem()); r != nil {
				p := new(Value)
				*p = r
				return p
			}
		}
		idx = st.concretize(t)
	}
	return &arr[int(idx.(C))]
}

func onlyLoaded(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// tableRead builds an if-then-else over ranges of equal entries.
func (st *State) tableRead(arr []Value, idx *Term, et types.Type) Value {
	var w uint8
	if k, ok := intInfo(et); ok {
		w = k.w
	} else if !isBool(et) {
		return nil
	}
	for _, e := range arr {
		switch e.(type) {
		case C, bool, *Term:
		default:
			return nil
		}
	}
	runs := 1
	for i := 1; i < len(arr); i++ {
		if arr[i] != arr[i-1] {
			runs++
		}
	}
	if runs > 300 {
		return nil
	}
	r := st.term(arr[len(arr)-1], w)
	for i := len(arr) - 2; i >= 0; i-- {
		if arr[i] == arr[i+1] {
			continue
		}
		r = st.tm.Ite(st.tm.Ult(idx, st.tm.Const(64, uint64(i+1))), st.term(arr[i], w), r)
	}
	return st.val(r)
}

func (fr *frame) index(x *ssa.Index) Value {
	st := fr.st
	v := fr.get(x.X)
	var arr []Value
	et := x.Type()
	switch s := v.(type) {
	case Array:
		arr = s
	case string, *SymStr:
		n := strLen(s)
		idx := st.boundsCheck(fr.get(x.Index), n, x.Index.Type())
		if c, ok := idx.(C); ok {
			return strAt(s, int(c))
		}
		arr = strBytes(s)
		if r := st.tableRead(arr, idx.(*Term), et); r != nil {
			return r
		}
		return arr[int(st.concretize(idx))]
	default:
		checkPoison(v)
		panic(fmt.Sprintf("index %T", v))
	}
	idx := st.boundsCheck(fr.get(x.Index), len(arr), x.Index.Type())
	if t, ok := idx.(*Term); ok {
		if r := st.tableRead(arr, t, et); r != nil {
			return r
		}
		idx = st.concretize(t)
	}
	return arr[int(idx.(C))]
}

func (fr *frame) lookup(x *ssa.Lookup) Value {
	st := fr.st
	v := fr.get(x.X)
	switch m := v.(type) {
	case string, *SymStr:
		n := strLen(m)
		idx := st.boundsCheck(fr.get(x.Index), n, x.Index.Type())
		if c, ok := idx.(C); ok {
			return strAt(m, int(c))
		}
		arr := strBytes(m)
		if r := st.tableRead(arr, idx.(*Term), x.Type()); r != nil {
			return r
		}
		return arr[int(st.concretize(idx))]
	case *MapV:
		var r Value
		found := false
		if m != nil {
			if st.hb != nil {
				st.hbObj(m, false)
			}
			if e := st.mapFind(fr, m, fr.get(x.Index)); e != nil {
				r, found = copyVal(e.v), true
			}
		} else {
			concKey(fr.get(x.Index))
		}
		if !found {
			r = zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{r, found}
		}
		return r
	}
	checkPoison(v)
	panic(fmt.Sprintf("lookup %T", v))
}

func newMap(t *types.Map) *MapV {
	return &MapV{kt: t.Key(), vt: t.Elem(), idx: map[string]*mapEnt{}}
}

func (st *State) mapFind(fr *frame, m *MapV, k Value) *mapEnt {
	if f, ok := k.(Iface); ok && f.t != nil {
		if !types.Comparable(f.t) {
			st.rtPanic("hash of unhashable type " + f.t.String())
		}
	}
	key, conc := concKey(k)
	if conc {
		if e, ok := m.idx[key]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := concKey(e.k); ec {
				continue
			}
		}
		if st.decide(st.equal(fr, m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (st *State) mapSet(fr *frame, m *MapV, k, v Value) {
	e := st.mapFind(fr, m, k)
	if e != nil {
		st.log(&e.v)
		e.v = copyVal(v)
		return
	}
	e = &mapEnt{k: copyVal(k), v: copyVal(v)}
	key, conc := concKey(k)
	oldEnts := m.ents
	m.ents = append(m.ents[:len(m.ents):len(m.ents)], e)
	m.live++
	if conc {
		m.idx[key] = e
	} else {
		m.nsym++
	}
	st.logF(func() {
		m.ents = oldEnts
		m.live--
		if conc {
			delete(m.idx, key)
		} else {
			m.nsym--
		}
	})
}

func (st *State) mapDelete(fr *frame, m *MapV, k Value) {
	if m == nil {
		return
	}
	e := st.mapFind(fr, m, k)
	if e == nil {
		return
	}
	oldEnts := m.ents
	var ne []*mapEnt
	for _, x := range m.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	m.ents = ne
	m.live--
	e.dead = true
	key, conc := concKey(e.k)
	if conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	st.logF(func() {
		m.ents = oldEnts
		m.live++
		e.dead = false
		if conc {
			m.idx[key] = e
		} else {
			m.nsym++
		}
	})
}

type iter struct {
	str        Value
	pos        int
	m          *MapV
	ents       []*mapEnt
	asked, any bool // whether the order was asked for, and may be any
}

func (st *State) rangeIter(v Value, t types.Type) Value {
	switch x := v.(type) {
	case string, *SymStr:
		return &NativeObj{&iter{str: x}}
	case *MapV:
		it := &iter{m: x}
		if x != nil {
			it.ents = append(it.ents, x.ents...)
			if st.hb != nil {
				st.hbObj(x, false)
			}
		}
		return &NativeObj{it}
	}
	checkPoison(v)
	panic(fmt.Sprintf("range %T", v))
}

func (fr *frame) next(x *ssa.Next) Value {
	st := fr.st
	it := fr.get(x.Iter).(*NativeObj).x.(*iter)
	if x.IsString {
		n := strLen(it.str)
		if it.pos >= n {
			return Tuple{false, C(0), C(0)}
		}
		r, sz := st.decodeRune(fr, it.str, it.pos)
		p := it.pos
		it.pos += sz
		return Tuple{true, C(uint64(p)), r}
	}
	for len(it.ents) > 0 {
		i := 0
		if st.nondetMap && !it.asked && len(it.ents) > 1 {
			it.asked = true
			if st.mapOrders > 0 && st.choose("map-order", 2) == 1 {
				it.any = true
				st.mapOrders--
				// any order of up to three entries; of more, any rotation in either direction
				if n := len(it.ents); n > 3 {
					it.any = false
					k := st.choose("map-order", 2*n)
					rot := append(append([]*mapEnt(nil), it.ents[k/2:]...), it.ents[:k/2]...)
					if k%2 == 1 {
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							rot[i], rot[j] = rot[j], rot[i]
						}
					}
					it.ents = rot
				}
			}
		}
		if it.any && len(it.ents) > 1 {
			i = st.choose("map-order", len(it.ents))
		}
		e := it.ents[i]
		it.ents = append(append([]*mapEnt(nil), it.ents[:i]...), it.ents[i+1:]...)
		if e.dead {
			continue
		}
		return Tuple{true, e.k, copyVal(e.v)}
	}
	tt := x.Type().(*types.Tuple)
	var zk, zv Value
	if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = zero(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = zero(tt.At(2).Type())
	}
	return Tuple{false, zk, zv}
}

// decodeRune decodes the rune at position p of a string, forking on the class of symbolic bytes.
func (st *State) decodeRune(fr *frame, s Value, p int) (Value, int) {
	b0 := strAt(s, p)
	if t, ok := b0.(*Term); ok {
		if st.decide(st.val(st.tm.Ult(t, st.tm.Const(8, 0x80)))) {
			return st.val(st.tm.Zext(t, 32)), 1
		}
	} else if b0.(C) < 0x80 {
		return b0, 1
	}
	hi := strLen(s)
	if hi > p+4 {
		hi = p + 4
	}
	r := st.callFn(fr, st.eng.mustFunc("unicode/utf8", "DecodeRuneInString"), []Value{strSlice(s, p, hi)}, nil).(Tuple)
	return r[0], int(st.concretize(r[1]))
}

func (fr *frame) typeAssert(x *ssa.TypeAssert) Value {
	st := fr.st
	v := fr.get(x.X)
	i, ok := v.(Iface)
	if !ok {
		checkPoison(v)
		panic(fmt.Sprintf("typeassert on %T", v))
	}
	var r Value
	good := false
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && st.eng.implements(i.t, it) {
			r, good = i, true
		} else {
			r = Iface{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, x.AssertedType) {
			r, good = copyVal(i.v), true
		} else {
			r = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{r, good}
	}
	if !good {
		d := "nil"
		if i.t != nil {
			d = i.t.String()
		}
		st.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType))
	}
	return r
}

type implKey struct{ t, i types.Type }

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.impl.Load(k); ok {
		return v.(bool)
	}
	e.implMu.Lock()
	r := types.Implements(t, it)
	e.implMu.Unlock()
	e.impl.Store(k, r)
	return r
}
