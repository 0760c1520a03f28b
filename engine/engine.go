package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	vPath     = "verif.local/zv/v"
	modelPath = "verif.local/zv/model"
)

// Engine holds one loaded program; it is shared by the workers.
type Engine struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package
	fninfo    sync.Map
	closures  sync.Map
	meths     sync.Map
	impl      sync.Map
	implMu    sync.Mutex
	replace   map[string]*ssa.Function
	rtErrType types.Type
	subject   []string // import path prefixes of the code under test
	types     sync.Map
}

func (e *Engine) isSubject(path string) bool {
	for _, s := range e.subject {
		if path == s || strings.HasPrefix(path, s+"/") {
			return true
		}
	}
	return false
}

func (e *Engine) mustFunc(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	p.Build()
	f := p.Func(name)
	if f == nil {
		unsup("function %s.%s not found", pkg, name)
	}
	return f
}

// namedType finds a named type of a loaded package.
func (e *Engine) namedType(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := e.types.Load(k); ok {
		return t.(types.Type)
	}
	p := e.pkgs[pkg]
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	m, ok := p.Members[name].(*ssa.Type)
	if !ok {
		unsup("type %s not found", k)
	}
	e.types.Store(k, m.Type())
	return m.Type()
}

func loadEngine(dir string, patterns []string, overlay map[string][]byte, buildFlags []string, env []string) (*Engine, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Overlay: overlay, BuildFlags: buildFlags, Env: env,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, pkgs, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	e := &Engine{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, replace: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if m := e.pkgs[modelPath]; m != nil {
		m.Build()
		e.rtErrType = e.namedType(modelPath, "RuntimeError")
		// functions named R_<pkg path with _ for / and .>__<name> are found through the table in model.Replace
	}
	return e, pkgs, nil
}

// Unit is one harness entry being explored.
type Unit struct {
	eng   *Engine
	entry *ssa.Function
	name  string
	prop  string
	tier  string
	group string

	maxSteps, mapOrders, preemptBound, maxAdvances, maxGoroutines, maxPaths int
	deadline                                                                time.Time
	concurrent                                                              bool

	mu      sync.Mutex
	cond    *sync.Cond
	tasks   []*Task
	active  int
	stop    bool
	newWork int

	paths, pruned, steps, branches int
	asserts, folded, discharged    int
	assertMsgs                     map[string]int
	reached                        map[string]int
	incomplete                     map[string]int
	viols                          []*Violation
	violSeen                       map[string]int
	traces                         []*TraceRun
	traceTick                      int
	funcs                          map[string]bool
	stats                          SolverStats
	wall                           time.Duration
	maxDec                         int
}

// TraceRun is a completed path prepared for replay against the compiled code.
type TraceRun struct {
	Entry  string     `json:"entry"`
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
}

func (u *Unit) pushTask(t *Task) {
	u.mu.Lock()
	if !u.stop {
		u.tasks = append(u.tasks, t)
		u.cond.Signal()
	}
	u.mu.Unlock()
}

// pop takes the latest task, or for every other worker any of them, so that an exploration that has to stop early has looked everywhere.
func (u *Unit) pop(rnd *rand.Rand) *Task {
	u.mu.Lock()
	defer u.mu.Unlock()
	for {
		if u.stop {
			return nil
		}
		if n := len(u.tasks); n > 0 {
			if rnd != nil {
				i := rnd.Intn(n)
				u.tasks[i], u.tasks[n-1] = u.tasks[n-1], u.tasks[i]
			}
			t := u.tasks[n-1]
			u.tasks[n-1] = nil
			u.tasks = u.tasks[:n-1]
			u.active++
			return t
		}
		if u.active == 0 {
			u.cond.Broadcast()
			return nil
		}
		u.cond.Wait()
	}
}

func (u *Unit) finish() {
	u.mu.Lock()
	u.active--
	if u.active == 0 && len(u.tasks) == 0 {
		u.cond.Broadcast()
	}
	if !u.stop {
		if u.maxPaths > 0 && u.paths+u.pruned >= u.maxPaths {
			u.incomplete[fmt.Sprintf("path bound %d reached", u.maxPaths)]++
			u.stop = true
			u.cond.Broadcast()
		} else if time.Now().After(u.deadline) {
			u.incomplete["time bound reached"]++
			u.stop = true
			u.cond.Broadcast()
		}
	}
	u.mu.Unlock()
}

func (u *Unit) noteIncomplete(s string) {
	u.mu.Lock()
	u.incomplete[s]++
	u.mu.Unlock()
}
func (u *Unit) countAssert(msg string) {
	u.mu.Lock()
	u.asserts++
	u.assertMsgs[msg]++
	u.mu.Unlock()
}
func (u *Unit) countFolded() {
	u.mu.Lock()
	u.folded++
	u.mu.Unlock()
}
func (u *Unit) countDischarged() {
	u.mu.Lock()
	u.discharged++
	u.mu.Unlock()
}

const maxReportsPerMsg = 4

const noEnd = "no end: "

func (u *Unit) report(st *State, m Model, msg, known string) {
	where := st.where()
	key := known + "|" + msg
	u.mu.Lock()
	defer u.mu.Unlock()
	u.violSeen[key]++
	if strings.HasPrefix(msg, noEnd) && u.violSeen[key] == 40 {
		u.stop = true
		u.incomplete["stopped after 40 paths without an end"]++
		u.cond.Broadcast()
	}
	if u.violSeen[key] > maxReportsPerMsg {
		return
	}
	v := &Violation{Unit: u.name, Entry: u.entry.Name(), Msg: msg, Where: where, Known: known, Inputs: st.inputsUnder(m)}
	for _, o := range st.observes {
		v.Sched = append(v.Sched, o.Label+"="+st.render(o.Val, nil, m))
	}
	v.concurrent = st.schedChoices > 0
	v.noNative = st.nativeSkip
	u.viols = append(u.viols, v)
	n := 0
	for _, x := range u.viols {
		if x.Known == "" {
			n++
		}
	}
	if n >= 12 {
		u.stop = true
		u.incomplete["stopped after 12 violations"]++
		u.cond.Broadcast()
	}
}

// Worker states are reused between entries of the same program.
type Pool struct {
	eng    *Engine
	states []*State
	seed   int64
}

func newPool(e *Engine, n int, cross bool, timeoutMS int, seed int64) *Pool {
	p := &Pool{eng: e, seed: seed}
	for i := 0; i < n; i++ {
		st := &State{id: i, eng: e, tm: newTermMgr(), consts: map[*ssa.Const]Value{}, globals: map[*ssa.Global]*Value{},
			inited: map[*ssa.Package]bool{}, funcs: map[*ssa.Function]bool{}}
		st.sol = newSolver([]string{"z3-new", "-in"}, timeoutMS)
		if cross {
			st.xsol = newSolver([]string{"cvc5", "--incremental", fmt.Sprintf("--tlimit-per=%d", timeoutMS)}, timeoutMS)
		}
		p.states = append(p.states, st)
	}
	return p
}

func (p *Pool) close() {
	for _, s := range p.states {
		s.sol.close()
		if s.xsol != nil {
			s.xsol.close()
		}
	}
}

func (p *Pool) run(u *Unit) {
	t0 := time.Now()
	u.cond = sync.NewCond(&u.mu)
	u.assertMsgs = map[string]int{}
	u.reached = map[string]int{}
	u.incomplete = map[string]int{}
	u.violSeen = map[string]int{}
	u.funcs = map[string]bool{}
	u.tasks = []*Task{{wid: -1}}
	var wg sync.WaitGroup
	for _, s := range p.states {
		s.sol.stats = SolverStats{}
		s.unit = u
		s.funcs = map[*ssa.Function]bool{}
		wg.Add(1)
		go func(s *State) {
			defer wg.Done()
			var rnd *rand.Rand
			if s.id%2 == 1 {
				rnd = rand.New(rand.NewSource(p.seed + int64(s.id)))
			}
			for {
				t := u.pop(rnd)
				if t == nil {
					return
				}
				s.runPath(t)
				u.finish()
			}
		}(s)
	}
	wg.Wait()
	for _, s := range p.states {
		u.stats.add(&s.sol.stats)
		for f := range s.funcs {
			u.funcs[f.String()] = true
		}
		// terms of finished entries are not needed again unless package initialisation made some
		if len(s.tm.tab) > 2_000_000 {
			s.sol.cache = map[string]cacheEnt{}
		}
	}
	u.wall = time.Since(t0)
}

var debugEngine = os.Getenv("GOSYM_DEBUG") != ""

func (st *State) runPath(t *Task) {
	u := st.unit
	st.resetPath(t)
	main := &goroutine{id: 0, name: "main", wake: make(chan struct{}), exited: make(chan struct{}), vc: vclock{1}}
	st.gs = []*goroutine{main}
	st.cur = main
	var end any
	func() {
		defer func() {
			if r := recover(); r != nil {
				end = r
				switch r.(type) {
				case pathEnd, unsupported, targetPanic, uncaught, deadlocked, killed:
				default:
					if debugEngine {
						fmt.Fprintf(os.Stderr, "ENGINE PANIC: %v\n%s\n", r, debug.Stack())
					}
				}
			}
		}()
		st.initSubjects(u.entry.Pkg, map[*types.Package]bool{})
		st.callFn(nil, u.entry, nil, nil)
	}()
	where := st.where()
	complete := false
	switch x := end.(type) {
	case nil:
		complete = true
	case pathEnd:
		// counts if the compiled program does not end either
		switch x.why {
		case "steps":
			u.report(st, st.model, noEnd+"the step bound is reached", "")
		case "depth":
			u.report(st, st.model, noEnd+"the call depth bound is reached", "")
		}
	case unsupported:
		u.noteIncomplete("unsupported: " + x.msg + " [" + where + "]")
	case targetPanic:
		u.report(st, st.model, "panic: "+st.panicText(x.v), "")
	case uncaught:
		u.report(st, st.model, "panic in goroutine: "+st.panicText(x.v), "")
	case deadlocked:
		u.report(st, st.model, "deadlock: "+stripIDs(x.msg), "")
	case error:
		u.noteIncomplete("engine: " + x.Error() + " [" + where + "]")
	default:
		u.noteIncomplete(fmt.Sprintf("engine: %v [%s]", end, where))
	}
	func() {
		defer func() { recover() }()
		st.killAll()
	}()
	u.mu.Lock()
	if complete {
		u.paths++
		for r := range st.reached {
			u.reached[r]++
		}
	} else {
		u.pruned++
	}
	u.steps += st.steps
	u.branches += st.branches
	if len(st.decs) > u.maxDec {
		u.maxDec = len(st.decs)
	}
	if st.schedChoices > 0 || len(st.gs) > 1 {
		u.concurrent = true
	}
	take := false
	if complete && st.schedChoices == 0 && !st.nativeSkip {
		u.traceTick++
		// the first paths and then ever sparser ones
		if len(u.traces) < 12 || (len(u.traces) < 40 && u.traceTick%(1+u.traceTick/16) == 0) {
			take = true
		}
	}
	if take {
		tr := &TraceRun{Entry: u.entry.Name(), Inputs: st.inputsUnder(st.model)}
		for _, o := range st.observes {
			tr.Obs = append(tr.Obs, o.Label+"="+st.render(o.Val, nil, st.model))
		}
		u.traces = append(u.traces, tr)
	}
	u.mu.Unlock()
	st.gs = nil
	st.cur = nil
	st.rollback()
	st.logging = false
}

func stripIDs(s string) string { return s }

func (st *State) panicText(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("<%T>", v)
		}
	}()
	i, ok := v.(Iface)
	if !ok {
		return st.render(v, nil, st.model)
	}
	if i.t == nil {
		return "nil"
	}
	if str, ok := i.v.(string); ok {
		return str
	}
	return st.render(i.v, i.t, st.model) + " (" + i.t.String() + ")"
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// initSubjects initialises the code under test in import order before anything runs; other packages are initialised when first used.
func (st *State) initSubjects(p *ssa.Package, seen map[*types.Package]bool) {
	if p == nil || st.inited[p] || seen[p.Pkg] {
		return
	}
	seen[p.Pkg] = true
	for _, im := range p.Pkg.Imports() {
		for _, s := range st.eng.subject {
			if im.Path() == s || strings.HasPrefix(im.Path(), s+"/") {
				st.initSubjects(st.eng.prog.Package(im), seen)
			}
		}
	}
	st.initPkg(p)
}
