package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// group is a set of harness files checked in one Go package.
type group struct {
	name    string
	repoDir string // directory under /repo the harness joins, "" for generated decorator modules
	pkgPath string
	pkgName string
	bubble  bool
}

var repoGroups = []group{
	{name: "generator", repoDir: "generator", pkgPath: "github.com/hexdigest/gowrap/generator", pkgName: "generator"},
	{name: "output", repoDir: "generator", pkgPath: "github.com/hexdigest/gowrap/generator", pkgName: "generator"},
	{name: "printer", repoDir: "printer", pkgPath: "github.com/hexdigest/gowrap/printer", pkgName: "printer"},
	{name: "loader", repoDir: "loader", pkgPath: "github.com/hexdigest/gowrap/loader", pkgName: "loader"},
	{name: "pkg", repoDir: "pkg", pkgPath: "github.com/hexdigest/gowrap/pkg", pkgName: "pkg"},
	{name: "root", repoDir: ".", pkgPath: "github.com/hexdigest/gowrap", pkgName: "gowrap"},
	{name: "cmd", repoDir: "cmd/gowrap", pkgPath: "github.com/hexdigest/gowrap/cmd/gowrap", pkgName: "main"},
}

type config struct {
	verif, repo, work string
	prop, tier        string
	only              string
	workers           int
	seed              int64
	verbose           bool
	noNative          bool
}

type result1 struct {
	unit  *Unit
	group string
}

type checker struct {
	left       int // entries still to be explored
	cfg        config
	res        []*Unit
	groups     map[string]*groupRun
	viols      []*Violation
	notes      []string
	known      map[string]string
	progs      int
	nativeT    int
	natBad     []string
	noEndTries int
	memLimit   bool // of native runs
	t0         time.Time
	samples    []any

	gowrap, gowrapErr string
	genViol           int
}

// groupRun is a loaded group.
type groupRun struct {
	g       group
	eng     *Engine
	entries []*ssa.Function
	srcs    []string // harness files
	dir     string   // where go commands run
	pattern string
	flags   []string
	overlay map[string]string
	goTool  string
	testBin string
	raceBin string
	binErr  string
	pkgDir  string
}

func main() {
	var cfg config
	flag.StringVar(&cfg.verif, "verif", "/verif", "")
	flag.StringVar(&cfg.repo, "repo", "/repo", "")
	flag.StringVar(&cfg.prop, "prop", "", "property id")
	flag.StringVar(&cfg.tier, "tier", os.Getenv("VERIF_TIER"), "")
	flag.StringVar(&cfg.only, "only", "", "regexp of entries")
	flag.IntVar(&cfg.workers, "workers", runtime.NumCPU(), "")
	flag.BoolVar(&cfg.verbose, "v", false, "")
	flag.BoolVar(&cfg.noNative, "nonative", false, "")
	flag.Parse()
	if cfg.tier != "thorough" {
		cfg.tier = "quick"
	}
	cfg.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		cfg.seed = s
	}
	var err error
	cfg.work, err = os.MkdirTemp("", "verif-work-")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(cfg.work)
		code = check(cfg)
	}()
	os.Exit(code)
}

var entryRE = regexp.MustCompile(`(?m)^func (Verif_([A-Z][0-9]+)_\w+)\(\)`)

func check(cfg config) int {
	c := &checker{cfg: cfg, groups: map[string]*groupRun{}, t0: time.Now()}
	c.loadKnown()
	code := 0
	found := false
	for _, g := range c.allGroups() {
		_, names := c.harnessFiles(g)
		c.left += len(names)
	}
	for _, g := range c.allGroups() {
		files, names := c.harnessFiles(g)
		if len(names) == 0 {
			continue
		}
		found = true
		gr, status := c.load(g, files, names)
		if status == loadBroken {
			fmt.Println("ERROR: harness for", g.name, "does not bind to the current tree")
			code = 2
			continue
		}
		if status == loadViolation {
			continue
		}
		c.groups[g.name] = gr
		c.explore(gr)
	}
	if !found {
		fmt.Println("ERROR: no harness entries for property", cfg.prop)
		return 2
	}
	c.native()
	return c.finish(code)
}

func (c *checker) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.notes = append(c.notes, s)
	fmt.Println("NOTE:", s)
}

// harnessFiles picks the files with entries of the property and the files without any entry.
func (c *checker) harnessFiles(g group) (files, names []string) {
	fs, _ := filepath.Glob(filepath.Join(c.cfg.verif, "harness", g.name, "*.go"))
	sort.Strings(fs)
	var only *regexp.Regexp
	if c.cfg.only != "" {
		only = regexp.MustCompile(c.cfg.only)
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		ms := entryRE.FindAllStringSubmatch(string(b), -1)
		mine := false
		for _, m := range ms {
			if m[2] == c.cfg.prop {
				mine = true
				if only == nil || only.MatchString(m[1]) {
					names = append(names, m[1])
				}
			}
		}
		if mine || len(ms) == 0 {
			files = append(files, f)
		}
	}
	return
}

const (
	loadOK = iota
	loadBroken
	loadViolation
)

func (c *checker) goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
}

func (c *checker) load(g group, files, names []string) (*groupRun, int) {
	gr := &groupRun{g: g, srcs: files, goTool: "go", overlay: map[string]string{}}
	if g.repoDir == "" {
		if st := c.prepareDeco(gr, files); st != loadOK {
			return nil, st
		}
	} else {
		mod, err := os.ReadFile(filepath.Join(c.cfg.repo, "go.mod"))
		if err != nil {
			fmt.Println("ERROR", err)
			return nil, loadBroken
		}
		mf := filepath.Join(c.cfg.work, "go.mod")
		os.WriteFile(mf, []byte(string(mod)+"\nrequire verif.local/zv v0.0.0\n\nreplace verif.local/zv => "+filepath.Join(c.cfg.verif, "rt")+"\n"), 0o644)
		sum, _ := os.ReadFile(filepath.Join(c.cfg.repo, "go.sum"))
		os.WriteFile(filepath.Join(c.cfg.work, "go.sum"), sum, 0o644)
		gr.dir = c.cfg.repo
		gr.pattern = "./" + g.repoDir
		gr.flags = []string{"-modfile=" + mf}
		gr.pkgDir = filepath.Join(c.cfg.repo, g.repoDir)
		for _, f := range files {
			gr.overlay[filepath.Join(gr.pkgDir, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	ov := map[string][]byte{}
	for dst, src := range gr.overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			fmt.Println("ERROR", err)
			return nil, loadBroken
		}
		ov[dst] = b
	}
	eng, pkgs, err := loadEngine(gr.dir, []string{gr.pattern}, ov, gr.flags, c.goEnv())
	if err != nil {
		fmt.Println("LOAD:", err)
		return nil, loadBroken
	}
	eng.subject = c.subjects(g)
	gr.eng = eng
	eng.collectReplacements()
	var sp *ssa.Package
	for _, p := range pkgs {
		sp = eng.prog.Package(p.Types)
	}
	if sp == nil {
		return nil, loadBroken
	}
	sp.Build()
	for _, n := range names {
		f := sp.Func(n)
		if f == nil {
			fmt.Println("ERROR: entry", n, "not found")
			return nil, loadBroken
		}
		gr.entries = append(gr.entries, f)
	}
	return gr, loadOK
}

func (c *checker) subjects(g group) []string {
	if g.repoDir != "" {
		return []string{"github.com/hexdigest/gowrap"}
	}
	return []string{"deco.local"}
}

// collectReplacements finds "//verif:replace NAME" comments over harness and model functions.
func (e *Engine) collectReplacements() {
	for _, p := range e.prog.AllPackages() {
		path := p.Pkg.Path()
		mine := strings.HasPrefix(path, "verif.local/")
		for name, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || f.Syntax() == nil {
				continue
			}
			if !mine && !strings.HasPrefix(filepath.Base(e.fset.Position(f.Pos()).Filename), "zz_verif") && !strings.HasPrefix(name, "verifModel") {
				continue
			}
			d, ok := f.Syntax().(*ast.FuncDecl)
			if !ok || d.Doc == nil {
				continue
			}
			for _, l := range d.Doc.List {
				if s, ok := strings.CutPrefix(l.Text, "//verif:replace "); ok {
					e.replace[strings.TrimSpace(s)] = f
				}
			}
		}
	}
}

type opts map[string]int

func entryOpts(f *ssa.Function) (o opts, reach []string) {
	o = opts{}
	d, ok := f.Syntax().(*ast.FuncDecl)
	if !ok || d.Doc == nil {
		return
	}
	for _, l := range d.Doc.List {
		if s, ok := strings.CutPrefix(l.Text, "//verif:opt "); ok {
			for _, kv := range strings.Fields(s) {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				o[k] = n
			}
		}
		if s, ok := strings.CutPrefix(l.Text, "//verif:reach "); ok {
			for _, r := range strings.Split(s, ",") {
				reach = append(reach, strings.TrimSpace(r))
			}
		}
	}
	return
}

func (o opts) get(tier, k string, def, defThorough int) int {
	if tier == "thorough" {
		if v, ok := o[k+"T"]; ok {
			return v
		}
		if v, ok := o[k]; ok && defThorough == def {
			return v
		}
		return defThorough
	}
	if v, ok := o[k]; ok {
		return v
	}
	return def
}

// allowance is the time the next entry may take: the given one, more when the check as a whole is ahead, less when it is behind.
func (c *checker) allowance(d time.Duration) time.Duration {
	if c.left > 0 {
		c.left--
	}
	if c.cfg.tier == "thorough" {
		return d
	}
	const total, each = 620 * time.Second, 40 * time.Second
	rest := total - time.Since(c.t0)
	n := time.Duration(c.left)
	return max(rest-n*each, min(d, rest/(n+1)), 15*time.Second)
}

func (c *checker) explore(gr *groupRun) {
	thorough := c.cfg.tier == "thorough"
	pool := newPool(gr.eng, c.cfg.workers, thorough, 20000, c.cfg.seed)
	defer pool.close()
	for _, f := range gr.entries {
		o, reach := entryOpts(f)
		u := &Unit{eng: gr.eng, entry: f, name: gr.g.name + "/" + f.Name(), prop: c.cfg.prop, tier: c.cfg.tier, group: gr.g.name}
		t := c.cfg.tier
		u.maxSteps = o.get(t, "steps", 3_000_000, 12_000_000)
		u.mapOrders = o.get(t, "maporders", 2, 3)
		u.preemptBound = o.get(t, "preempt", 2, 3)
		u.maxAdvances = o.get(t, "advances", 64, 64)
		u.maxGoroutines = o.get(t, "goroutines", 24, 24)
		u.maxPaths = o.get(t, "paths", 400_000, 4_000_000)
		u.deadline = time.Now().Add(c.allowance(time.Duration(o.get(t, "time", 150, 600)) * time.Second))
		pool.run(u)
		c.res = append(c.res, u)
		c.viols = append(c.viols, u.viols...)
		var miss []string
		if len(u.viols) == 0 {
			for _, r := range reach {
				if u.reached[r] == 0 {
					miss = append(miss, r)
				}
			}
		}
		fmt.Printf("ENTRY %-58s paths=%d pruned=%d steps=%d asserts=%d folded=%d discharged=%d queries=%d solver=%.1fs wall=%.1fs viol=%d\n",
			u.name, u.paths, u.pruned, u.steps, u.asserts, u.folded, u.discharged, u.stats.Queries, u.stats.Time.Seconds(), u.wall.Seconds(), len(u.viols))
		for _, k := range sortedKeys(u.incomplete) {
			fmt.Printf("  INCOMPLETE %s (x%d)\n", k, u.incomplete[k])
		}
		if len(miss) > 0 {
			c.note("%s: labels never reached: %s", u.name, strings.Join(miss, ", "))
		}
		if u.paths == 0 && len(u.viols) == 0 {
			c.note("%s: no complete path", u.name)
		}
		if c.cfg.verbose {
			for _, v := range u.viols {
				fmt.Printf("  VIOL %s known=%q at %s inputs=%v obs=%v\n", v.Msg, v.Known, v.Where, v.Inputs, v.Sched)
			}
			for k, n := range u.assertMsgs {
				fmt.Printf("  ASSERT x%d %s\n", n, k)
			}
			fmt.Printf("  REACHED %v funcs=%d\n", u.reached, len(u.funcs))
		}
	}
}

// ---- known findings ----

func (c *checker) loadKnown() {
	c.known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.cfg.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> id=<finding> <text>
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+c.cfg.prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		c.known[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
}

func (c *checker) finish(code int) int {
	dir := filepath.Join(c.cfg.verif, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	old, _ := filepath.Glob(filepath.Join(dir, "replay", c.cfg.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	n := 0
	seenKnown := map[string]bool{}
	var listed []string
	for _, v := range c.viols {
		if v.Known != "" {
			if txt, ok := c.known[v.Known]; ok {
				if v.Confirm && !seenKnown[v.Known] {
					seenKnown[v.Known] = true
					listed = append(listed, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", c.cfg.prop, v.Known, txt))
				}
				continue
			}
		}
		if !v.Confirm {
			continue
		}
		n++
		p := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", c.cfg.prop, n))
		b, _ := json.MarshalIndent(map[string]any{"property": c.cfg.prop, "unit": v.Unit, "entry": v.Entry, "tier": c.cfg.tier, "message": v.Msg,
			"where": v.Where, "inputs": v.Inputs, "observed": v.Sched, "native": v.Native,
			"replay_cmd": fmt.Sprintf("bash /verif/check.sh %s", c.cfg.prop)}, "", " ")
		os.WriteFile(p, b, 0o644)
		v.Replay = p
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.cfg.prop, p)
		fmt.Printf("  %s: %s\n  at %s\n  native: %s\n", v.Unit, v.Msg, v.Where, v.Native)
	}
	for _, l := range listed {
		fmt.Println(l)
	}
	n += c.genViol
	c.writeEvidence(n)
	if n > 0 {
		return 1
	}
	return code
}

func (c *checker) writeEvidence(nviol int) {
	paths, pruned, steps, branches, asserts, folded, disch := 0, 0, 0, 0, 0, 0, 0
	var st SolverStats
	funcs := map[string]bool{}
	inc := map[string]int{}
	var units []any
	var samples []any
	tv := c.nativeT
	for _, u := range c.res {
		paths += u.paths
		pruned += u.pruned
		steps += u.steps
		branches += u.branches
		asserts += u.asserts
		folded += u.folded
		disch += u.discharged
		st.add(&u.stats)
		for f := range u.funcs {
			funcs[f] = true
		}
		for k, n := range u.incomplete {
			inc[u.entry.Name()+": "+k] += n
		}
		units = append(units, map[string]any{"entry": u.name, "paths": u.paths, "pruned_paths": u.pruned, "instructions": u.steps,
			"branch_decisions": u.branches, "assertion_checks": u.asserts, "reached": u.reached, "bounds": map[string]any{"max_steps": u.maxSteps,
				"preemptions": u.preemptBound, "map_orders": u.mapOrders, "timer_events": u.maxAdvances, "goroutines": u.maxGoroutines}, "concurrent": u.concurrent,
			"asserted": sortedKeys(u.assertMsgs), "wall_s": u.wall.Seconds()})
		for i, t := range u.traces {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"entry": u.name, "inputs": t.Inputs, "observed": t.Obs})
			}
		}
	}
	var fs []string
	for f := range funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": c.cfg.prop, "tier": c.cfg.tier, "seed": c.cfg.seed, "level": "model_checking",
		"wall_s": time.Since(c.t0).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": paths + pruned + branches, "transitions": steps, "traces_validated_against_impl": tv, "samples": samples,
			"symbolic_paths": paths, "pruned_paths": pruned, "branch_decisions": branches,
			"assertions_examined": asserts, "assertions_constant_true": folded, "assertions_discharged_by_solver": disch,
			"solver": map[string]any{"name": "z3", "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "cache_hits": st.CacheHits,
				"byte_domain_decisions": st.DomainDec, "time_s": st.Time.Seconds(), "crosscheck_agree": st.CrossOK, "crosscheck_disagree": st.CrossBad},
			"functions_encoded": fs, "units": units, "incomplete": inc, "notes": c.notes, "native_disagreements": c.natBad,
			"exhaustive": len(inc) == 0,
		},
		"assumptions": []string{
			"the Go SSA form of the current tree, built by golang.org/x/tools/go/ssa, stands for the compiled program; the engine's reading of it is cross-checked by native replay of sampled paths",
			"inputs beyond the stated sizes, more preemptions and more timer events than the stated bounds are outside the claim",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.cfg.verif, "evidence", c.cfg.prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("SUMMARY property=%s tier=%s paths=%d instructions=%d assertions=%d queries=%d solver_s=%.1f traces_validated=%d violations=%d incomplete=%d wall=%.1fs\n",
		c.cfg.prop, c.cfg.tier, paths, steps, asserts, st.Queries, st.Time.Seconds(), tv, nviol, len(inc), time.Since(c.t0).Seconds())
}
