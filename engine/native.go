package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// The native side compiles the same harness with the Go compiler and replays recorded inputs.

const testTmpl = `package %s

import (
	"testing"
%s
	"verif.local/zv/v"
)

func TestZZVerif(t *testing.T) {
	v.Main(t, map[string]func(){
%s	}, %s)
}
`

func (c *checker) buildNative(gr *groupRun, race bool) (string, string) {
	var tbl strings.Builder
	for _, f := range gr.entries {
		fmt.Fprintf(&tbl, "\t\t%q: %s,\n", f.Name(), f.Name())
	}
	imp, bub := "", "nil"
	if gr.g.bubble {
		imp = "\t\"testing/synctest\"\n"
		bub = "func(t *testing.T, f func()) { v.WaitHook = synctest.Wait; synctest.Test(t, func(t *testing.T) { f() }) }"
	}
	src := fmt.Sprintf(testTmpl, gr.g.pkgName, imp, tbl.String(), bub)
	tf := filepath.Join(c.cfg.work, gr.g.name+"_run_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	ov := map[string]string{filepath.Join(gr.pkgDir, "zz_verif_run_test.go"): tf}
	for k, v := range gr.overlay {
		ov[k] = v
	}
	// the package's own tests are not part of the run
	ents, _ := os.ReadDir(gr.pkgDir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(gr.pkgDir, e.Name())] = ""
		}
	}
	of := filepath.Join(c.cfg.work, gr.g.name+"_overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(c.cfg.work, gr.g.name+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if race {
		bin += ".race"
		args = []string{"test", "-c", "-race", "-vet=off", "-overlay", of, "-o", bin}
	}
	args = append(args, gr.flags...)
	args = append(args, gr.pattern)
	cmd := exec.Command(gr.goTool, args...)
	cmd.Dir = gr.dir
	cmd.Env = c.goEnvFor(gr)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Sprintf("%v: %s", err, out)
	}
	return bin, ""
}

func (c *checker) goEnvFor(gr *groupRun) []string {
	env := c.goEnv()
	if gr.goTool != "go" {
		var e []string
		for _, kv := range env {
			if !strings.HasPrefix(kv, "GOROOT=") {
				e = append(e, kv)
			}
		}
		env = e
	}
	return env
}

type natOut struct {
	obs    []string
	failed string
	panic  string
	assume bool
	skip   bool
	noin   string
	done   bool
	hung   bool
	race   bool
	raw    string
}

func (c *checker) runNative(gr *groupRun, bin string, entry string, in []InputVal, timeout time.Duration) natOut {
	f, err := os.CreateTemp(c.cfg.work, "run-*.json")
	if err != nil {
		return natOut{raw: err.Error()}
	}
	if in == nil {
		in = []InputVal{}
	}
	json.NewEncoder(f).Encode(map[string]any{"entry": entry, "inputs": in, "tier": c.cfg.tier})
	f.Close()
	defer os.Remove(f.Name())
	scratch, _ := os.MkdirTemp(c.cfg.work, "cwd-")
	defer os.RemoveAll(scratch)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=^TestZZVerif$", "-test.count=1", "-test.timeout=60s")
	cmd.Dir = scratch
	cmd.Env = append(c.goEnvFor(gr), "VERIF_RUN="+f.Name(), "VERIF_SCRATCH="+scratch, "GORACE=halt_on_error=1 exitcode=66")
	if c.memLimit {
		cmd.Env = append(cmd.Env, "VERIF_MEMLIMIT=1")
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	rerr := cmd.Run()
	var o natOut
	o.raw = so.String() + se.String()
	if ctx.Err() != nil {
		o.hung = true
	}
	for _, l := range strings.Split(so.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "VERIF-OBS "):
			o.obs = append(o.obs, strings.TrimPrefix(l, "VERIF-OBS "))
		case strings.HasPrefix(l, "VERIF-ASSERT-FAILED "):
			o.failed = strings.TrimPrefix(l, "VERIF-ASSERT-FAILED ")
		case strings.HasPrefix(l, "VERIF-PANIC "):
			o.panic = strings.TrimPrefix(l, "VERIF-PANIC ")
		case l == "VERIF-ASSUME":
			o.assume = true
		case l == "VERIF-NATIVESKIP":
			o.skip = true
		case strings.HasPrefix(l, "VERIF-NOINPUT "):
			o.noin = l
		case l == "VERIF-DONE":
			o.done = true
		}
	}
	if strings.Contains(se.String(), "WARNING: DATA RACE") || strings.Contains(so.String(), "WARNING: DATA RACE") {
		o.race = true
	}
	all := o.raw
	if strings.Contains(all, "deadlock: ") || strings.Contains(all, "all goroutines are asleep") {
		o.hung = true
	} else if rerr != nil && o.panic == "" && strings.Contains(all, "panic: ") && !o.hung {
		i := strings.Index(all, "panic: ")
		e := strings.IndexByte(all[i:], '\n')
		if e < 0 {
			e = len(all) - i
		}
		o.panic = all[i+7 : i+e]
	} else if rerr != nil && strings.Contains(all, "fatal error: ") {
		o.panic = "fatal error"
	}
	return o
}

func (c *checker) native() {
	if c.cfg.noNative {
		for _, v := range c.viols {
			v.Confirm = true
			v.Native = "not replayed"
		}
		return
	}
	var names []string
	for n := range c.groups {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		gr := c.groups[n]
		bin, msg := c.buildNative(gr, false)
		if bin == "" {
			c.note("native build of %s failed: %s", n, msg)
			for _, v := range c.viols {
				if strings.HasPrefix(v.Unit, n+"/") {
					v.Confirm = true
					v.Native = "native build failed; counterexample not replayed"
				}
			}
			continue
		}
		gr.testBin = bin
		type job struct {
			u *Unit
			t *TraceRun
		}
		var jobs []job
		for _, u := range c.res {
			if u.group != n {
				continue
			}
			for _, t := range u.traces {
				jobs = append(jobs, job{u, t})
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan struct{}, c.cfg.workers)
		for _, j := range jobs {
			wg.Add(1)
			sem <- struct{}{}
			go func(j job) {
				defer wg.Done()
				defer func() { <-sem }()
				o := c.runNative(gr, bin, j.t.Entry, j.t.Inputs, 40*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if o.skip {
					return
				}
				if o.done && eqStrs(o.obs, j.t.Obs) {
					c.nativeT++
					return
				}
				why := fmt.Sprintf("%s inputs=%v engine=%v native=%v done=%v failed=%q panic=%q assume=%v hung=%v %s", j.u.name, j.t.Inputs, j.t.Obs, o.obs, o.done, o.failed, o.panic, o.assume, o.hung, o.noin)
				if len(why) > 1500 {
					why = why[:1500]
				}
				if len(c.natBad) < 20 {
					c.natBad = append(c.natBad, why)
				}
				if len(c.natBad) <= 5 {
					fmt.Println("TRACE-MISMATCH", why)
					if c.cfg.verbose {
						fmt.Println(o.raw)
					}
				}
			}(j)
		}
		wg.Wait()
		for _, v := range c.viols {
			if strings.HasPrefix(v.Unit, n+"/") {
				c.confirm(gr, v)
			}
		}
	}
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// confirm replays a counterexample against the compiled code.
func (c *checker) confirm(gr *groupRun, v *Violation) {
	if strings.HasPrefix(v.Msg, noEnd) {
		c.confirmNoEnd(gr, v)
		return
	}
	if v.noNative {
		v.Confirm = true
		v.Native = "not replayable natively (environment modelled)"
		return
	}
	bin := gr.testBin
	isRace := strings.HasPrefix(v.Msg, "data race")
	if isRace {
		if gr.raceBin == "" && gr.binErr == "" {
			gr.raceBin, gr.binErr = c.buildNative(gr, true)
		}
		if gr.raceBin == "" {
			v.Confirm, v.Native = true, "race build failed; reported from the engine's happens-before analysis"
			return
		}
		bin = gr.raceBin
	}
	tries := 1
	if v.concurrent || isRace {
		tries = 40
	}
	last := ""
	for i := 0; i < tries; i++ {
		o := c.runNative(gr, bin, v.Entry, v.Inputs, 30*time.Second)
		ok := false
		switch {
		case o.skip:
			v.Confirm, v.Native = true, "not replayable natively (environment modelled)"
			return
		case isRace:
			ok = o.race
		case strings.HasPrefix(v.Msg, "panic"):
			ok = o.panic != ""
		case strings.HasPrefix(v.Msg, "deadlock"):
			ok = o.hung
		default:
			ok = o.failed != ""
		}
		last = fmt.Sprintf("failed=%q panic=%q hung=%v race=%v done=%v", o.failed, o.panic, o.hung, o.race, o.done)
		if ok {
			v.Confirm = true
			v.Native = fmt.Sprintf("reproduced on run %d (%s)", i+1, last)
			return
		}
		if c.cfg.verbose && i == 0 {
			fmt.Println("  native:", o.raw)
		}
	}
	if v.concurrent || isRace {
		v.Confirm = true
		v.Native = fmt.Sprintf("schedule-dependent: not hit in %d native runs (%s); the engine's schedule is the counterexample", tries, last)
		return
	}
	v.Native = "NOT reproduced: " + last
	c.note("counterexample of %s (%s) did not reproduce natively: %s", v.Unit, v.Msg, last)
}

// confirmNoEnd tells a path that is too long for the engine from one that never ends.
func (c *checker) confirmNoEnd(gr *groupRun, v *Violation) {
	if v.noNative || c.noEndTries >= 3 {
		return
	}
	c.noEndTries++
	c.memLimit = true
	o := c.runNative(gr, gr.testBin, v.Entry, v.Inputs, 25*time.Second)
	c.memLimit = false
	if !o.skip && (o.hung || o.panic == "fatal error") {
		v.Confirm = true
		v.Native = fmt.Sprintf("the compiled program does not end either (panic=%q hung=%v)", o.panic, o.hung)
		c.noEndTries = 3
	}
}
