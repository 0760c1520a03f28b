package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Decorator groups: harness/deco_<family> holds interface declarations, harness entries and gen.txt, which lists the
// gowrap invocations. gowrap is built from the tree under test and generates the decorators from the tree's templates
// into a scratch module; the harness and the generated code are then one package.

func (c *checker) allGroups() []group {
	gs := append([]group(nil), repoGroups...)
	ds, _ := filepath.Glob(filepath.Join(c.cfg.verif, "harness", "deco_*"))
	sort.Strings(ds)
	for _, d := range ds {
		n := filepath.Base(d)
		fam := strings.TrimPrefix(n, "deco_")
		gs = append(gs, group{name: n, pkgPath: "deco.local/" + fam, pkgName: fam, bubble: true})
	}
	return gs
}

const bubbleGo = "/usr/local/bin/go1.25"

// genViolation reports that gowrap did not produce a working decorator.
func (c *checker) genViolation(g group, what, detail string) int {
	if len(detail) > 4000 {
		detail = detail[:4000]
	}
	dir := filepath.Join(c.cfg.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-gen-%s.json", c.cfg.prop, g.name))
	b, _ := json.MarshalIndent(map[string]any{"property": c.cfg.prop, "unit": g.name, "message": what, "detail": detail}, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n%s\n", c.cfg.prop, p, g.name, what, detail)
	c.genViol++
	return loadViolation
}

func (c *checker) gowrapBin() (string, string) {
	if c.gowrap != "" || c.gowrapErr != "" {
		return c.gowrap, c.gowrapErr
	}
	bin := filepath.Join(c.cfg.work, "gowrap")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/gowrap")
	cmd.Dir = c.cfg.repo
	cmd.Env = append(c.goEnv(), "GOFLAGS=-mod=readonly")
	if out, err := cmd.CombinedOutput(); err != nil {
		c.gowrapErr = fmt.Sprintf("%v\n%s", err, out)
		return "", c.gowrapErr
	}
	c.gowrap = bin
	return bin, ""
}

func (c *checker) prepareDeco(gr *groupRun, files []string) int {
	hd := filepath.Join(c.cfg.verif, "harness", gr.g.name)
	fam := gr.g.pkgName
	root := filepath.Join(c.cfg.work, "m_"+fam)
	pd := filepath.Join(root, fam)
	if err := os.MkdirAll(pd, 0o755); err != nil {
		fmt.Println("ERROR", err)
		return loadBroken
	}
	// module file with every stub
	var mod strings.Builder
	fmt.Fprintf(&mod, "module deco.local\n\ngo 1.24.0\n\nrequire verif.local/zv v0.0.0\nreplace verif.local/zv => %s\n", filepath.Join(c.cfg.verif, "rt"))
	stubs, _ := filepath.Glob(filepath.Join(c.cfg.verif, "rt", "stubs", "*", "go.mod"))
	for _, s := range stubs {
		b, _ := os.ReadFile(s)
		f := strings.Fields(string(b))
		if len(f) < 2 || f[0] != "module" {
			continue
		}
		ver := "v0.0.0"
		if strings.HasSuffix(f[1], "/v2") {
			ver = "v2.0.0"
		}
		fmt.Fprintf(&mod, "require %s %s\nreplace %s => %s\n", f[1], ver, f[1], filepath.Dir(s))
	}
	os.WriteFile(filepath.Join(root, "go.mod"), []byte(mod.String()), 0o644)
	if b, err := os.ReadFile(filepath.Join(c.cfg.verif, "rt", "go.sum")); err == nil {
		os.WriteFile(filepath.Join(root, "go.sum"), b, 0o644)
	}
	// packages of interface declarations
	subs, _ := filepath.Glob(filepath.Join(hd, "*", "*.go"))
	shared := filepath.Join(c.cfg.verif, "harness", "shared")
	more, _ := filepath.Glob(filepath.Join(shared, "*", "*.go"))
	for _, s := range append(more, subs...) {
		rel, err := filepath.Rel(hd, s)
		if err != nil || strings.HasPrefix(rel, "..") {
			rel, _ = filepath.Rel(shared, s)
		}
		dst := filepath.Join(root, rel)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		b, _ := os.ReadFile(s)
		os.WriteFile(dst, b, 0o644)
	}
	// declarations of the package itself must be there before gowrap runs, harness code after it
	os.WriteFile(filepath.Join(pd, "doc.go"), []byte("package "+fam+"\n"), 0o644)
	var late []string
	for _, f := range files {
		if strings.HasPrefix(filepath.Base(f), "iface") {
			b, err := os.ReadFile(f)
			if err != nil {
				return loadBroken
			}
			os.WriteFile(filepath.Join(pd, filepath.Base(f)), b, 0o644)
		} else {
			late = append(late, f)
		}
	}
	bin, msg := c.gowrapBin()
	if bin == "" {
		fmt.Println("ERROR: gowrap does not build:", msg)
		return loadBroken
	}
	txt, err := os.ReadFile(filepath.Join(hd, "gen.txt"))
	if err != nil {
		fmt.Println("ERROR", err)
		return loadBroken
	}
	type res struct {
		line, out string
		err       error
		dst, tmp  string
		src       []byte
	}
	var rs []*res
	for i, l := range strings.Split(string(txt), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		rs = append(rs, &res{line: l, tmp: fmt.Sprintf("zz_gen_%02d.go", i)})
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, c.cfg.workers)
	for _, r := range rs {
		// the command line names its output by position; every invocation sees only the declarations
		f := strings.Fields(strings.ReplaceAll(r.line, "{repo}", c.cfg.repo))
		args := append([]string{"gen"}, f[1:]...)
		// generate in a private copy so that concurrent runs do not see each other's output
		priv := filepath.Join(c.cfg.work, "g_"+fam+"_"+strings.TrimSuffix(r.tmp, ".go"))
		if err := copyTree(root, priv); err != nil {
			fmt.Println("ERROR", err)
			return loadBroken
		}
		r.dst = filepath.Join(root, f[0])
		wg.Add(1)
		sem <- struct{}{}
		go func(r *res) {
			defer wg.Done()
			defer func() { <-sem }()
			out := filepath.Join(priv, f[0])
			os.MkdirAll(filepath.Dir(out), 0o755)
			rel, _ := filepath.Rel(filepath.Join(priv, fam), out)
			args = append(args, "-o", "./"+rel)
			for try := 0; try < 2; try++ { // the go tool may fail for reasons of its own
				os.Remove(out)
				cmd := exec.Command(bin, args...)
				cmd.Dir = filepath.Join(priv, fam)
				cmd.Env = c.goEnv()
				var b bytes.Buffer
				cmd.Stdout, cmd.Stderr = &b, &b
				r.err = cmd.Run()
				r.out = b.String()
				if r.err == nil {
					r.src, r.err = os.ReadFile(out)
				}
				if r.err == nil {
					break
				}
			}
		}(r)
	}
	wg.Wait()
	for _, r := range rs {
		if r.err != nil {
			return c.genViolation(gr.g, "gowrap failed to generate a decorator", fmt.Sprintf("gowrap gen %s\n%v\n%s", r.line, r.err, r.out))
		}
	}
	// only now, the private copies are made while others generate
	for _, r := range rs {
		os.MkdirAll(filepath.Dir(r.dst), 0o755)
		if err := os.WriteFile(r.dst, r.src, 0o644); err != nil {
			fmt.Println("ERROR", err)
			return loadBroken
		}
	}
	for _, f := range late {
		b, err := os.ReadFile(f)
		if err != nil {
			return loadBroken
		}
		os.WriteFile(filepath.Join(pd, "zz_verif_"+filepath.Base(f)), b, 0o644)
	}
	gr.dir = root
	gr.pattern = "./" + fam
	gr.pkgDir = pd
	if _, err := os.Stat(bubbleGo); err == nil {
		gr.goTool = bubbleGo
	} else {
		gr.g.bubble = false
	}
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = root
	cmd.Env = c.goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		if !strings.Contains(string(out), ".go:") {
			fmt.Printf("ERROR: go build: %v\n%s\n", err, out)
			return loadBroken
		}
		return c.genViolation(gr.g, "the generated decorators do not compile with their interfaces", string(out))
	}
	return loadOK
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
}
