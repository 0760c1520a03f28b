package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SolverStats counts what the SMT back end was asked.
type SolverStats struct {
	Queries   int
	Sat       int
	Unsat     int
	Unknown   int
	CacheHits int
	DomainDec int // decisions made by the exact single-byte domain procedure
	ModelHits int // feasibility shown by evaluating the current model
	Time      time.Duration
	CrossOK   int
	CrossBad  int
}

func (a *SolverStats) add(b *SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.CacheHits += b.CacheHits
	a.DomainDec += b.DomainDec
	a.ModelHits += b.ModelHits
	a.Time += b.Time
	a.CrossOK += b.CrossOK
	a.CrossBad += b.CrossBad
}

type result int

const (
	resUnknown result = iota
	resSat
	resUnsat
)

// Solver is one SMT-LIB2 process fed over a pipe.
type Solver struct {
	name    string
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inw     io.WriteCloser
	out     *bufio.Reader
	stats   SolverStats
	cache   map[string]cacheEnt
	defined map[*Term]bool
	nq      int
	timeout int // ms per query
}

type cacheEnt struct {
	r result
	m Model
}

func newSolver(argv []string, timeoutMS int) *Solver {
	s := &Solver{name: argv[0], argv: argv, cache: map[string]cacheEnt{}, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.argv, err))
	}
	s.inw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[*Term]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defined[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 && f.t.a[f.i] != nil {
			c := f.t.a[f.i]
			f.i++
			st = append(st, fr{c, 0})
			continue
		}
		if f.t.op == OVar {
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", f.t.name, sortName(f.t.w))
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", f.t.id, sortName(f.t.w), f.t.body())
		}
		s.defined[f.t] = true
		st = st[:len(st)-1]
	}
}

// check decides the conjunction of cs. The model covers the variables of cs.
func (s *Solver) check(cs []*Term, wantModel bool) (result, Model) {
	var lits []*Term
	for _, c := range cs {
		if c.isFalse() {
			return resUnsat, nil
		}
		if !c.isTrue() {
			lits = append(lits, c)
		}
	}
	if len(lits) == 0 {
		return resSat, Model{}
	}
	sortTerms(lits)
	var kb strings.Builder
	var prev *Term
	n := 0
	for _, l := range lits {
		if l == prev {
			continue
		}
		prev = l
		lits[n] = l
		n++
		kb.WriteString(strconv.FormatUint(uint64(l.id), 36))
		kb.WriteByte(',')
	}
	lits = lits[:n]
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.stats.CacheHits++
		return e.r, e.m
	}
	r, m := s.query(lits)
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) query(lits []*Term) (result, Model) {
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	s.nq++
	if s.nq%20000 == 0 { // keep the process small
		s.close()
		s.start()
	}
	var vars []*Term
	for _, l := range lits {
		s.define(l)
		vars = mergeVars(vars, l.vars)
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, l := range lits {
		fmt.Fprintf(s.in, "(assert %s)\n", l.ref())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.close()
		s.start()
		s.stats.Unknown++
		return resUnknown, nil
	}
	switch line {
	case "unsat":
		s.stats.Unsat++
		fmt.Fprintf(s.in, "(pop 1)\n")
		return resUnsat, nil
	case "sat":
		s.stats.Sat++
	default:
		s.stats.Unknown++
		if strings.HasPrefix(line, "(error") {
			fmt.Println("SOLVER-ERROR:", line)
			s.close()
			s.start()
			return resUnknown, nil
		}
		fmt.Fprintf(s.in, "(pop 1)\n")
		return resUnknown, nil
	}
	m := Model{}
	if len(vars) > 0 {
		fmt.Fprintf(s.in, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(s.in, "%s ", v.ref())
		}
		fmt.Fprintf(s.in, "))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			s.close()
			s.start()
			return resUnknown, nil
		}
		parseModel(txt, vars, m)
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return resSat, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && c != '(' {
			continue
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseModel reads "((|v| #x00) ...)" in the order the variables were asked.
func parseModel(txt string, vars []*Term, m Model) {
	toks := tokenizeSexp(txt)
	// toks: ( ( name val ) ( name val ) ... ) with val possibly "(_ bv5 8)"
	i := 1
	for _, v := range vars {
		for i < len(toks) && toks[i] != "(" {
			i++
		}
		i += 2 // skip "(" and name
		if i >= len(toks) {
			return
		}
		t := toks[i]
		switch {
		case t == "(": // (_ bvN w)
			n, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
			m[v] = n
			i += 5
		case t == "true":
			m[v] = 1
			i++
		case t == "false":
			m[v] = 0
			i++
		case strings.HasPrefix(t, "#x"):
			n, _ := strconv.ParseUint(t[2:], 16, 64)
			m[v] = n
			i++
		case strings.HasPrefix(t, "#b"):
			n, _ := strconv.ParseUint(t[2:], 2, 64)
			m[v] = n
			i++
		}
		i++ // ")"
	}
}

func tokenizeSexp(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			r = append(r, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}
