package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one z3 process with incremental push/pop.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     int
	buf     strings.Builder
	timeout int // ms, as last set
	// stats
	Queries, Sat, Unsat, Unknown int
	Fallbacks                    int
	Time                         time.Duration
	bin                          string
}

var genCounter int

func solverBin() string {
	if _, err := exec.LookPath("z3-new"); err != nil {
		return "z3"
	}
	return "z3-new"
}

func NewSolver() *Solver {
	s := &Solver{timeout: quickTimeoutMs, bin: solverBin()}
	s.start()
	return s
}

func (s *Solver) resetStats() {
	s.Queries, s.Sat, s.Unsat, s.Unknown, s.Fallbacks, s.Time = 0, 0, 0, 0, 0, 0
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Restart() { s.Close(); s.start() }

// define emits definitions for t's DAG (iteratively for depth safety).
func (s *Solver) define(sb *strings.Builder, t *Term, gen int) {
	if t.defd == gen || t.op == OConst || t.op == OFConst {
		return
	}
	for _, a := range t.args {
		s.define(sb, a, gen)
	}
	t.defd = gen
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, sortStr(t))
		return
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t), body(t))
}

type Verdict int

const (
	VUnknown Verdict = iota
	VSat
	VUnsat
)

// Check decides the conjunction; on sat returns values for vars.
func (s *Solver) Check(conj []*Term, vars []*Term, ms int) (Verdict, Model) {
	if ms != s.timeout {
		s.timeout = ms
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", ms)
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for _, c := range conj {
		s.define(&s.buf, c, s.gen)
	}
	for _, v := range vars {
		s.define(&s.buf, v, s.gen)
	}
	s.buf.WriteString("(push)\n")
	for _, c := range conj {
		fmt.Fprintf(&s.buf, "(assert %s)\n", ref(c))
	}
	for _, v := range vars {
		if v.op == OVar && v.tab != nil {
			fmt.Fprintf(&s.buf, "(assert (bvule %s %s))(assert (bvuge %s %s))\n", ref(v), constStr(v.tab[1], v.w), ref(v), constStr(v.tab[0], v.w))
		}
	}
	s.buf.WriteString("(check-sat)\n")
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	r := s.line()
	switch r {
	case "sat":
		s.Sat++
		m := Model{}
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(ref(v))
				s.buf.WriteByte(' ')
			}
			s.buf.WriteString("))\n(pop)\n")
			io.WriteString(s.in, s.buf.String())
			s.buf.Reset()
			txt := s.sexp()
			parseValues(txt, m)
			return VSat, m
		}
		s.buf.WriteString("(pop)\n")
		return VSat, m
	case "unsat":
		s.Unsat++
		s.buf.WriteString("(pop)\n")
		return VUnsat, nil
	}
	return VUnknown, nil // unknown or error: the caller restarts the solver
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "eof"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) sexp() string {
	var sb strings.Builder
	depth, inq, started := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func parseValues(txt string, m Model) {
	// ((|a#0| #x00) (|b| #b0) (|c| true))
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name := txt[i : i+k]
		i += k + 1
		e := strings.IndexByte(txt[i:], ')')
		v := strings.TrimSpace(txt[i : i+e])
		i += e
		var u uint64
		switch {
		case strings.HasPrefix(v, "#x"):
			fmt.Sscanf(v[2:], "%x", &u)
		case strings.HasPrefix(v, "#b"):
			fmt.Sscanf(v[2:], "%b", &u)
		case v == "true":
			u = 1
		}
		m[name] = u
	}
}

// Script renders a standalone SMT-LIB2 script.
func Script(conj []*Term, vars []*Term, logic string, model bool) string {
	var sb strings.Builder
	if logic != "" {
		fmt.Fprintf(&sb, "(set-logic %s)\n", logic)
	}
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if seen[t] || t.op == OConst || t.op == OFConst {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			def(a)
		}
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", t.name, sortStr(t))
			if t.tab != nil {
				fmt.Fprintf(&sb, "(assert (bvule %s %s))(assert (bvuge %s %s))\n", ref(t), constStr(t.tab[1], t.w), ref(t), constStr(t.tab[0], t.w))
			}
			return
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t), body(t))
	}
	for _, c := range conj {
		def(c)
	}
	for _, v := range vars {
		def(v)
	}
	for _, c := range conj {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(c))
	}
	sb.WriteString("(check-sat)\n")
	if model && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(ref(v) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func runScript(bin string, args []string, script string) (Verdict, Model) {
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	txt := string(out)
	if strings.Contains(txt, "(error") && !strings.HasPrefix(strings.TrimSpace(txt), "unsat") {
		return VUnknown, nil
	}
	l := strings.TrimSpace(txt)
	switch {
	case strings.HasPrefix(l, "sat"):
		m := Model{}
		parseValues(l[3:], m)
		return VSat, m
	case strings.HasPrefix(l, "unsat"):
		return VUnsat, nil
	}
	return VUnknown, nil
}

// fallback: non-incremental z3 and cvc5.
func (s *Solver) fallback(conj []*Term, vars []*Term, tmo int) (Verdict, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Fallbacks++
	hasFP := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.fp {
			hasFP = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, c := range conj {
		walk(c)
	}
	logic := "QF_BV"
	if hasFP {
		logic = "QF_FPBV"
	}
	sc := Script(conj, vars, logic, true)
	v, m := runScript(s.bin, []string{"-in", "-smt2", fmt.Sprintf("-T:%d", tmo)}, sc)
	if v != VUnknown {
		return v, m
	}
	if hasFP {
		sc = strings.Replace(sc, "QF_FPBV", "QF_BVFP", 1)
	}
	return runScript("cvc5", []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", tmo*1000)}, sc)
}
