package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// SolverStats are measured, per worker, and summed at the end.
type SolverStats struct {
	Queries   int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	Fallbacks int64
	ModelHits int64 // feasibility answered by evaluating a known model
	Time      time.Duration
	MaxTime   time.Duration
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Fallbacks += b.Fallbacks
	a.ModelHits += b.ModelHits
	a.Time += b.Time
	if b.MaxTime > a.MaxTime {
		a.MaxTime = b.MaxTime
	}
}

// Solver drives one incremental solver process.
type Solver struct {
	bin     string
	ctx     *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     int32
	stack   []*Term
	stats   SolverStats
	timeout int // ms
	fbTime  int // s, fallback
}

func NewSolver(bin string, ctx *TermCtx, timeoutMs, fallbackS int) *Solver {
	s := &Solver{bin: bin, ctx: ctx, timeout: timeoutMs, fbTime: fallbackS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.stack = nil
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	_ = s.in.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// Reset switches to a new term context.
func (s *Solver) Reset(ctx *TermCtx) {
	s.ctx = ctx
	s.restart()
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if sb.Len() == 0 && (b == '\n' || b == ' ' || b == '\r') {
			continue
		}
		if depth == 0 && b == '\n' {
			return sb.String(), nil
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		switch b {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// Check decides pc ∧ extra (extra may be nil). vars are the variables whose
// values are wanted in the model.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	t0 := time.Now()
	r, m := s.check1(pc, extra, vars)
	if r == Unknown {
		s.stats.Fallbacks++
		r, m = s.oneShot(pc, extra, vars)
	}
	d := time.Since(t0)
	s.stats.Queries++
	s.stats.Time += d
	if d > s.stats.MaxTime {
		s.stats.MaxTime = d
	}
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return r, m
}

func (s *Solver) check1(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	var sb strings.Builder
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		t.emit(&sb, s.gen)
		sb.WriteString("(push 1)\n(assert ")
		sb.WriteString(t.ref())
		sb.WriteString(")\n")
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		extra.emit(&sb, s.gen)
	}
	for _, v := range vars {
		v.emit(&sb, s.gen)
	}
	if extra != nil {
		sb.WriteString("(push 1)\n(assert ")
		sb.WriteString(extra.ref())
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		return Unknown, nil
	}
	ans, err := s.readSexp()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	res := Unknown
	var m Model
	switch ans {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown":
	default:
		// any (error ...) is inconclusive; resynchronise with a new process
		s.restart()
		return Unknown, nil
	}
	if res == Sat {
		m = Model{}
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref())
				sb.WriteString(" ")
			}
			sb.WriteString("))\n")
			_, _ = io.WriteString(s.in, sb.String())
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.restart()
				return Unknown, nil
			}
			parseModel(txt, m)
		}
	}
	if extra != nil {
		_, _ = io.WriteString(s.in, "(pop 1)\n")
	}
	return res, m
}

func parseModel(txt string, m Model) {
	// ((|a| #x00) (|b| true) ...)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		k2 := -1
		if j >= 0 {
			k := strings.IndexByte(txt[i+j+1:], '|')
			name := txt[i+j+1 : i+j+1+k]
			k2 = i + j + 1 + k + 1
			rest := txt[k2:]
			e := strings.IndexByte(rest, ')')
			m[name] = parseConst(strings.TrimSpace(rest[:e]))
			i = k2 + e
			continue
		}
		return
	}
}

func parseConst(s string) uint64 {
	switch {
	case s == "true":
		return 1
	case s == "false":
		return 0
	case strings.HasPrefix(s, "#x"):
		v, _ := strconv.ParseUint(s[2:], 16, 64)
		return v
	case strings.HasPrefix(s, "#b"):
		v, _ := strconv.ParseUint(s[2:], 2, 64)
		return v
	}
	return 0
}

// oneShot tries the other installed solvers on a self-contained query.
func (s *Solver) oneShot(pc []*Term, extra *Term, vars []*Term) (SatResult, Model) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	const gen = 1 << 30
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	// emit with a private generation, then restore.
	saved := map[*Term]int32{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil {
			return
		}
		if _, ok := saved[t]; ok {
			return
		}
		saved[t] = t.sentGen
		visit(t.a)
		visit(t.b)
		visit(t.c)
	}
	for _, t := range all {
		visit(t)
	}
	for _, t := range vars {
		visit(t)
	}
	for t := range saved {
		t.sentGen = -1
	}
	for _, t := range all {
		t.emit(&sb, gen)
	}
	for _, t := range vars {
		t.emit(&sb, gen)
	}
	for t, g := range saved {
		t.sentGen = g
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	q := sb.String()
	gv := ""
	if len(vars) > 0 {
		var g strings.Builder
		g.WriteString("(get-value (")
		for _, v := range vars {
			g.WriteString(v.ref() + " ")
		}
		g.WriteString("))\n")
		gv = g.String()
	}
	for _, c := range [][]string{
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s.fbTime)},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.fbTime*1000), "-"},
		{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", s.fbTime*1000), "-"},
	} {
		if _, err := exec.LookPath(c[0]); err != nil {
			continue
		}
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(q + gv)
		out, _ := cmd.Output()
		txt := strings.TrimSpace(string(out))
		if strings.HasPrefix(txt, "unsat") {
			return Unsat, nil
		}
		if strings.HasPrefix(txt, "sat") {
			m := Model{}
			parseModel(txt[3:], m)
			return Sat, m
		}
	}
	return Unknown, nil
}
