package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// SolverStats are global counters.
type SolverStats struct {
	queries, sat, unsat, unknown atomic.Int64
	nanos                        atomic.Int64
	crossChecked, crossDisagree  atomic.Int64
}

var solverStats SolverStats

// Solver is an incremental SMT-LIB2 process.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	buf     strings.Builder
	timeout int // ms
	bin     string
	dead    bool
	depth   int
	watch   *time.Timer
}

var solverBin = "z3"

func newSolver(ctx *Ctx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMs, bin: solverBin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	for _, e := range s.ctx.tab {
		e.emitted = false
	}
	for _, e := range s.ctx.varList {
		e.emitted = false
	}
	s.depth = 0
	s.dead = false
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constName(k uint64, w uint8) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func symName(e *Expr) string {
	switch e.op {
	case OpConst:
		return constName(e.k, e.w)
	case OpVar:
		return "v" + strconv.Itoa(int(e.id))
	}
	return "e" + strconv.Itoa(int(e.id))
}

func defBody(e *Expr) string {
	switch e.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, symName(e.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, symName(e.a))
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, symName(e.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[e.op])
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(symName(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func emitTo(sb *strings.Builder, e *Expr, done func(*Expr) bool) {
	if e.op == OpConst || done(e) {
		return
	}
	if e.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", symName(e), sortName(e.w))
		return
	}
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			emitTo(sb, x, done)
		}
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", symName(e), sortName(e.w), defBody(e))
}

func (s *Solver) emit(e *Expr) {
	emitTo(&s.buf, e, func(x *Expr) bool {
		if x.emitted {
			return true
		}
		x.emitted = true
		return false
	})
}

func (s *Solver) push() { s.buf.WriteString("(push 1)\n"); s.depth++ }
func (s *Solver) pop()  { s.buf.WriteString("(pop 1)\n"); s.depth-- }

func (s *Solver) assert(e *Expr) {
	s.emit(e)
	s.buf.WriteString("(assert ")
	s.buf.WriteString(symName(e))
	s.buf.WriteString(")\n")
}

func (s *Solver) flush() {
	s.in.WriteString(s.buf.String())
	s.buf.Reset()
	s.in.Flush()
}

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// check runs check-sat in the current scope.
func (s *Solver) check() SatResult {
	s.buf.WriteString("(check-sat)\n")
	t := time.Now()
	// Guard against a solver which ignores its timeout.
	kill := time.AfterFunc(time.Duration(s.timeout+5000)*time.Millisecond, func() { s.cmd.Process.Kill() })
	s.flush()
	var res SatResult = Unknown
	for {
		l, ok := s.readLine()
		if !ok {
			break
		}
		if l == "sat" {
			res = Sat
			break
		}
		if l == "unsat" {
			res = Unsat
			break
		}
		if l == "unknown" || l == "timeout" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.dead = true
			break
		}
	}
	kill.Stop()
	solverStats.nanos.Add(int64(time.Since(t)))
	solverStats.queries.Add(1)
	switch res {
	case Sat:
		solverStats.sat.Add(1)
	case Unsat:
		solverStats.unsat.Add(1)
	default:
		solverStats.unknown.Add(1)
	}
	return res
}

// model reads the values of the variables vs after a Sat answer.
func (s *Solver) model(vs []*Expr, m Model) Model {
	need := vs[:0:0]
	for _, v := range vs {
		if v.emitted {
			need = append(need, v)
		}
	}
	if len(need) == 0 {
		return m
	}
	s.buf.WriteString("(get-value (")
	for _, v := range need {
		s.buf.WriteString(symName(v))
		s.buf.WriteByte(' ')
	}
	s.buf.WriteString("))\n")
	s.flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return m
		}
		sb.WriteString(l)
		for i := 0; i < len(l); i++ {
			switch l[i] {
			case '(':
				depth++
			case ')':
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	toks := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	byName := map[string]*Expr{}
	for _, v := range need {
		byName[symName(v)] = v
	}
	i := 0
	for i < len(toks) {
		v, ok := byName[toks[i]]
		if !ok {
			i++
			continue
		}
		i++
		if i >= len(toks) {
			break
		}
		var val uint64
		t := toks[i]
		switch {
		case t == "true":
			val = 1
		case t == "false":
			val = 0
		case strings.HasPrefix(t, "#x"):
			val, _ = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			val, _ = strconv.ParseUint(t[2:], 2, 64)
		case t == "_" && i+1 < len(toks):
			val, _ = strconv.ParseUint(strings.TrimPrefix(toks[i+1], "bv"), 10, 64)
			i += 2
		}
		for v.varIdx >= len(m) {
			m = append(m, 0)
		}
		m[v.varIdx] = val
		i++
	}
	return m
}

// script renders a standalone SMT-LIB2 query for the conjunction of cs.
func script(cs []*Expr, getVals []*Expr) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	seen := map[*Expr]bool{}
	done := func(x *Expr) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		return false
	}
	for _, c := range cs {
		emitTo(&sb, c, done)
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", symName(c))
	}
	sb.WriteString("(check-sat)\n")
	if len(getVals) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range getVals {
			if seen[v] {
				sb.WriteString(symName(v) + " ")
			}
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// oneShot decides a standalone script with the given solver command.
func oneShot(text string, timeout time.Duration, argv ...string) SatResult {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(text)
	t := time.Now()
	k := time.AfterFunc(timeout, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, _ := cmd.Output()
	k.Stop()
	solverStats.nanos.Add(int64(time.Since(t)))
	first := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
	switch first {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	}
	return Unknown
}
