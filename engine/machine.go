package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions ---------------------------------------------------------

type Dec struct {
	v    uint64
	kind uint8
}

const (
	dBranch uint8 = iota // v = 0/1, both sides feasible
	dForced              // v = 0/1, other side infeasible
	dChoice              // v = chosen alternative
	dValue               // concretised value guess; followed by a dBranch/dForced
)

type pnode struct {
	parent *pnode
	d      Dec
	depth  int32
}

type pending struct {
	node  *pnode
	model Model
	owner *Ctx
	names []varKey // names of the model's variables
}

// ---- machine -----------------------------------------------------------

// M is one worker: it executes one path at a time.
type M struct {
	prog   *Program
	ex     *Explorer
	ctx    *Ctx
	solver *Solver
	wid    int

	// persistent heap
	globals []Value
	pkgInit map[ssaPkg]int // 1 running, 2 done

	// path state
	prefix    []Dec
	pos       int
	node      *pnode
	model     Model
	pc        []*Expr
	synced    int
	dom       map[*Expr]*[4]uint64
	entangled map[*Expr]bool
	facts     map[*Expr]bool
	bounds    map[*Expr]ival
	undo      []undoRec
	steps     int
	stepLimit int
	initMode  int
	fresh     map[string]int
	inputs    []inputVar
	observes  []observation
	reached   map[string]bool
	failed    []*Violation
	endReason string
	nForks    int
	hasSym    bool
	truncated string
	asserted  int
	undecided int
	known     map[string]bool

	// threads
	threads      []*Thread
	cur          *Thread
	waitSeq      int
	preempts     int
	schedAll     bool
	schedUsed    bool
	now          Value // virtual unix nanos
	timers       []*timer
	timerSeq     int
	mutexes      map[*Obj]*mutexState
	wgs          map[*Obj]*wgState
	sideTimer    map[*Obj]*timer
	raceOn       bool
	atomics      map[Ref]vclock
	mainDone     bool
	extra        map[string]Value
	timeAdvances int
	selectBudget int
	inDecide     bool
	mapOrder     int
	rationals    bool
	rats         []SymF
}

type inputVar struct {
	name   string
	kind   string // "bv" or "choice"
	e      *Expr
	v      uint64
	signed bool
}

type observation struct {
	tag  string
	vals []Value
}

type undoRec struct {
	o    *Obj
	i    int
	old  Value
	f    func()
	oldN int
}

// Violation is a failed assertion on some path.
type Violation struct {
	Harness string            `json:"harness"`
	ID      string            `json:"id"`
	Detail  string            `json:"detail"`
	Inputs  map[string]string `json:"inputs"`
	Sched   bool              `json:"schedule_dependent"`
	Trace   []string          `json:"trace"`
	prefix  []Dec
}

type ssaPkg = *ssa.Package

type pathEnd struct{ why string }

func (m *M) endPath(why string) { panic(pathEnd{why}) }

func (m *M) resetPath() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			if u.i < u.oldN {
				u.o.f[u.i] = u.old
			}
			if u.oldN < len(u.o.f) {
				u.o.f = u.o.f[:u.oldN]
			}
		}
	}
	m.undo = m.undo[:0]
	m.pos = 0
	m.pc = m.pc[:0]
	m.synced = 0
	m.dom = map[*Expr]*[4]uint64{}
	m.entangled = map[*Expr]bool{}
	m.facts = map[*Expr]bool{}
	m.bounds = map[*Expr]ival{}
	m.ctx.rewrite = nil
	m.steps = 0
	m.fresh = map[string]int{}
	m.inputs = nil
	m.observes = nil
	m.reached = map[string]bool{}
	m.failed = nil
	m.endReason = ""
	m.hasSym = false
	m.truncated = ""
	m.asserted = 0
	m.undecided = 0
	m.threads = nil
	m.cur = nil
	m.waitSeq = 0
	m.preempts = 0
	m.schedAll = false
	m.rationals = false
	m.rats = m.rats[:0]
	m.schedUsed = false
	m.now = Int(946684800 * 1000000000)
	m.timers = nil
	m.timerSeq = 0
	m.mutexes = map[*Obj]*mutexState{}
	m.wgs = map[*Obj]*wgState{}
	m.sideTimer = map[*Obj]*timer{}
	m.raceOn = false
	m.atomics = map[Ref]vclock{}
	m.mainDone = false
	m.extra = map[string]Value{}
	m.mapOrder = 0
	m.timeAdvances = 0
	m.selectBudget = 0
	if m.solver.depth > 0 {
		for m.solver.depth > 0 {
			m.solver.pop()
		}
	}
	if len(m.ctx.tab) > 400000 || m.solver.dead {
		m.solver.close()
		m.ctx = newCtx()
		m.solver.ctx = m.ctx
		m.solver.start()
	}
}

func modelBytes(m Model) Model { c := make(Model, len(m)); copy(c, m); return c }

// ---- constraints -------------------------------------------------------

func (m *M) assertC(e *Expr) {
	switch {
	case e.isConst():
		return
	case e.op == OpAnd:
		m.assertC(e.a)
		m.assertC(e.b)
		return
	case e.op == OpNot && e.a.op == OpOr:
		m.assertC(m.ctx.Not(e.a.a))
		m.assertC(m.ctx.Not(e.a.b))
		return
	}
	m.pc = append(m.pc, e)
	m.learn(e)
	if !e.multi && e.v1 != nil && e.v1.w == 8 {
		bm := m.ctx.bitmap(e)
		d := m.dom[e.v1]
		if d == nil {
			d = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
			m.dom[e.v1] = d
		}
		for i := range d {
			d[i] &= bm[i]
		}
		return
	}
	for _, v := range m.ctx.varsOf(e) {
		m.entangled[v] = true
	}
}

func (m *M) setModel(mod Model) {
	m.model = mod
	m.ctx.newEpoch()
}

func (m *M) evalNow(e *Expr) uint64 { return m.ctx.eval(e, m.model) }

func (m *M) sync() {
	if m.solver.dead {
		m.solver.close()
		m.solver.start()
		m.synced = 0
	}
	if m.solver.depth == 0 {
		m.solver.push()
		m.synced = 0
	}
	for ; m.synced < len(m.pc); m.synced++ {
		m.solver.assert(m.pc[m.synced])
	}
}

// domainPick tries to decide e by the byte domain of its only variable.
func (m *M) domainPick(e *Expr) (decided, feasible bool, val uint64) {
	v := e.v1
	if v == nil || v.w != 8 {
		return false, false, 0
	}
	bm := m.ctx.bitmap(e)
	d := m.dom[v]
	if m.entangled[v] {
		// other constraints matter too, unless the domain settles it alone
		none, all := true, true
		for i := 0; i < 4; i++ {
			y := ^uint64(0)
			if d != nil {
				y = d[i]
			}
			if bm[i]&y != 0 {
				none = false
			}
			if y&^bm[i] != 0 {
				all = false
			}
		}
		if none {
			return true, false, 0
		}
		if all {
			return true, true, m.evalNow(v)
		}
		return false, false, 0
	}
	for i := 0; i < 4; i++ {
		x := bm[i]
		if d != nil {
			x &= d[i]
		}
		if x != 0 {
			for b := 0; b < 64; b++ {
				if x&(1<<uint(b)) != 0 {
					return true, true, uint64(i*64 + b)
				}
			}
		}
	}
	return true, false, 0
}

// feasible decides pc && e and returns a model when it is satisfiable.
func (m *M) feasible(e *Expr) (SatResult, Model) {
	if e.isConst() {
		if e.k != 0 {
			return Sat, m.model
		}
		return Unsat, nil
	}
	r, mod, builtin := m.feasibleBuiltin(e)
	if !builtin {
		return r, mod
	}
	m.audit(e, r)
	return r, mod
}

// audit has the solver confirm a sample of the verdicts which the built-in
// byte-domain and interval procedures gave.
func (m *M) audit(e *Expr, r SatResult) {
	n := m.ex.builtin.Add(1)
	if (n > 150 && n%(1+n/250) != 0) || m.ex.audited.Load() >= m.ex.opts.audits {
		return
	}
	if time.Now().After(m.ex.opts.deadline.Add(-2 * time.Second)) {
		return
	}
	got, _ := m.solve(e)
	if got == Unknown {
		return
	}
	m.ex.audited.Add(1)
	if got != r {
		m.ex.auditBad.Add(1)
		panic(abortf("the solver disagrees with a built-in verdict"))
	}
}

func (m *M) feasibleBuiltin(e *Expr) (SatResult, Model, bool) {
	if !e.multi {
		if dec, ok, val := m.domainPick(e); dec {
			if !ok {
				return Unsat, nil, true
			}
			mod := modelBytes(m.model)
			for len(mod) <= e.v1.varIdx {
				mod = append(mod, 0)
			}
			mod[e.v1.varIdx] = val
			return Sat, mod, true
		}
	}
	if e.multi {
		switch m.intervalTruth(e) {
		case 0:
			return Unsat, nil, true
		case 1:
			return Sat, m.model, true
		}
		e = m.underFacts(e)
		if e.isConst() {
			if e.k != 0 {
				return Sat, m.model, true
			}
			return Unsat, nil, true
		}
	}
	r, mod := m.solve(e)
	return r, mod, false
}

// solve asks the solver about pc && e.
func (m *M) solve(e *Expr) (SatResult, Model) {
	t0 := time.Now()
	if t0.After(m.ex.opts.deadline) {
		panic(pathEnd{"deadline"})
	}
	m.sync()
	m.solver.push()
	m.solver.assert(e)
	r := m.solver.check()
	if debugSolve {
		fmt.Fprintf(os.Stderr, "QUERY %v %.3fs pc=%d %.300s\n", r, time.Since(t0).Seconds(), len(m.pc), e.String())
	}
	var mod Model
	if r == Sat {
		mod = m.solver.model(m.modelVars(e), modelBytes(m.model))
	}
	if m.solver.dead {
		m.solver.close()
		m.solver.start()
		m.synced = 0
		if r == Sat {
			// the model could not be read
			r = Unknown
		}
	} else {
		m.solver.pop()
	}
	if r == Unknown {
		r, mod = m.portfolio(e)
	}
	return r, mod
}

// portfolio retries a query the incremental solver could not decide.
func (m *M) portfolio(e *Expr) (SatResult, Model) {
	cs := append(append([]*Expr{}, m.pc...), e)
	text := script(cs, nil)
	to := m.ex.opts.hardTimeout
	for _, argv := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "-q"}} {
		if time.Now().After(m.ex.opts.deadline) {
			panic(pathEnd{"deadline"})
		}
		switch oneShot(text, to, argv...) {
		case Unsat:
			return Unsat, nil
		case Sat:
			// obtain the model from a fresh run of z3-new
			vs := m.modelVars(e)
			mod := m.oneShotModel(cs, vs)
			if mod != nil {
				return Sat, mod
			}
		}
	}
	return Unknown, nil
}

func (m *M) modelVars(e *Expr) []*Expr {
	seen := map[*Expr]bool{}
	var out []*Expr
	add := func(x *Expr) {
		for _, v := range m.ctx.varsOf(x) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	for _, c := range m.pc {
		add(c)
	}
	add(e)
	return out
}

func (m *M) oneShotModel(cs []*Expr, vs []*Expr) Model {
	tmpCtx := m.ctx
	s := &Solver{ctx: tmpCtx, timeout: int(m.ex.opts.hardTimeout / time.Millisecond), bin: "z3-new"}
	// use private emission flags
	saved := map[*Expr]bool{}
	for _, e := range tmpCtx.tab {
		if e.emitted {
			saved[e] = true
		}
	}
	for _, e := range tmpCtx.varList {
		if e.emitted {
			saved[e] = true
		}
	}
	defer func() {
		s.close()
		for _, e := range tmpCtx.tab {
			e.emitted = saved[e]
		}
		for _, e := range tmpCtx.varList {
			e.emitted = saved[e]
		}
	}()
	s.start()
	for _, c := range cs {
		s.assert(c)
	}
	if s.check() != Sat {
		return nil
	}
	mod := s.model(vs, modelBytes(m.model))
	if s.dead {
		return nil
	}
	return mod
}

func (m *M) pushDec(d Dec) {
	m.node = &pnode{parent: m.node, d: d, depth: m.nodeDepth() + 1}
}

func (m *M) nodeDepth() int32 {
	if m.node == nil {
		return 0
	}
	return m.node.depth
}

func (m *M) addPending(d Dec, mod Model) {
	m.ex.push(m.wid, &pending{node: &pnode{parent: m.node, d: d, depth: m.nodeDepth() + 1}, model: mod, owner: m.ctx, names: m.ctx.varKeys})
	m.nForks++
}

// branch decides a condition, forking the path when both sides are possible.
func (m *M) branch(v Value) bool {
	switch c := v.(type) {
	case Int:
		return c != 0
	case *Expr:
		return m.decide(c)
	case Poison:
		panic(abortf("poison condition: %s", c.why))
	}
	panic(abortf("branch on %T", v))
}

func (m *M) decide(c *Expr) bool {
	if c.isConst() {
		return c.k != 0
	}
	if m.initMode > 0 {
		panic(abortf("symbolic branch in init"))
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.kind != dBranch && d.kind != dForced {
			panic(abortf("replay divergence: branch vs kind %d", d.kind))
		}
		if d.kind == dBranch || true {
			if d.v != 0 {
				m.assertIf(c, d.kind)
			} else {
				m.assertIf(m.ctx.Not(c), d.kind)
			}
		}
		return d.v != 0
	}
	side := m.evalNow(c) != 0
	other := c
	chosen := m.ctx.Not(c)
	if side {
		other, chosen = chosen, other
	}
	r, mod := m.feasible(other)
	switch r {
	case Sat:
		m.addPending(Dec{b2u(!side), dBranch}, mod)
		m.pushDec(Dec{b2u(side), dBranch})
		m.assertC(chosen)
	case Unsat:
		m.pushDec(Dec{b2u(side), dForced})
	default:
		m.ex.unknownBranches.Add(1)
		m.pushDec(Dec{b2u(side), dBranch})
		m.assertC(chosen)
	}
	return side
}

func (m *M) assertIf(e *Expr, kind uint8) {
	if kind == dBranch {
		m.assertC(e)
	}
}

// choose picks one of n alternatives, exploring all of them.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.initMode > 0 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.kind != dChoice {
			panic(abortf("replay divergence: choice vs kind %d", d.kind))
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m.addPending(Dec{uint64(i), dChoice}, m.model)
	}
	m.pushDec(Dec{0, dChoice})
	return 0
}

// assume restricts the path to c.
func (m *M) assume(v Value) {
	switch c := v.(type) {
	case Int:
		if c == 0 {
			m.endPath("assume")
		}
	case *Expr:
		if c.isConst() {
			if c.k == 0 {
				m.endPath("assume")
			}
			return
		}
		if m.evalNow(c) != 0 {
			m.assertC(c)
			return
		}
		r, mod := m.feasible(c)
		if r == Unknown {
			m.ex.unknownBranches.Add(1)
			m.endPath("assume-unknown")
		}
		if r == Unsat {
			m.endPath("assume")
		}
		m.assertC(c)
		m.setModel(mod)
	default:
		panic(abortf("assume of %T", v))
	}
}

// concretize returns a concrete value of v, exploring all of them.
func (m *M) concretize(v Value) uint64 {
	switch x := v.(type) {
	case Int:
		return uint64(x)
	case *Expr:
		if x.isConst() {
			return x.k
		}
		for n := 0; ; n++ {
			if n > 300 {
				panic(abortf("too many values to concretise"))
			}
			var g uint64
			if m.pos < len(m.prefix) {
				d := m.prefix[m.pos]
				m.pos++
				if d.kind != dValue {
					panic(abortf("replay divergence: value vs kind %d", d.kind))
				}
				g = d.v
			} else {
				g = m.evalNow(x)
				m.pushDec(Dec{g, dValue})
			}
			if m.decide(m.ctx.Eq(x, m.ctx.Const(g, x.w))) {
				return g
			}
		}
	}
	panic(abortf("concretize of %T", v))
}

// concStr makes all bytes of a string concrete.
func (m *M) concStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = byte(m.concretize(b))
	}
	return string(out)
}

// assertProp checks a property on the current path.
func (m *M) assertProp(v Value, id, detail string) {
	m.asserted++
	m.ex.obligations.Add(1)
	switch c := v.(type) {
	case Int:
		if c != 0 {
			m.ex.folded.Add(1)
			return
		}
		m.violation(id, detail, m.model)
		m.endPath("violation")
	case *Expr:
		if c.isConst() {
			m.assertProp(Int(c.k), id, detail)
			return
		}
		full := m.ctx.Not(c)
		nc := m.underFacts(full)
		if nc.isConst() && nc.k == 0 {
			if hasMul(full, map[*Expr]bool{}) {
				// settled by the digit-sum bounds alone
				m.ex.folded.Add(1)
				m.ex.builtin.Add(1)
				return
			}
			nc = full
		}
		r, mod := m.solve(nc)
		m.ex.solved.Add(1)
		switch r {
		case Sat:
			m.violation(id, detail, mod)
			m.assume(c)
		case Unsat:
		default:
			m.undecided++
			m.ex.undecided.Add(1)
			m.assume(c)
		}
	default:
		panic(abortf("assert of %T", v))
	}
}

func (m *M) violation(id, detail string, mod Model) {
	saved := m.model
	m.setModel(mod)
	vi := &Violation{Harness: m.ex.harness, ID: id, Detail: detail, Inputs: m.inputMap(), Sched: m.schedUsed, Trace: m.stackTrace()}
	m.setModel(saved)
	vi.prefix = m.pathPrefix()
	m.failed = append(m.failed, vi)
	m.ex.addViolation(vi)
}

func (m *M) pathPrefix() []Dec {
	return materialise(m.node)
}

func materialise(n *pnode) []Dec {
	if n == nil {
		return nil
	}
	out := make([]Dec, n.depth)
	for x := n; x != nil; x = x.parent {
		out[x.depth-1] = x.d
	}
	return out
}

func (m *M) inputMap() map[string]string {
	out := map[string]string{}
	for _, in := range m.inputs {
		if in.kind == "choice" {
			out[in.name] = fmt.Sprint(in.v)
			continue
		}
		v := m.evalNow(in.e)
		if in.signed {
			out[in.name] = fmt.Sprint(sext(v, in.e.w))
		} else {
			out[in.name] = fmt.Sprint(v)
		}
	}
	return out
}

func (m *M) freshName(n string) string {
	k := m.fresh[n]
	m.fresh[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

// input declares a fresh symbolic input.
func (m *M) input(name string, w uint8, signed bool) *Expr {
	name = m.freshName(name)
	e := m.ctx.Var(name, w)
	m.hasSym = true
	m.inputs = append(m.inputs, inputVar{name: name, kind: "bv", e: e, signed: signed})
	return e
}

func (m *M) choiceInput(name string, n int) int {
	name = m.freshName(name)
	c := m.choose(n)
	m.inputs = append(m.inputs, inputVar{name: name, kind: "choice", v: uint64(c)})
	return c
}

// concreteVal renders a value under the current model, for observations.
func (m *M) concreteVal(v Value) string {
	var sb strings.Builder
	m.renderVal(&sb, v)
	return sb.String()
}

func (m *M) renderVal(sb *strings.Builder, v Value) {
	switch x := v.(type) {
	case Int:
		fmt.Fprintf(sb, "%d", uint64(x))
	case *Expr:
		fmt.Fprintf(sb, "%d", m.evalNow(x))
	case string, *SymStr:
		bs := strBytes(x)
		out := make([]byte, len(bs))
		for i, b := range bs {
			switch y := b.(type) {
			case Int:
				out[i] = byte(y)
			case *Expr:
				out[i] = byte(m.evalNow(y))
			}
		}
		fmt.Fprintf(sb, "%q", out)
	case F64:
		fmt.Fprintf(sb, "%v", float64(x))
	default:
		fmt.Fprintf(sb, "%T", v)
	}
}

// ---- memory ------------------------------------------------------------

func (m *M) ld(o *Obj, i int) Value {
	if m.raceOn {
		m.raceRead(o, i)
	}
	return o.slot(i)
}

func (m *M) st(o *Obj, i int, v Value) {
	if m.raceOn {
		m.raceWrite(o, i)
	}
	if o.pre && m.initMode == 0 {
		m.undo = append(m.undo, undoRec{o: o, i: i, old: o.slot(i), oldN: len(o.f)})
	}
	if i >= len(o.f) {
		o.grow(i)
	}
	o.f[i] = v
}

// load reads a variable of type z through a pointer.
func (m *M) load(p Value, agg bool) Value {
	switch x := p.(type) {
	case Ref:
		return m.ld(x.o, x.i)
	case *Obj:
		if !agg {
			panic(abortf("scalar load through aggregate pointer"))
		}
		if m.raceOn {
			m.raceReadAgg(x)
		}
		return copyObj(x)
	case SymRef:
		return m.loadSym(x)
	}
	panic(abortf("load through %T", p))
}

func (m *M) loadSym(x SymRef) Value {
	if x.n > 512 {
		return m.ld(x.o, x.off+int(m.concretize(x.idx)))
	}
	vals := make([]Value, x.n)
	w := uint8(255)
	for i := range vals {
		vals[i] = m.ld(x.o, x.off+i)
		switch vals[i].(type) {
		case Int, *Expr:
		default:
			return m.ld(x.o, x.off+int(m.concretize(x.idx)))
		}
	}
	z := x.o.info.slotZero(0)
	w = widthOf(z.t)
	return m.iteTable(vals, x.idx, w)
}

func (m *M) iteTable(vals []Value, idx *Expr, w uint8) Value {
	// group equal concrete values to keep the expression small
	c := m.ctx
	type grp struct {
		v     *Expr
		conds *Expr
		count int
	}
	var groups []*grp
	by := map[*Expr]*grp{}
	for i, v := range vals {
		e := c.toExpr(v, w)
		g := by[e]
		if g == nil {
			g = &grp{v: e}
			by[e] = g
			groups = append(groups, g)
		}
		eq := c.Eq(idx, c.Const(uint64(i), idx.w))
		if g.conds == nil {
			g.conds = eq
		} else {
			g.conds = c.Or(g.conds, eq)
		}
		g.count++
	}
	sort.SliceStable(groups, func(i, j int) bool { return groups[i].count > groups[j].count })
	r := groups[0].v
	for _, g := range groups[1:] {
		r = c.Ite(g.conds, g.v, r)
	}
	return simplifyOut(r)
}

func simplifyOut(e *Expr) Value {
	if e.isConst() {
		return mkInt(e.k)
	}
	return e
}

func (c *Ctx) toExpr(v Value, w uint8) *Expr {
	switch x := v.(type) {
	case Int:
		return c.Const(uint64(x), w)
	case *Expr:
		if x.w != w {
			panic(abortf("width mismatch %d vs %d", x.w, w))
		}
		return x
	}
	panic(abortf("toExpr of %T", v))
}

// store writes through a pointer.
func (m *M) store(p Value, v Value) {
	switch x := p.(type) {
	case Ref:
		m.st(x.o, x.i, v)
		return
	case *Obj:
		src, ok := v.(*Obj)
		if !ok {
			panic(abortf("aggregate store of %T", v))
		}
		m.storeAgg(x, src)
		return
	case SymRef:
		m.st(x.o, x.off+int(m.concretize(x.idx)), v)
		return
	}
	panic(abortf("store through %T", p))
}

func (m *M) storeAgg(dst, src *Obj) {
	n := dst.n
	if dst.info.isArr {
		if len(src.f) > 0 && len(dst.f) < len(src.f) {
			dst.grow(len(src.f) - 1)
		}
		n = len(dst.f)
	}
	for i := 0; i < n; i++ {
		if dst.info.slotZero(i).agg {
			m.storeAgg(dst.slot(i).(*Obj), src.slot(i).(*Obj))
		} else {
			m.st(dst, i, src.slot(i))
		}
	}
}

func isNilPtr(v Value) bool { return v == nil }

func widthOf(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// global returns the pointer to global number i, initialising its package.
func (m *M) global(i int) Value {
	v := m.globals[i]
	g := m.prog.globals[i]
	if v == nil {
		v = newVar(zeroInfoOf(g.Type().Underlying().(*types.Pointer).Elem()))
		m.globals[i] = v
		markPreVal(v)
	}
	if m.pkgInit[g.Pkg] == 0 {
		m.runInit(g.Pkg)
	}
	return v
}

func markPreVal(v Value) {
	switch x := v.(type) {
	case Ref:
		x.o.pre = true
	case *Obj:
		markPre(x)
	}
}

// runInit runs the initialiser of one package, concretely.
func (m *M) runInit(p *ssa.Package) {
	m.pkgInit[p] = 1
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			idx := m.prog.globalIndex(g)
			if m.globals[idx] == nil {
				v := newVar(zeroInfoOf(g.Type().Underlying().(*types.Pointer).Elem()))
				m.globals[idx] = v
				markPreVal(v)
			}
		}
	}
	initFn := p.Func("init")
	if initFn == nil {
		m.pkgInit[p] = 2
		return
	}
	savedThreads, savedCur, savedSteps, savedRace, savedLimit := m.threads, m.cur, m.steps, m.raceOn, m.stepLimit
	m.initMode++
	m.raceOn = false
	m.steps = 0
	m.stepLimit = 1 << 40
	t := &Thread{id: 1000 + len(m.pkgInit)}
	m.threads = []*Thread{t}
	m.cur = t
	m.pushFrame(t, m.prog.fn(initFn), nil, nil, -1)
	for t.top != nil {
		m.initStep(t)
	}
	m.initMode--
	m.threads, m.cur, m.steps, m.raceOn, m.stepLimit = savedThreads, savedCur, savedSteps, savedRace, savedLimit
	// Everything reachable from the globals is now shared between paths.
	seen := map[any]bool{}
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			m.markReach(m.globals[m.prog.globalIndex(g)], seen)
		}
	}
	m.pkgInit[p] = 2
}

func (m *M) initStep(t *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if ab, ok := r.(abortErr); ok {
				if debugInit {
					fmt.Fprintf(os.Stderr, "init: %s: %s\n", t.top.fn.name, ab.why)
				}
				fr := t.top
				// poison the result and go on with the next instruction
				if d := fr.fn.dst(fr); d >= 0 {
					fr.regs[d] = Poison{ab.why}
				}
				if fr.fn.isTerminator(fr) {
					m.popFrame(t)
					if t.top != nil && fr.retDst >= 0 {
						t.top.regs[fr.retDst] = Poison{ab.why}
					}
					return
				}
				fr.pc++
				return
			}
			panic(r)
		}
	}()
	for t.top != nil {
		c := m.step(t)
		if c == ctlBlock {
			panic(abortf("init blocked"))
		}
	}
}

var debugSolve = os.Getenv("GOSYM_QUERIES") != ""
var debugInit = os.Getenv("GOSYM_DEBUGINIT") != ""

func (m *M) markReach(v Value, seen map[any]bool) {
	switch x := v.(type) {
	case Ref:
		m.markReach(x.o, seen)
	case *Obj:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		x.pre = true
		for _, f := range x.f {
			m.markReach(f, seen)
		}
	case Slice:
		if x.o != nil {
			m.markReach(x.o, seen)
		}
	case *Map:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		x.pre = true
		for _, e := range x.entries {
			m.markReach(e.k, seen)
			m.markReach(e.v, seen)
		}
	case Iface:
		m.markReach(x.v, seen)
	case *Closure:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		for _, b := range x.bind {
			m.markReach(b, seen)
		}
	case Tuple:
		for _, f := range x {
			m.markReach(f, seen)
		}
	}
}

func (m *M) stackTrace() []string {
	var out []string
	if m.cur == nil {
		return nil
	}
	for fr := m.cur.top; fr != nil; fr = fr.caller {
		pos := fr.fn.posAt(fr)
		out = append(out, fr.fn.name+" "+pos)
		if len(out) > 12 {
			break
		}
	}
	return out
}
