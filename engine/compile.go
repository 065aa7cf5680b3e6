package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type ctl uint8

const (
	ctlNext ctl = iota
	ctlSwitch
	ctlBlock
	ctlEnd
)

// Instr is a compiled instruction.
type Instr func(m *M, t *Thread, fr *Frame) ctl

// Native is a function implemented by the engine.
type Native func(m *M, t *Thread, args []Value) (Value, ctl)

type phiInfo struct {
	dst   int
	edges []opd
}

type block struct {
	code []Instr
	dsts []int
	src  []ssa.Instruction
	phis []phiInfo
}

// Fn is a compiled function.
type Fn struct {
	ssa      *ssa.Function
	name     string
	nregs    int
	nparams  int
	blocks   []block
	native   Native
	redirect *Fn
	once     sync.Once
	recoverB int
	compiled bool
	prog     *Program
	inRepo   bool
	hits     atomic.Int64
	isInit   bool
	err      string
}

// Program is the shared, compiled program.
type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	gmu      sync.Mutex
	gidx     map[*ssa.Global]int
	globals  []*ssa.Global
	methods  sync.Map
	repoMod  string
	redirect map[string]string
	runtErr  types.Type
	implMu   sync.Mutex
	implC    map[[2]types.Type]bool
}

func newProgram(p *ssa.Program, mod string) *Program {
	return &Program{prog: p, fns: map[*ssa.Function]*Fn{}, gidx: map[*ssa.Global]int{}, repoMod: mod, implC: map[[2]types.Type]bool{}}
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	return p.globalIndexLocked(g)
}

func (p *Program) globalIndexLocked(g *ssa.Global) int {
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	p.gidx[g] = i
	p.globals = append(p.globals, g)
	return i
}

// registerGlobals numbers all globals up front so the slices never move.
func (p *Program) registerGlobals() {
	for _, pkg := range p.prog.AllPackages() {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok {
				p.globalIndex(g)
			}
		}
	}
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	fn, ok := p.fns[f]
	if !ok {
		fn = &Fn{ssa: f, name: f.String(), prog: p, recoverB: -1}
		if f.Pkg != nil {
			fn.inRepo = strings.HasPrefix(f.Pkg.Pkg.Path(), p.repoMod) && !strings.Contains(f.Pkg.Pkg.Path(), "/verifsym")
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			fn.inRepo = strings.HasPrefix(f.Object().Pkg().Path(), p.repoMod) && !strings.Contains(f.Object().Pkg().Path(), "/verifsym")
		} else if f.Parent() != nil {
			fn.inRepo = p.fnInRepo(f.Parent())
		}
		p.fns[f] = fn
	}
	p.mu.Unlock()
	return fn
}

func (p *Program) fnInRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), p.repoMod) && !strings.Contains(f.Pkg.Pkg.Path(), "/verifsym")
}

// opd is an operand.
type opd struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int
	v Value
}

func (o *opd) get(m *M, fr *Frame) Value {
	switch o.k {
	case 0:
		v := fr.regs[o.i]
		if p, ok := v.(Poison); ok {
			panic(abortf("poison: %s", p.why))
		}
		return v
	case 1:
		return o.v
	}
	return m.global(o.i)
}

type compiler struct {
	p    *Program
	fn   *Fn
	regs map[ssa.Value]int
}

func (fn *Fn) ensure() {
	fn.once.Do(func() {
		fn.compile()
	})
}

func (fn *Fn) compile() {
	f := fn.ssa
	if nat := lookupNative(f); nat != nil {
		fn.native = nat
		return
	}
	if target := lookupRedirect(fn.prog, f); target != nil {
		fn.redirect = fn.prog.fn(target)
		fn.redirect.ensure()
		return
	}
	if f.Blocks == nil {
		name := fn.name
		fn.native = func(m *M, t *Thread, args []Value) (Value, ctl) {
			panic(abortf("no body: %s", name))
		}
		return
	}
	fn.isInit = f.Synthetic == "package initializer"
	c := &compiler{p: fn.prog, fn: fn, regs: map[ssa.Value]int{}}
	for _, pr := range f.Params {
		c.reg(pr)
	}
	fn.nparams = len(f.Params)
	for _, fv := range f.FreeVars {
		c.reg(fv)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				c.reg(v)
			}
		}
	}
	fn.blocks = make([]block, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &fn.blocks[bi]
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				pi := phiInfo{dst: c.reg(ph)}
				for _, e := range ph.Edges {
					pi.edges = append(pi.edges, c.op(e))
				}
				blk.phis = append(blk.phis, pi)
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			code := c.instr(ins)
			dst := -1
			if v, ok := ins.(ssa.Value); ok {
				dst = c.regs[v]
			}
			blk.code = append(blk.code, code)
			blk.dsts = append(blk.dsts, dst)
			blk.src = append(blk.src, ins)
		}
	}
	if f.Recover != nil {
		fn.recoverB = f.Recover.Index
	}
	fn.nregs = len(c.regs)
	fn.compiled = true
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := len(c.regs)
	c.regs[v] = i
	return i
}

func (c *compiler) op(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{k: 1, v: constValue(x)}
	case *ssa.Function:
		return opd{k: 1, v: c.p.fn(x)}
	case *ssa.Global:
		return opd{k: 2, i: c.p.globalIndex(x)}
	case *ssa.Builtin:
		return opd{k: 1, v: x}
	}
	return opd{k: 0, i: c.reg(v)}
}

func constValue(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		z := zeroInfoOf(t)
		return z.zero()
	}
	if tp, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(k.Value))
		case tp.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(v); ok {
				return mkInt(uint64(i) & mask(widthOf(t)))
			}
			u, _ := constant.Uint64Val(v)
			return mkInt(u & mask(widthOf(t)))
		case tp.Kind() == types.Float32:
			f, _ := constant.Float32Val(k.Value)
			return F32(f)
		case tp.Info()&types.IsFloat != 0:
			return F64(k.Float64())
		case tp.Info()&types.IsComplex != 0:
			return C128(k.Complex128())
		case tp.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		}
	}
	panic(fmt.Sprintf("constValue: %s", k))
}

func (fn *Fn) dst(fr *Frame) int {
	b := &fn.blocks[fr.block]
	if fr.pc < len(b.dsts) {
		return b.dsts[fr.pc]
	}
	return -1
}

func (fn *Fn) isTerminator(fr *Frame) bool {
	b := &fn.blocks[fr.block]
	if fr.pc >= len(b.src) {
		return true
	}
	switch b.src[fr.pc].(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		return true
	}
	return false
}

func (fn *Fn) posAt(fr *Frame) string {
	if !fn.compiled || fr.block >= len(fn.blocks) {
		return ""
	}
	b := &fn.blocks[fr.block]
	pc := fr.pc
	if pc >= len(b.src) {
		pc = len(b.src) - 1
	}
	for i := pc; i >= 0; i-- {
		if p := b.src[i].Pos(); p != token.NoPos {
			pp := fn.ssa.Prog.Fset.Position(p)
			return fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
		}
	}
	return ""
}

// jump transfers control to block b, entering by predecessor edge e.
func (m *M) jump(fr *Frame, b, e int) {
	blk := &fr.fn.blocks[b]
	switch len(blk.phis) {
	case 0:
	case 1:
		p := &blk.phis[0]
		v := &p.edges[e]
		if v.k == 0 {
			fr.regs[p.dst] = fr.regs[v.i]
		} else {
			fr.regs[p.dst] = v.get(m, fr)
		}
	default:
		var tmp [16]Value
		vals := tmp[:0]
		for i := range blk.phis {
			v := &blk.phis[i].edges[e]
			if v.k == 0 {
				vals = append(vals, fr.regs[v.i])
			} else {
				vals = append(vals, v.get(m, fr))
			}
		}
		for i := range blk.phis {
			fr.regs[blk.phis[i].dst] = vals[i]
		}
	}
	fr.block = b
	fr.pc = 0
}

// predEdge returns the index in to.Preds of the nth edge from "from".
func predEdge(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("predEdge")
}

func (c *compiler) instr(ins ssa.Instruction) Instr {
	switch x := ins.(type) {
	case *ssa.Alloc:
		z := zeroInfoOf(x.Type().Underlying().(*types.Pointer).Elem())
		dst := c.reg(x)
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = newVar(z)
			return ctlNext
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.call(x.Common(), c.reg(x))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var src opd
		if ci, ok := x.(*ssa.ChangeInterface); ok {
			src = c.op(ci.X)
		} else {
			src = c.op(x.(*ssa.ChangeType).X)
		}
		dst := c.reg(x.(ssa.Value))
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = src.get(m, fr)
			return ctlNext
		}
	case *ssa.Convert:
		return c.convert(x.X, x.Type(), c.reg(x))
	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), c.reg(x))
	case *ssa.Defer:
		prep := c.prepCall(x.Common())
		return func(m *M, t *Thread, fr *Frame) ctl {
			fv, args := prep(m, fr)
			fr.defers = append(fr.defers, deferRec{fv, args})
			return ctlNext
		}
	case *ssa.Extract:
		src := c.op(x.Tuple)
		i := x.Index
		dst := c.reg(x)
		return func(m *M, t *Thread, fr *Frame) ctl {
			tv := src.get(m, fr).(Tuple)
			fr.regs[dst] = tv[i]
			return ctlNext
		}
	case *ssa.Field:
		src := c.op(x.X)
		i := x.Field
		dst := c.reg(x)
		return func(m *M, t *Thread, fr *Frame) ctl {
			o := src.get(m, fr).(*Obj)
			fr.regs[dst] = o.slot(i)
			return ctlNext
		}
	case *ssa.FieldAddr:
		src := c.op(x.X)
		i := x.Field
		dst := c.reg(x)
		return func(m *M, t *Thread, fr *Frame) ctl {
			p := src.get(m, fr)
			o, ok := p.(*Obj)
			if !ok {
				if p == nil {
					return m.rtPanic(t, "invalid memory address or nil pointer dereference")
				}
				panic(abortf("FieldAddr on %T", p))
			}
			if i >= o.n || o.info.isArr {
				panic(abortf("FieldAddr type confusion"))
			}
			fr.regs[dst] = o.ptrTo(i)
			return ctlNext
		}
	case *ssa.Go:
		prep := c.prepCall(x.Common())
		return func(m *M, t *Thread, fr *Frame) ctl {
			fv, args := prep(m, fr)
			if m.initMode > 0 {
				return ctlNext
			}
			m.spawn(t, fv, args)
			fr.pc++
			if m.yieldPoint(t) {
				t.yielded = false
			}
			return ctlSwitch
		}
	case *ssa.If:
		cond := c.op(x.Cond)
		b := x.Block()
		tb, fb := b.Succs[0], b.Succs[1]
		te := predEdge(b, tb, 0)
		fe := 0
		if tb == fb {
			fe = predEdge(b, fb, 1)
		} else {
			fe = predEdge(b, fb, 0)
		}
		ti, fi := tb.Index, fb.Index
		return func(m *M, t *Thread, fr *Frame) ctl {
			v := cond.get(m, fr)
			var taken bool
			if i, ok := v.(Int); ok {
				taken = i != 0
			} else {
				taken = m.branch(v)
			}
			if taken {
				m.jump(fr, ti, te)
			} else {
				m.jump(fr, fi, fe)
			}
			return ctlSwitch
		}
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Jump:
		b := x.Block()
		to := b.Succs[0]
		e := predEdge(b, to, 0)
		ti := to.Index
		return func(m *M, t *Thread, fr *Frame) ctl {
			m.jump(fr, ti, e)
			return ctlSwitch
		}
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MakeChan:
		sz := c.op(x.Size)
		dst := c.reg(x)
		ez := zeroInfoOf(x.Type().Underlying().(*types.Chan).Elem())
		return func(m *M, t *Thread, fr *Frame) ctl {
			n := int(m.concretize(sz.get(m, fr)))
			fr.regs[dst] = m.newChan(n, ez)
			return ctlNext
		}
	case *ssa.MakeClosure:
		fn := c.p.fn(x.Fn.(*ssa.Function))
		dst := c.reg(x)
		var binds []opd
		for _, b := range x.Bindings {
			binds = append(binds, c.op(b))
		}
		return func(m *M, t *Thread, fr *Frame) ctl {
			cl := &Closure{fn: fn, bind: make([]Value, len(binds))}
			for i := range binds {
				cl.bind[i] = binds[i].get(m, fr)
			}
			fr.regs[dst] = cl
			return ctlNext
		}
	case *ssa.MakeInterface:
		src := c.op(x.X)
		dst := c.reg(x)
		ct := canon(x.X.Type())
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = Iface{ct, src.get(m, fr)}
			return ctlNext
		}
	case *ssa.MakeMap:
		dst := c.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = newMap(kt)
			return ctlNext
		}
	case *ssa.MakeSlice:
		ln, cp := c.op(x.Len), c.op(x.Cap)
		dst := c.reg(x)
		ez := zeroInfoOf(x.Type().Underlying().(*types.Slice).Elem())
		lt, ctt := x.Len.Type(), x.Cap.Type()
		return func(m *M, t *Thread, fr *Frame) ctl {
			l := sext(m.concretize(ln.get(m, fr)), widthOf(lt))
			k := sext(m.concretize(cp.get(m, fr)), widthOf(ctt))
			if l < 0 || l > 1<<40 {
				return m.rtPanic(t, "makeslice: len out of range")
			}
			if k < l || k > 1<<40 {
				return m.rtPanic(t, "makeslice: cap out of range")
			}
			fr.regs[dst] = Slice{newArr(ez, int(k)), 0, int(l), int(k)}
			return ctlNext
		}
	case *ssa.MapUpdate:
		mp, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(m *M, t *Thread, fr *Frame) ctl {
			mv, _ := mp.get(m, fr).(*Map)
			if mv == nil {
				return m.rtPanic(t, "assignment to entry in nil map")
			}
			m.mapSet(mv, k.get(m, fr), v.get(m, fr))
			return ctlNext
		}
	case *ssa.Next:
		return c.next(x)
	case *ssa.Panic:
		src := c.op(x.X)
		return func(m *M, t *Thread, fr *Frame) ctl {
			return m.goPanic(t, src.get(m, fr))
		}
	case *ssa.Range:
		src := c.op(x.X)
		dst := c.reg(x)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(m *M, t *Thread, fr *Frame) ctl {
				mv, _ := src.get(m, fr).(*Map)
				fr.regs[dst] = m.mapIter(mv)
				return ctlNext
			}
		}
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = &strIter{s: src.get(m, fr)}
			return ctlNext
		}
	case *ssa.Return:
		var rs []opd
		for _, r := range x.Results {
			rs = append(rs, c.op(r))
		}
		return func(m *M, t *Thread, fr *Frame) ctl {
			var res Value
			switch len(rs) {
			case 0:
			case 1:
				res = rs[0].get(m, fr)
			default:
				tv := make(Tuple, len(rs))
				for i := range rs {
					tv[i] = rs[i].get(m, fr)
				}
				res = tv
			}
			return m.ret(t, res)
		}
	case *ssa.RunDefers:
		return func(m *M, t *Thread, fr *Frame) ctl {
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				// the instruction is executed again after the call
				return m.callDeferred(t, d, false)
			}
			return ctlNext
		}
	case *ssa.Select:
		return c.sel(x)
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(m *M, t *Thread, fr *Frame) ctl {
			cv, _ := ch.get(m, fr).(*Chan)
			return m.chanSend(t, cv, v.get(m, fr))
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		src := c.op(x.X)
		dst := c.reg(x)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(m *M, t *Thread, fr *Frame) ctl {
			s := src.get(m, fr).(Slice)
			if s.len < n {
				return m.rtPanic(t, "slice to array pointer conversion out of range")
			}
			if s.off != 0 || s.o == nil || s.o.n != n {
				panic(abortf("slice to array pointer of a sub-slice"))
			}
			fr.regs[dst] = s.o
			return ctlNext
		}
	case *ssa.Store:
		addr, val := c.op(x.Addr), c.op(x.Val)
		return func(m *M, t *Thread, fr *Frame) ctl {
			p := addr.get(m, fr)
			if r, ok := p.(Ref); ok {
				m.st(r.o, r.i, val.get(m, fr))
				return ctlNext
			}
			if p == nil {
				return m.rtPanic(t, "invalid memory address or nil pointer dereference")
			}
			m.store(p, val.get(m, fr))
			return ctlNext
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	}
	s := fmt.Sprintf("%T", ins)
	return func(m *M, t *Thread, fr *Frame) ctl { panic(abortf("unsupported instruction %s", s)) }
}

func (c *compiler) unop(x *ssa.UnOp) Instr {
	src := c.op(x.X)
	dst := c.reg(x)
	w := widthOf(x.X.Type())
	switch x.Op {
	case token.MUL:
		z := isAgg(x.Type())
		return func(m *M, t *Thread, fr *Frame) ctl {
			p := src.get(m, fr)
			if r, ok := p.(Ref); ok {
				v := m.ld(r.o, r.i)
				fr.regs[dst] = v
				return ctlNext
			}
			if p == nil {
				return m.rtPanic(t, "invalid memory address or nil pointer dereference")
			}
			fr.regs[dst] = m.load(p, z)
			return ctlNext
		}
	case token.NOT:
		return func(m *M, t *Thread, fr *Frame) ctl {
			switch v := src.get(m, fr).(type) {
			case Int:
				fr.regs[dst] = mkBool(v == 0)
			case *Expr:
				fr.regs[dst] = simplifyOut(m.ctx.Not(v))
			}
			return ctlNext
		}
	case token.SUB:
		return func(m *M, t *Thread, fr *Frame) ctl {
			switch v := src.get(m, fr).(type) {
			case Int:
				fr.regs[dst] = mkInt(-uint64(v) & mask(w))
			case *Expr:
				fr.regs[dst] = simplifyOut(m.ctx.Neg(v))
			case F64:
				fr.regs[dst] = -v
			case SymF:
				fr.regs[dst] = SymF{m.ctx.Neg(v.num), v.den}
			case F32:
				fr.regs[dst] = -v
			default:
				panic(abortf("neg of %T", v))
			}
			return ctlNext
		}
	case token.XOR:
		return func(m *M, t *Thread, fr *Frame) ctl {
			switch v := src.get(m, fr).(type) {
			case Int:
				fr.regs[dst] = mkInt(^uint64(v) & mask(w))
			case *Expr:
				fr.regs[dst] = simplifyOut(m.ctx.BNot(v))
			}
			return ctlNext
		}
	case token.ARROW:
		commaOk := x.CommaOk
		ez := zeroInfoOf(x.X.Type().Underlying().(*types.Chan).Elem())
		return func(m *M, t *Thread, fr *Frame) ctl {
			cv, _ := src.get(m, fr).(*Chan)
			v, ok, c := m.chanRecv(t, cv)
			if c != ctlNext {
				return c
			}
			if v == nil && !ok {
				v = ez.zero()
			}
			if commaOk {
				fr.regs[dst] = Tuple{v, mkBool(ok)}
			} else {
				fr.regs[dst] = v
			}
			return ctlNext
		}
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) index(x *ssa.Index) Instr {
	src, idx := c.op(x.X), c.op(x.Index)
	dst := c.reg(x)
	it := x.Index.Type()
	_, isStr := x.X.Type().Underlying().(*types.Basic)
	return func(m *M, t *Thread, fr *Frame) ctl {
		v := src.get(m, fr)
		iv := idx.get(m, fr)
		var n int
		if isStr {
			n = strLen(v)
		} else {
			n = v.(*Obj).n
		}
		if e, ok := iv.(*Expr); ok {
			if !m.inBounds(e, it, n) {
				return m.rtPanic(t, "index out of range")
			}
			vals := make([]Value, n)
			for i := range vals {
				if isStr {
					vals[i] = strAt(v, i)
				} else {
					vals[i] = v.(*Obj).slot(i)
				}
				switch vals[i].(type) {
				case Int, *Expr:
				default:
					k := int(m.concretize(e))
					if isStr {
						fr.regs[dst] = strAt(v, k)
					} else {
						fr.regs[dst] = v.(*Obj).slot(k)
					}
					return ctlNext
				}
			}
			fr.regs[dst] = m.iteTable(vals, e, widthOf(x.Type()))
			return ctlNext
		}
		i := indexOf(iv.(Int), it)
		if i < 0 || i >= int64(n) {
			return m.rtPanic(t, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		if isStr {
			fr.regs[dst] = strAt(v, int(i))
		} else {
			fr.regs[dst] = v.(*Obj).slot(int(i))
		}
		return ctlNext
	}
}

// indexOf is the value of a concrete index.
func indexOf(i Int, t types.Type) int64 {
	if isSigned(t) {
		return sext(uint64(i), widthOf(t))
	}
	return int64(i)
}

// inBounds branches on 0 <= e < n.
func (m *M) inBounds(e *Expr, t types.Type, n int) bool {
	w := e.w
	if uint64(n) > mask(w) && !isSigned(t) {
		return true
	}
	if isSigned(t) && uint64(n) > mask(w)>>1 {
		return m.branch(simplifyOut(m.ctx.Not(m.ctx.Slt(e, m.ctx.Const(0, w)))))
	}
	return m.branch(simplifyOut(m.ctx.Ult(e, m.ctx.Const(uint64(n), w))))
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) Instr {
	src, idx := c.op(x.X), c.op(x.Index)
	dst := c.reg(x)
	it := x.Index.Type()
	iw := widthOf(it)
	sgn := isSigned(it)
	return func(m *M, t *Thread, fr *Frame) ctl {
		v := src.get(m, fr)
		var o *Obj
		var off, n int
		switch s := v.(type) {
		case Slice:
			o, off, n = s.o, s.off, s.len
		case *Obj:
			o, n = s, s.n
		case nil:
			return m.rtPanic(t, "invalid memory address or nil pointer dereference")
		default:
			panic(abortf("IndexAddr on %T", v))
		}
		iv := idx.get(m, fr)
		if e, ok := iv.(*Expr); ok {
			if !m.inBounds(e, it, n) {
				return m.rtPanic(t, fmt.Sprintf("index out of range (symbolic) with length %d", n))
			}
			if o.info.slotZero(0).agg {
				fr.regs[dst] = o.ptrTo(off + int(m.concretize(e)))
				return ctlNext
			}
			fr.regs[dst] = SymRef{o, off, n, e}
			return ctlNext
		}
		u := uint64(iv.(Int))
		i := int64(u)
		if sgn {
			i = sext(u, iw)
		}
		if i < 0 || i >= int64(n) {
			return m.rtPanic(t, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		k := off + int(i)
		if o.info.slotZero(k).agg {
			fr.regs[dst] = o.slot(k)
		} else {
			fr.regs[dst] = Ref{o, k}
		}
		return ctlNext
	}
}

func (c *compiler) slice(x *ssa.Slice) Instr {
	src := c.op(x.X)
	dst := c.reg(x)
	var lo, hi, mx *opd
	get := func(v ssa.Value) *opd {
		if v == nil {
			return nil
		}
		o := c.op(v)
		return &o
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	var lt, ht, mt types.Type
	if x.Low != nil {
		lt = x.Low.Type()
	}
	if x.High != nil {
		ht = x.High.Type()
	}
	if x.Max != nil {
		mt = x.Max.Type()
	}
	return func(m *M, t *Thread, fr *Frame) ctl {
		v := src.get(m, fr)
		num := func(o *opd, tt types.Type, def int) int64 {
			if o == nil {
				return int64(def)
			}
			return sext(m.concretize(o.get(m, fr)), widthOf(tt))
		}
		switch s := v.(type) {
		case string, *SymStr:
			n := strLen(s)
			l := num(lo, lt, 0)
			h := num(hi, ht, n)
			if h < 0 || h > int64(n) {
				return m.rtPanic(t, fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				return m.rtPanic(t, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = strSub(s, int(l), int(h))
			return ctlNext
		case nil:
			return m.rtPanic(t, "invalid memory address or nil pointer dereference")
		}
		var o *Obj
		var off, ln, cp int
		switch s := v.(type) {
		case Slice:
			o, off, ln, cp = s.o, s.off, s.len, s.cap
		case *Obj:
			o, ln, cp = s, s.n, s.n
		default:
			panic(abortf("slice of %T", v))
		}
		k := num(mx, mt, cp)
		if k < 0 || k > int64(cp) {
			return m.rtPanic(t, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", k, cp))
		}
		h := num(hi, ht, ln)
		if h < 0 || h > k {
			return m.rtPanic(t, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, k))
		}
		l := num(lo, lt, 0)
		if l < 0 || l > h {
			return m.rtPanic(t, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if o == nil {
			fr.regs[dst] = Slice{}
		} else {
			fr.regs[dst] = Slice{o, off + int(l), int(h - l), int(k - l)}
		}
		return ctlNext
	}
}
