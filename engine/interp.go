package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	fv   Value
	args []Value
}

// Frame is an activation record.
type Frame struct {
	fn      *Fn
	regs    []Value
	block   int
	pc      int
	caller  *Frame
	retDst  int
	defers  []deferRec
	isDefer bool      // called by RunDefers or panic unwinding
	pan     *panicRec // set when run by panic unwinding
	rem     *Frame    // frame whose remaining defers run after this one
}

type panicRec struct {
	val       Value
	recovered bool
	exit      bool   // runtime.Goexit
	fr        *Frame // frame whose defers are being run
	trace     []string
}

// Thread is an interpreted goroutine.
type Thread struct {
	id     int
	top    *Frame
	state  tstate
	panics []*panicRec

	// blocking
	ready    func() bool
	why      string
	waitSeq  int
	compIdx  int // completed case, -1 none
	compVal  Value
	compOK   bool
	woken    bool
	yielded  bool
	idleWait bool
	lockWait bool
	start    func() ctl // a native goroutine body

	vc vclock
}

type tstate uint8

const (
	tRunnable tstate = iota
	tBlocked
	tDone
)

func (m *M) pushFrame(t *Thread, fn *Fn, args []Value, bind []Value, retDst int) *Frame {
	fn.ensure()
	if fn.redirect != nil {
		fn = fn.redirect
	}
	fr := &Frame{fn: fn, regs: make([]Value, fn.nregs), caller: t.top, retDst: retDst}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], bind)
	t.top = fr
	if fn.inRepo {
		fn.hits.Add(1)
	}
	depth := 0
	if m.steps&1023 == 0 {
		for f := fr; f != nil; f = f.caller {
			depth++
		}
		if depth > 5000 {
			panic(abortf("stack overflow"))
		}
	}
	return fr
}

func (m *M) popFrame(t *Thread) {
	t.top = t.top.caller
}

// step executes one instruction of t.
func (m *M) step(t *Thread) ctl {
	fr := t.top
	m.steps++
	if m.steps > m.stepLimit {
		m.truncated = "step limit"
		if m.initMode == 0 && m.undecided == 0 {
			// reported only if the native run does not end either
			m.violation("no-termination", "", m.model)
		}
		m.endPath("steplimit")
	}
	ins := fr.fn.blocks[fr.block].code[fr.pc]
	c := ins(m, t, fr)
	if c == ctlNext {
		fr.pc++
	}
	return c
}

// invoke calls fv with args; the result goes to register dst of the current frame.
func (m *M) invoke(t *Thread, fv Value, args []Value, dst int) ctl {
	var fn *Fn
	var bind []Value
	switch f := fv.(type) {
	case *Fn:
		fn = f
	case *Closure:
		fn, bind = f.fn, f.bind
	case *NativeFn:
		v, c := f.f(m, t, args)
		if c == ctlNext && dst >= 0 {
			t.top.regs[dst] = v
		}
		return c
	case nil:
		return m.rtPanic(t, "invalid memory address or nil pointer dereference")
	default:
		panic(abortf("call of %T", fv))
	}
	fn.ensure()
	if fn.redirect != nil {
		fn = fn.redirect
	}
	if fn.native != nil {
		if len(bind) > 0 {
			args = append(append([]Value{}, args...), bind...)
		}
		v, c := fn.native(m, t, args)
		if c == ctlNext && dst >= 0 {
			t.top.regs[dst] = v
		}
		return c
	}
	if fn.isInit && m.initMode > 0 && t.top != nil && t.top.fn.isInit {
		return ctlNext // initialisers of other packages run lazily
	}
	t.top.pc++
	m.pushFrame(t, fn, args, bind, dst)
	return ctlSwitch
}

func (c *compiler) prepCall(cc *ssa.CallCommon) func(m *M, fr *Frame) (Value, []Value) {
	args := make([]opd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	val := c.op(cc.Value)
	if cc.IsInvoke() {
		meth := cc.Method
		return func(m *M, fr *Frame) (Value, []Value) {
			iv := val.get(m, fr)
			itf, ok := iv.(Iface)
			if !ok {
				panic(abortf("invoke on %T", iv))
			}
			if itf.t == nil {
				return nil, nil
			}
			fn := m.prog.method(itf.t, meth)
			av := make([]Value, 1+len(args))
			av[0] = itf.v
			for i := range args {
				av[i+1] = args[i].get(m, fr)
			}
			return fn, av
		}
	}
	return func(m *M, fr *Frame) (Value, []Value) {
		av := make([]Value, len(args))
		for i := range args {
			av[i] = args[i].get(m, fr)
		}
		return val.get(m, fr), av
	}
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, meth *types.Func) Value {
	k := methKey{t, meth}
	if v, ok := p.methods.Load(k); ok {
		return v
	}
	f := p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(abortf("no method %s on %s", meth.Name(), t))
	}
	fn := p.fn(f)
	p.methods.Store(k, fn)
	return fn
}

func (c *compiler) call(cc *ssa.CallCommon, dst int) Instr {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc, dst)
	}
	prep := c.prepCall(cc)
	if !cc.IsInvoke() {
		if f, ok := cc.Value.(*ssa.Function); ok {
			fn := c.p.fn(f)
			args := make([]opd, len(cc.Args))
			for i, a := range cc.Args {
				args[i] = c.op(a)
			}
			return func(m *M, t *Thread, fr *Frame) ctl {
				av := make([]Value, len(args))
				for i := range args {
					av[i] = args[i].get(m, fr)
				}
				return m.invoke(t, fn, av, dst)
			}
		}
	}
	return func(m *M, t *Thread, fr *Frame) ctl {
		fv, args := prep(m, fr)
		return m.invoke(t, fv, args, dst)
	}
}

// ret returns from the top frame of t.
func (m *M) ret(t *Thread, res Value) ctl {
	fr := t.top
	if fr.fn.inRepo && fr.caller == nil {
		// goroutine root
	}
	t.top = fr.caller
	if fr.pan != nil {
		return m.afterPanicDefer(t, fr.pan)
	}
	if fr.rem != nil {
		return m.runRemaining(t, fr.rem)
	}
	if t.top == nil {
		return ctlEnd
	}
	if fr.retDst >= 0 {
		t.top.regs[fr.retDst] = res
	}
	return ctlSwitch
}

// callDeferred runs a deferred call; when it returns control comes back to the
// current instruction of the frame below (RunDefers) or to the unwinder.
func (m *M) callDeferred(t *Thread, d deferRec, pan bool) ctl {
	var rec *panicRec
	if pan {
		rec = t.panics[len(t.panics)-1]
	}
	if b, ok := d.fv.(*ssa.Builtin); ok {
		t.yielded = pan // no switch in the middle of unwinding
		c := m.deferredBuiltin(t, b, d.args)
		if c == ctlSwitch && t.yielded && !pan {
			t.top.defers = append(t.top.defers, d)
			return c
		}
		t.yielded = false
		if c != ctlNext {
			return c
		}
		if pan {
			return m.afterPanicDefer(t, rec)
		}
		return ctlSwitch
	}
	fv := d.fv
	var fn *Fn
	var bind []Value
	switch f := fv.(type) {
	case *Fn:
		fn = f
	case *Closure:
		fn, bind = f.fn, f.bind
	case *NativeFn:
		fn = &Fn{native: f.f}
		fn.once.Do(func() {})
	case nil:
		return m.rtPanic(t, "invalid memory address or nil pointer dereference")
	default:
		panic(abortf("defer of %T", fv))
	}
	fn.ensure()
	if fn.redirect != nil {
		fn = fn.redirect
	}
	if fn.native != nil {
		if pan {
			t.yielded = true // no switch in the middle of unwinding
		}
		_, c := fn.native(m, t, d.args)
		if c == ctlBlock || (c == ctlSwitch && t.yielded && !pan) {
			t.top.defers = append(t.top.defers, d)
			return c
		}
		t.yielded = false
		if c == ctlEnd {
			return c
		}
		if c == ctlSwitch {
			// the native itself panicked and unwound
			return c
		}
		if pan {
			return m.afterPanicDefer(t, rec)
		}
		return ctlSwitch
	}
	fr := m.pushFrame(t, fn, d.args, bind, -1)
	fr.isDefer = true
	fr.pan = rec
	return ctlSwitch
}

// goPanic starts panicking on t with the interface value v.
func (m *M) goPanic(t *Thread, v Value) ctl {
	if iv, ok := v.(Iface); !ok || iv.t == nil {
		v = m.rtError("panic called with nil argument")
	}
	if m.initMode > 0 {
		panic(abortf("panic in init"))
	}
	rec := &panicRec{val: v, trace: m.stackTrace()}
	t.panics = append(t.panics, rec)
	rec.fr = t.top
	return m.unwind(t, rec)
}

// goexit runs the deferred calls of t and ends it.
func (m *M) goexit(t *Thread) ctl {
	rec := &panicRec{exit: true, fr: t.top}
	t.panics = append(t.panics, rec)
	return m.unwind(t, rec)
}

func (m *M) unwind(t *Thread, rec *panicRec) ctl {
	for {
		fr := t.top
		if fr == nil {
			// unrecovered
			if m.initMode > 0 {
				panic(abortf("panic in init"))
			}
			if rec.exit {
				return ctlEnd
			}
			m.crash(t, rec)
			return ctlEnd
		}
		rec.fr = fr
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return m.callDeferred(t, d, true)
		}
		// leave this frame
		t.top = fr.caller
		if fr.pan != nil {
			// a deferred call run by an outer panic panicked: the outer panic is replaced
			outer := fr.pan
			for i, p := range t.panics {
				if p == outer {
					t.panics = append(t.panics[:i], t.panics[i+1:]...)
					break
				}
			}
		}
	}
}

func (m *M) afterPanicDefer(t *Thread, rec *panicRec) ctl {
	fr := rec.fr
	if !rec.recovered {
		return m.unwind(t, rec)
	}
	for i, p := range t.panics {
		if p == rec {
			t.panics = append(t.panics[:i], t.panics[i+1:]...)
			break
		}
	}
	// run the remaining defers and return normally
	if fr.fn.recoverB >= 0 {
		fr.block, fr.pc = fr.fn.recoverB, 0
		if len(fr.defers) > 0 {
			return m.runRemaining(t, fr)
		}
		return ctlSwitch
	}
	if len(fr.defers) > 0 {
		return m.runRemaining(t, fr)
	}
	return m.ret(t, zeroResult(fr.fn.ssa))
}

// runRemaining pushes the remaining deferred calls of a recovered frame.
func (m *M) runRemaining(t *Thread, fr *Frame) ctl {
	for len(fr.defers) > 0 {
		n := len(fr.defers)
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		var fn *Fn
		var bind []Value
		switch f := d.fv.(type) {
		case *Fn:
			fn = f
		case *Closure:
			fn, bind = f.fn, f.bind
		case *ssa.Builtin:
			t.yielded = true
			if c := m.deferredBuiltin(t, f, d.args); c != ctlNext {
				return c
			}
			t.yielded = false
			continue
		default:
			panic(abortf("defer of %T after recover", d.fv))
		}
		fn.ensure()
		if fn.redirect != nil {
			fn = fn.redirect
		}
		if fn.native != nil {
			t.yielded = true
			_, c := fn.native(m, t, d.args)
			t.yielded = false
			if c != ctlNext {
				panic(abortf("blocking native deferred after recover"))
			}
			continue
		}
		nf := m.pushFrame(t, fn, d.args, bind, -1)
		nf.rem = fr
		return ctlSwitch
	}
	if fr.fn.recoverB >= 0 {
		return ctlSwitch
	}
	return m.ret(t, zeroResult(fr.fn.ssa))
}

func zeroResult(f *ssa.Function) Value {
	rs := f.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zeroInfoOf(rs.At(0).Type()).zero()
	}
	tv := make(Tuple, rs.Len())
	for i := range tv {
		tv[i] = zeroInfoOf(rs.At(i).Type()).zero()
	}
	return tv
}

// rtError makes a runtime.Error value.
func (m *M) rtError(msg string) Value {
	return Iface{m.prog.runtErr, msg}
}

func (m *M) rtPanic(t *Thread, msg string) ctl {
	return m.goPanic(t, m.rtError("runtime error: "+msg))
}

func (m *M) panicString(v Value) string {
	iv, ok := v.(Iface)
	if !ok {
		return "?"
	}
	switch x := iv.v.(type) {
	case string, *SymStr:
		return m.concreteVal(x)
	case *Obj:
		if len(x.f) > 0 {
			switch x.f[0].(type) {
			case string, *SymStr:
				return iv.t.String() + ": " + m.concreteVal(x.f[0])
			}
		}
	}
	return iv.t.String()
}

// crash handles an unrecovered panic.
func (m *M) crash(t *Thread, rec *panicRec) {
	det := "unrecovered panic: " + m.panicString(rec.val)
	m.ex.obligations.Add(1)
	saved := m.cur
	m.violation("crash", det, m.model)
	if n := len(m.failed); n > 0 {
		m.failed[n-1].Trace = rec.trace
	}
	m.cur = saved
	m.endPath("crash")
}

// ---- interfaces ---------------------------------------------------------

func (p *Program) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	p.implMu.Lock()
	defer p.implMu.Unlock()
	if v, ok := p.implC[k]; ok {
		return v
	}
	r := types.Implements(t, it)
	p.implC[k] = r
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) Instr {
	src := c.op(x.X)
	dst := c.reg(x)
	at := canon(x.AssertedType)
	it, isItf := x.AssertedType.Underlying().(*types.Interface)
	z := zeroInfoOf(x.AssertedType)
	commaOk := x.CommaOk
	return func(m *M, t *Thread, fr *Frame) ctl {
		iv, ok := src.get(m, fr).(Iface)
		if !ok {
			panic(abortf("type assert on non-interface"))
		}
		match := false
		var res Value
		if iv.t != nil {
			if isItf {
				match = m.prog.implements(iv.t, it, at)
				res = iv
			} else {
				match = iv.t == at
				res = iv.v
			}
		}
		if commaOk {
			if !match {
				res = z.zero()
			}
			fr.regs[dst] = Tuple{res, mkBool(match)}
			return ctlNext
		}
		if !match {
			return m.rtPanic(t, fmt.Sprintf("interface conversion: %v is not %v", iv.t, at))
		}
		fr.regs[dst] = res
		return ctlNext
	}
}

// ---- maps ---------------------------------------------------------------

func newMap(kt types.Type) *Map {
	return &Map{idx: map[any]*mapEntry{}, kt: kt}
}

// hashKey returns a comparable representation of a concrete key.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case Int, string, F64, F32, Ref:
		return x, true
	case *Expr, *SymStr:
		return nil, false
	case *Obj:
		if x == nil {
			return nil, true
		}
		return x, true // pointer identity; struct keys are handled by the caller
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case nil:
		return nil, true
	case *Chan, *Map, *Fn, *Closure:
		return x, true
	}
	return nil, false
}

func (m *M) keyHash(mp *Map, k Value) (any, bool) {
	if isAgg(mp.kt) {
		o := k.(*Obj)
		s := ""
		for i := 0; i < o.n; i++ {
			h, ok := hashKey(o.slot(i))
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", h, h)
		}
		return s, true
	}
	if iv, ok := k.(Iface); ok && iv.t != nil && isAgg(iv.t) {
		return nil, false
	}
	return hashKey(k)
}

func (m *M) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	h, ok := m.keyHash(mp, k)
	if ok {
		if e := mp.idx[h]; e != nil {
			return e
		}
		if mp.symKeys == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.deleted {
			continue
		}
		if ok {
			if _, c := m.keyHash(mp, e.k); c {
				continue // both concrete and different
			}
		}
		if m.branch(m.eqVals(mp.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mp *Map, k, v Value) {
	if m.raceOn {
		m.raceMap(mp, true)
	}
	if e := m.mapFind(mp, k); e != nil {
		if mp.pre && m.initMode == 0 {
			old := e.v
			m.undo = append(m.undo, undoRec{f: func() { e.v = old }})
		}
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	h, ok := m.keyHash(mp, k)
	mp.entries = append(mp.entries, e)
	mp.n++
	if ok {
		mp.idx[h] = e
	} else {
		mp.symKeys++
	}
	if mp.pre && m.initMode == 0 {
		m.undo = append(m.undo, undoRec{f: func() {
			mp.entries = mp.entries[:len(mp.entries)-1]
			mp.n--
			if ok {
				delete(mp.idx, h)
			} else {
				mp.symKeys--
			}
		}})
	}
}

func (m *M) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	if m.raceOn {
		m.raceMap(mp, true)
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	if mp.pre && m.initMode == 0 {
		panic(abortf("delete from a shared map"))
	}
	e.deleted = true
	mp.n--
	if h, ok := m.keyHash(mp, e.k); ok {
		delete(mp.idx, h)
	} else {
		mp.symKeys--
	}
	out := mp.entries[:0:0]
	for _, x := range mp.entries {
		if x != e {
			out = append(out, x)
		}
	}
	mp.entries = out
}

type mapIterV struct {
	es []*mapEntry
	i  int
}

type strIter struct {
	s Value
	i int
}

func (m *M) mapIter(mp *Map) *mapIterV {
	it := &mapIterV{}
	if mp != nil {
		if m.raceOn {
			m.raceMap(mp, false)
		}
		it.es = append(it.es, mp.entries...)
		if m.mapOrder == 1 && m.initMode == 0 {
			for i, j := 0, len(it.es)-1; i < j; i, j = i+1, j-1 {
				it.es[i], it.es[j] = it.es[j], it.es[i]
			}
		}
	}
	return it
}

func (c *compiler) next(x *ssa.Next) Instr {
	src := c.op(x.Iter)
	dst := c.reg(x)
	tt := x.Type().(*types.Tuple)
	kz, vz := zeroInfoOf(invalidToInt(tt.At(1).Type())), zeroInfoOf(invalidToInt(tt.At(2).Type()))
	return func(m *M, t *Thread, fr *Frame) ctl {
		switch it := src.get(m, fr).(type) {
		case *mapIterV:
			for it.i < len(it.es) {
				e := it.es[it.i]
				it.i++
				if e.deleted {
					continue
				}
				fr.regs[dst] = Tuple{vTrue, e.k, e.v}
				return ctlNext
			}
			fr.regs[dst] = Tuple{vFalse, kz.zero(), vz.zero()}
		case *strIter:
			n := strLen(it.s)
			if it.i >= n {
				fr.regs[dst] = Tuple{vFalse, vFalse, vFalse}
				return ctlNext
			}
			i := it.i
			r, size := m.decodeRune(it.s, i)
			it.i += size
			fr.regs[dst] = Tuple{vTrue, mkInt(uint64(i)), r}
		}
		return ctlNext
	}
}

func invalidToInt(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}

// decodeRune decodes the rune of s at i, forking on symbolic bytes.
func (m *M) decodeRune(s Value, i int) (Value, int) {
	b0 := strAt(s, i)
	if e, ok := b0.(*Expr); ok {
		if m.branch(simplifyOut(m.ctx.Ult(e, m.ctx.Const(0x80, 8)))) {
			return simplifyOut(m.ctx.ZExt(e, 32)), 1
		}
	} else if b0.(Int) < 0x80 {
		return b0, 1
	}
	// multi-byte: make the bytes concrete
	n := strLen(s)
	var buf [4]byte
	k := 0
	for ; k < 4 && i+k < n; k++ {
		buf[k] = byte(m.concretize(strAt(s, i+k)))
		if k == 0 && buf[0] < 0xC0 {
			k++
			break
		}
	}
	r, size := decodeRuneBytes(buf[:k])
	return mkInt(uint64(uint32(r))), size
}

func (c *compiler) lookup(x *ssa.Lookup) Instr {
	mp, k := c.op(x.X), c.op(x.Index)
	dst := c.reg(x)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		it := x.Index.Type()
		return func(m *M, t *Thread, fr *Frame) ctl {
			s := mp.get(m, fr)
			iv := k.get(m, fr)
			n := strLen(s)
			if e, ok := iv.(*Expr); ok {
				if !m.inBounds(e, it, n) {
					return m.rtPanic(t, "index out of range")
				}
				fr.regs[dst] = m.iteTable(strBytes(s), e, 8)
				return ctlNext
			}
			i := indexOf(iv.(Int), it)
			if i < 0 || i >= int64(n) {
				return m.rtPanic(t, fmt.Sprintf("index out of range [%d] with length %d", i, n))
			}
			fr.regs[dst] = strAt(s, int(i))
			return ctlNext
		}
	}
	vz := zeroInfoOf(x.X.Type().Underlying().(*types.Map).Elem())
	commaOk := x.CommaOk
	return func(m *M, t *Thread, fr *Frame) ctl {
		mv, _ := mp.get(m, fr).(*Map)
		if m.raceOn && mv != nil {
			m.raceMap(mv, false)
		}
		e := m.mapFind(mv, k.get(m, fr))
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = vz.zero()
		}
		if commaOk {
			fr.regs[dst] = Tuple{v, mkBool(e != nil)}
		} else {
			fr.regs[dst] = v
		}
		return ctlNext
	}
}

// ---- equality -----------------------------------------------------------

func (m *M) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return mkBool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return vFalse
	}
	x, y := strBytes(a), strBytes(b)
	r := m.ctx.T
	for i := range x {
		xi, ok1 := x[i].(Int)
		yi, ok2 := y[i].(Int)
		if ok1 && ok2 {
			if xi != yi {
				return vFalse
			}
			continue
		}
		r = m.ctx.And(r, m.ctx.Eq(m.ctx.toExpr(x[i], 8), m.ctx.toExpr(y[i], 8)))
		if r.isConst() && r.k == 0 {
			return vFalse
		}
	}
	return simplifyOut(r)
}

// strLess compares two strings, forking as needed. It returns -1, 0, 1.
func (m *M) strCmp(a, b Value) int {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	x, y := strBytes(a), strBytes(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		xe, ye := m.ctx.toExpr(x[i], 8), m.ctx.toExpr(y[i], 8)
		if m.decide(m.ctx.Eq(xe, ye)) {
			continue
		}
		if m.decide(m.ctx.Ult(xe, ye)) {
			return -1
		}
		return 1
	}
	switch {
	case len(x) < len(y):
		return -1
	case len(x) > len(y):
		return 1
	}
	return 0
}

func (m *M) andV(a, b Value) Value {
	if x, ok := a.(Int); ok {
		if x == 0 {
			return vFalse
		}
		return b
	}
	if y, ok := b.(Int); ok {
		if y == 0 {
			return vFalse
		}
		return a
	}
	return simplifyOut(m.ctx.And(a.(*Expr), b.(*Expr)))
}

// eqVals compares two values of static type t.
func (m *M) eqVals(t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case Int:
		if y, ok := b.(Int); ok {
			return mkBool(x == y)
		}
		if y, ok := b.(*Expr); ok {
			return simplifyOut(m.ctx.Eq(y, m.ctx.Const(uint64(x), y.w)))
		}
	case *Expr:
		return simplifyOut(m.ctx.Eq(x, m.ctx.toExpr(b, x.w)))
	case string, *SymStr:
		return m.strEq(a, b)
	case F64:
		if _, sym := b.(SymF); sym {
			return m.ratOp(token.EQL, x, b)
		}
		return mkBool(x == b.(F64))
	case SymF:
		return m.ratOp(token.EQL, x, b)
	case F32:
		return mkBool(x == b.(F32))
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return vFalse
		}
		if x.t == nil {
			return vTrue
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			panic(abortf("comparison of uncomparable dynamic type"))
		}
		return m.eqVals(x.t, x.v, y.v)
	case *Obj:
		y, ok := b.(*Obj)
		if !ok {
			return vFalse
		}
		if !isAgg(t) {
			return mkBool(x == y)
		}
		r := vTrue
		for i := 0; i < x.n; i++ {
			r = m.andV(r, m.eqVals(x.info.slotZero(i).t, x.slot(i), y.slot(i)))
		}
		return r
	case Ref:
		y, ok := b.(Ref)
		return mkBool(ok && x == y)
	case nil:
		return mkBool(b == nil)
	case *Chan:
		y, ok := b.(*Chan)
		return mkBool(ok && x == y)
	case *Map:
		return mkBool(b != nil && b.(*Map) == x)
	case *Fn, *Closure, *NativeFn:
		return mkBool(b != nil && a == b)
	case Slice:
		y := b.(Slice)
		return mkBool(x.o == nil && y.o == nil)
	}
	panic(abortf("eqVals %T %T", a, b))
}

var _ sync.Mutex
