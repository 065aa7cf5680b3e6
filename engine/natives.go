package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var symPkg = "github.com/jumptrading/influx-spout/v2/verifsym"

var natives = map[string]Native{}

// redirects maps functions to plain Go replacements in the verifsym packages.
var redirects = map[string]string{}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func lookupNative(f *ssa.Function) Native {
	k := fnKey(f)
	if n, ok := natives[k]; ok {
		return n
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "log" && f.Parent() == nil {
		return logNative(f)
	}
	return nil
}

func logNative(f *ssa.Function) Native {
	n := f.Name()
	switch {
	case strings.HasPrefix(n, "Fatal"):
		return func(m *M, t *Thread, args []Value) (Value, ctl) {
			m.violation("crash", "log."+n+" called: the process exits", m.model)
			m.endPath("crash")
			return nil, ctlEnd
		}
	case strings.HasPrefix(n, "Panic"):
		return func(m *M, t *Thread, args []Value) (Value, ctl) {
			return nil, m.goPanic(t, m.rtError("log."+n))
		}
	}
	if f.Name() == "init" {
		return nil
	}
	sig := f.Signature
	return func(m *M, t *Thread, args []Value) (Value, ctl) {
		switch sig.Results().Len() {
		case 0:
			return nil, ctlNext
		case 1:
			return zeroInfoOf(sig.Results().At(0).Type()).zero(), ctlNext
		}
		return zeroResult(f), ctlNext
	}
}

func lookupRedirect(p *Program, f *ssa.Function) *ssa.Function {
	k := fnKey(f)
	to, ok := redirects[k]
	if !ok {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" && f.Signature.Recv() == nil && f.Parent() == nil && f.Name() != "init" {
			to = "vfmt." + f.Name()
		} else {
			return nil
		}
	}
	parts := strings.SplitN(to, ".", 2)
	pkg := p.prog.ImportedPackage(symPkg + "/" + parts[0])
	if pkg == nil {
		panic(abortf("package %s is not loaded", parts[0]))
	}
	r := pkg.Func(parts[1])
	if r == nil {
		return nil
	}
	return r
}

func simple(f func(m *M, args []Value) Value) Native {
	return func(m *M, t *Thread, args []Value) (Value, ctl) { return f(m, args), ctlNext }
}

func nop(m *M, t *Thread, args []Value) (Value, ctl) { return nil, ctlNext }

func ret(v Value) Native {
	return func(m *M, t *Thread, args []Value) (Value, ctl) { return v, ctlNext }
}

func (m *M) typeByName(pkg, name string) types.Type {
	p := m.prog.prog.ImportedPackage(pkg)
	if p == nil {
		panic(abortf("package %s not loaded", pkg))
	}
	return p.Type(name).Type()
}

func (m *M) cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(abortf("symbolic string where a constant is needed"))
	}
	return s
}

func init() {
	redirects[symPkg+".CaptureStdout"] = "vfmt.CaptureStdout"
	redirects[symPkg+".Stdout"] = "vfmt.Stdout"
	redirects["(*os.File).Write"] = "vfmt.FileWrite"
	redirects["(*os.File).WriteString"] = "vfmt.FileWriteString"
	redirects["internal/bytealg.IndexByte"] = "vrt.IndexByte"
	redirects["internal/bytealg.IndexByteString"] = "vrt.IndexByteString"
	redirects["internal/bytealg.Count"] = "vrt.Count"
	redirects["internal/bytealg.CountString"] = "vrt.CountString"
	redirects["internal/bytealg.Compare"] = "vrt.Compare"
	redirects["internal/bytealg.CompareString"] = "vrt.CompareString"
	redirects["bytes.Index"] = "vrt.Index"
	redirects["strings.Index"] = "vrt.IndexString"
	redirects["internal/stringslite.Index"] = "vrt.IndexString"
	redirects["errors.Is"] = "vrt.ErrorsIs"
	redirects["errors.As"] = "vrt.ErrorsAs"
	natives[symPkg+"/vrt.assignTo"] = simple(func(m *M, a []Value) Value {
		to, x := a[0].(Iface), a[1].(Iface)
		if to.t == nil || x.t == nil {
			return mkBool(false)
		}
		pt, ok := to.t.Underlying().(*types.Pointer)
		if !ok {
			panic(abortf("errors.As target is not a pointer"))
		}
		el := canon(pt.Elem())
		if it, ok := el.Underlying().(*types.Interface); ok {
			if !m.prog.implements(x.t, it, el) {
				return mkBool(false)
			}
			m.store(to.v, x)
			return mkBool(true)
		}
		if x.t != el {
			return mkBool(false)
		}
		m.store(to.v, x.v)
		return mkBool(true)
	})
	redirects["(*sync.Pool).Get"] = "vrt.PoolGet"
	redirects["(*sync.Pool).Put"] = "vrt.PoolPut"
	redirects["bytes.IndexAny"] = "vrt.IndexAny"
	redirects["bytes.ContainsAny"] = "vrt.ContainsAny"
	redirects["strings.IndexAny"] = "vrt.IndexAnyString"

	natives["(*strings.Builder).copyCheck"] = nop
	natives["internal/abi.NoEscape"] = simple(func(m *M, a []Value) Value { return a[0] })
	natives["internal/abi.Escape"] = simple(func(m *M, a []Value) Value { return a[0] })
	natives["internal/bytealg.Equal"] = bytesEqual
	natives["bytes.Equal"] = bytesEqual
	natives["internal/bytealg.MakeNoZero"] = simple(func(m *M, a []Value) Value {
		n := int(m.concretize(a[0]))
		return Slice{newArr(byteZ(), n), 0, n, n}
	})

	// sync
	natives["(*sync.Mutex).Lock"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.mutexLock(t, mustObj(a[0])) }
	natives["(*sync.Mutex).Unlock"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.mutexUnlock(t, mustObj(a[0])) }
	natives["(*sync.Mutex).TryLock"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		return mkBool(m.mutexTryLock(t, mustObj(a[0]))), ctlNext
	}
	natives["(*sync.RWMutex).Lock"] = natives["(*sync.Mutex).Lock"]
	natives["(*sync.RWMutex).Unlock"] = natives["(*sync.Mutex).Unlock"]
	natives["(*sync.RWMutex).RLock"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.mutexRLock(t, mustObj(a[0])) }
	natives["(*sync.RWMutex).RUnlock"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.mutexRUnlock(t, mustObj(a[0])) }
	natives["(*sync.WaitGroup).Add"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		return nil, m.wgAdd(t, mustObj(a[0]), int(int64(m.concretize(a[1]))))
	}
	natives["(*sync.WaitGroup).Done"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.wgAdd(t, mustObj(a[0]), -1) }
	natives["(*sync.WaitGroup).Wait"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.wgWait(t, mustObj(a[0])) }

	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			natives[pk+"Load"+ty] = atomicOp(func(m *M, r Ref, a []Value) Value { return m.ld(r.o, r.i) })
			natives[pk+"Store"+ty] = atomicOp(func(m *M, r Ref, a []Value) Value { m.st(r.o, r.i, a[1]); return nil })
			natives[pk+"Swap"+ty] = atomicOp(func(m *M, r Ref, a []Value) Value {
				old := m.ld(r.o, r.i)
				m.st(r.o, r.i, a[1])
				return old
			})
			natives[pk+"CompareAndSwap"+ty] = atomicOp(func(m *M, r Ref, a []Value) Value {
				old := m.ld(r.o, r.i)
				tt := types.Typ[types.Uint64]
				if m.branch(m.eqVals(tt, old, a[1])) {
					m.st(r.o, r.i, a[2])
					return vTrue
				}
				return vFalse
			})
			natives[pk+"Add"+ty] = atomicOp(func(m *M, r Ref, a []Value) Value {
				nv := m.addV(m.ld(r.o, r.i), a[1], w)
				m.st(r.o, r.i, nv)
				return nv
			})
		}
	}
	natives["(*sync/atomic.Value).Load"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		r := Ref{mustObj(a[0]), 0}
		return atomicOp(func(m *M, r Ref, a []Value) Value { return m.ld(r.o, r.i) })(m, t, []Value{r})
	}
	natives["(*sync/atomic.Value).Store"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		r := Ref{mustObj(a[0]), 0}
		return atomicOp(func(m *M, r Ref, a []Value) Value { m.st(r.o, r.i, a[1]); return nil })(m, t, []Value{r, a[1]})
	}

	// runtime, os
	natives["runtime.GC"] = nop
	natives["runtime.Caller"] = ret(Tuple{mkInt(0), "", mkInt(0), mkBool(false)})
	natives["runtime.Callers"] = ret(mkInt(0))
	natives["(*internal/godebug.Setting).Value"] = ret("")
	natives["(*internal/godebug.Setting).IncNonDefault"] = nop
	natives["runtime.KeepAlive"] = nop
	natives["runtime.SetFinalizer"] = nop
	natives["runtime.Goexit"] = func(m *M, t *Thread, a []Value) (Value, ctl) { return nil, m.goexit(t) }
	natives["runtime.Gosched"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		if m.yieldPoint(t) {
			return nil, ctlSwitch
		}
		return nil, ctlNext
	}
	natives["runtime.GOMAXPROCS"] = ret(mkInt(4))
	natives["runtime.NumCPU"] = ret(mkInt(4))
	natives["os.Getpagesize"] = ret(mkInt(4096))
	natives["os.Hostname"] = ret(Tuple{"verifhost", Iface{}})
	natives["os.Getenv"] = simple(func(m *M, a []Value) Value {
		if v, ok := m.extra["env:"+m.cstr(a[0])]; ok {
			return v
		}
		return ""
	})
	natives["os.LookupEnv"] = simple(func(m *M, a []Value) Value {
		if v, ok := m.extra["env:"+m.cstr(a[0])]; ok {
			return Tuple{v, true}
		}
		return Tuple{"", false}
	})
	natives["os.Setenv"] = simple(func(m *M, a []Value) Value {
		m.extra["env:"+m.cstr(a[0])] = a[1]
		return Iface{}
	})
	natives["os.Exit"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.violation("crash", "os.Exit called", m.model)
		m.endPath("crash")
		return nil, ctlEnd
	}

	// math
	f1 := func(name string, f func(float64) float64) {
		natives["math."+name] = simple(func(m *M, a []Value) Value { return F64(f(float64(m.f64(a[0])))) })
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Log", math.Log)
	f1("Exp", math.Exp)
	f1("Round", math.Round)
	natives["math.Float64bits"] = simple(func(m *M, a []Value) Value { return mkInt(math.Float64bits(float64(m.f64(a[0])))) })
	natives["math.Float64frombits"] = simple(func(m *M, a []Value) Value { return F64(math.Float64frombits(m.concretize(a[0]))) })
	natives["math.Float32bits"] = simple(func(m *M, a []Value) Value { return mkInt(uint64(math.Float32bits(float32(a[0].(F32))))) })
	natives["math.Float32frombits"] = simple(func(m *M, a []Value) Value { return F32(math.Float32frombits(uint32(m.concretize(a[0])))) })

	// strconv
	natives["strconv.AppendInt"] = simple(func(m *M, a []Value) Value {
		base := int(m.concretize(a[2]))
		return m.appendBytes(a[0].(Slice), m.fmtInt(a[1], true, base))
	})
	natives["strconv.AppendUint"] = simple(func(m *M, a []Value) Value {
		base := int(m.concretize(a[2]))
		return m.appendBytes(a[0].(Slice), m.fmtInt(a[1], false, base))
	})
	natives["strconv.FormatInt"] = simple(func(m *M, a []Value) Value {
		return mkStr(m.fmtInt(a[0], true, int(m.concretize(a[1]))))
	})
	natives["strconv.FormatUint"] = simple(func(m *M, a []Value) Value {
		return mkStr(m.fmtInt(a[0], false, int(m.concretize(a[1]))))
	})
	natives["strconv.Itoa"] = simple(func(m *M, a []Value) Value { return mkStr(m.fmtInt(a[0], true, 10)) })
	natives["strconv.AppendFloat"] = simple(func(m *M, a []Value) Value {
		s := m.ratFormat(a[1], byte(m.concretize(a[2])), int(int64(m.concretize(a[3]))), int(m.concretize(a[4])))
		return m.appendBytes(a[0].(Slice), strBytes(s))
	})
	natives["strconv.FormatFloat"] = simple(func(m *M, a []Value) Value {
		return m.ratFormat(a[0], byte(m.concretize(a[1])), int(int64(m.concretize(a[2]))), int(m.concretize(a[3])))
	})
	natives["strconv.Quote"] = simple(func(m *M, a []Value) Value { return strconv.Quote(m.concStr(a[0])) })
	redirects["strconv.ParseFloat"] = "vrt.ParseFloat"
	natives[symPkg+"/vrt.parseFloat"] = simple(func(m *M, a []Value) Value {
		if m.rationals && m.concretize(a[1]) == 64 {
			if f, ok := m.ratParse(a[0]); ok {
				return Tuple{f, mkInt(0)}
			}
		}
		s := m.concStr(a[0])
		f, err := strconv.ParseFloat(s, int(m.concretize(a[1])))
		k := 0
		if err != nil {
			k = 1
			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				k = 2
			}
		}
		return Tuple{F64(f), mkInt(uint64(k))}
	})

	// reflectlite, as used by sort.Slice
	natives["internal/reflectlite.ValueOf"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		o := zeroInfoOf(m.typeByName("internal/reflectlite", "Value")).zero().(*Obj)
		o.f[1] = a[0]
		return o, ctlNext
	}
	natives["(internal/reflectlite.Value).Len"] = simple(func(m *M, a []Value) Value {
		s := a[0].(*Obj).f[1].(Iface).v.(Slice)
		return mkInt(uint64(s.len))
	})
	natives["internal/reflectlite.Swapper"] = simple(func(m *M, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		return &NativeFn{name: "swapper", f: func(m *M, t *Thread, b []Value) (Value, ctl) {
			i, j := int(m.concretize(b[0])), int(m.concretize(b[1]))
			x, y := m.loadSlot(s.o, s.off+i), m.loadSlot(s.o, s.off+j)
			m.storeSlot(s.o, s.off+i, y)
			m.storeSlot(s.o, s.off+j, x)
			return nil, ctlNext
		}}
	})

	initTimeNatives()
	initSymNatives()
}

func mustObj(v Value) *Obj {
	o, ok := v.(*Obj)
	if !ok {
		panic(abortf("receiver is %T", v))
	}
	return o
}

func (m *M) f64(v Value) F64 {
	if _, sym := v.(SymF); sym {
		return m.ratFloat(v)
	}
	f, ok := v.(F64)
	if !ok {
		panic(abortf("float expected, got %T", v))
	}
	return f
}

func (m *M) addV(a, b Value, w uint8) Value {
	x, ok1 := a.(Int)
	y, ok2 := b.(Int)
	if ok1 && ok2 {
		return mkInt((uint64(x) + uint64(y)) & mask(w))
	}
	return simplifyOut(m.ctx.Bin(OpAdd, m.ctx.toExpr(a, w), m.ctx.toExpr(b, w)))
}

func atomicOp(f func(m *M, r Ref, a []Value) Value) Native {
	return func(m *M, t *Thread, a []Value) (Value, ctl) {
		r, ok := a[0].(Ref)
		if !ok {
			if a[0] == nil {
				return nil, m.rtPanic(t, "invalid memory address or nil pointer dereference")
			}
			panic(abortf("atomic op on %T", a[0]))
		}
		if m.initMode == 0 && t.top != nil && m.yieldPoint(t) {
			return nil, ctlSwitch
		}
		if m.raceOn && m.initMode == 0 {
			vc := m.atomics[r]
			m.acquire(t, vc)
			v := f(m, r, a)
			m.release(t, &vc)
			m.atomics[r] = vc
			return v, ctlNext
		}
		return f(m, r, a), ctlNext
	}
}

func bytesEqual(m *M, t *Thread, a []Value) (Value, ctl) {
	x, y := a[0].(Slice), a[1].(Slice)
	if x.len != y.len {
		return vFalse, ctlNext
	}
	return m.strEq(m.sliceToStr(x), m.sliceToStr(y)), ctlNext
}

func (m *M) appendBytes(s Slice, add []Value) Value {
	if len(add) == 0 {
		return s
	}
	need := s.len + len(add)
	if need <= s.cap {
		for i, v := range add {
			m.st(s.o, s.off+s.len+i, v)
		}
		return Slice{s.o, s.off, need, s.cap}
	}
	nc := growCap(s.cap, need, 1, true)
	o := newArr(byteZ(), nc)
	o.f = make([]Value, 0, need)
	for i := 0; i < s.len; i++ {
		o.f = append(o.f, m.ld(s.o, s.off+i))
	}
	o.f = append(o.f, add...)
	return Slice{o, 0, need, nc}
}

// fmtInt renders an integer in decimal. For a symbolic value the number of
// digits is decided by branching; the digits are fresh bytes constrained to
// encode the value.
func (m *M) fmtInt(v Value, signed bool, base int) []Value {
	if x, ok := v.(Int); ok {
		if signed {
			return strBytes(strconv.FormatInt(int64(x), base))
		}
		return strBytes(strconv.FormatUint(uint64(x), base))
	}
	if base != 10 {
		panic(abortf("symbolic integer in base %d", base))
	}
	x, ok := v.(*Expr)
	if !ok {
		panic(abortf("fmtInt of %T", v))
	}
	if x.w < 64 {
		if signed {
			x = m.ctx.SExt(x, 64)
		} else {
			x = m.ctx.ZExt(x, 64)
		}
	}
	c := m.ctx
	key := fmt.Sprintf("fmt:%d:%v", x.id, signed)
	if r, ok := m.extra[key]; ok {
		return append([]Value(nil), r.([]Value)...)
	}
	var out []Value
	mag := x
	if signed && m.decide(c.Slt(x, c.Const(0, 64))) {
		out = append(out, mkInt('-'))
		mag = c.Neg(x)
	}
	// number of digits
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if m.decide(c.Ult(mag, c.Const(p, 64))) {
			break
		}
		nd++
		if nd < 20 {
			p *= 10
		}
	}
	mv := m.evalNow(mag)
	ds := make([]*Expr, nd)
	name := m.freshName("!dig")
	mod := modelBytes(m.model)
	vv := mv
	for i := nd - 1; i >= 0; i-- {
		d := c.Var(fmt.Sprintf("%s_%d", name, i), 8)
		for len(mod) <= d.varIdx {
			mod = append(mod, 0)
		}
		mod[d.varIdx] = '0' + vv%10
		vv /= 10
		ds[i] = d
	}
	m.setModel(mod)
	forms := [3]*Expr{}
	var sum8 *Expr
	for i, d := range ds {
		lo := byte('0')
		if i == 0 && nd > 1 {
			lo = '1'
		}
		m.assertC(c.And(c.Ule(c.Const(uint64(lo), 8), d), c.Ule(d, c.Const('9', 8))))
		out = append(out, d)
		// the shapes in which a parser is likely to rebuild the number
		d8 := c.ZExt(c.Sub(d, c.Const('0', 8)), 64)
		d64 := c.Sub(c.ZExt(d, 64), c.Const('0', 64))
		d32 := c.ZExt(c.Sub(c.ZExt(d, 32), c.Const('0', 32)), 64)
		for k, dig := range []*Expr{d8, d64, d32} {
			if forms[k] == nil {
				forms[k] = dig
			} else {
				forms[k] = c.Bin(OpAdd, c.Bin(OpMul, forms[k], c.Const(10, 64)), dig)
			}
		}
	}
	sum8 = forms[0]
	m.assertC(c.Eq(sum8, mag))
	m.extra[key] = append([]Value(nil), out...)
	// parsing these digits again yields the number itself
	if c.rewrite == nil {
		c.rewrite = map[*Expr]*Expr{}
	}
	if nd > 1 {
		for _, f := range forms {
			if f != nil && f.op != OpConst && f != mag {
				c.rewrite[f] = mag
			}
		}
	}
	return out
}

var _ = os.Stderr
