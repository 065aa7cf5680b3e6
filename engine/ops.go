package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneBytes(b []byte) (rune, int) { return utf8.DecodeRune(b) }

func (c *compiler) binop(x *ssa.BinOp) Instr {
	a, b := c.op(x.X), c.op(x.Y)
	dst := c.reg(x)
	t := x.X.Type()
	bt, _ := t.Underlying().(*types.Basic)
	op := x.Op
	if bt == nil || bt.Info()&(types.IsInteger|types.IsFloat|types.IsString|types.IsBoolean|types.IsComplex) == 0 {
		// pointers, interfaces, channels, structs ...
		neg := op == token.NEQ
		return func(m *M, th *Thread, fr *Frame) ctl {
			r := m.eqVals(t, a.get(m, fr), b.get(m, fr))
			if neg {
				r = m.notV(r)
			}
			fr.regs[dst] = r
			return ctlNext
		}
	}
	switch {
	case bt.Info()&types.IsString != 0:
		return func(m *M, th *Thread, fr *Frame) ctl {
			va, vb := a.get(m, fr), b.get(m, fr)
			switch op {
			case token.ADD:
				fr.regs[dst] = strConcat(va, vb)
			case token.EQL:
				fr.regs[dst] = m.strEq(va, vb)
			case token.NEQ:
				fr.regs[dst] = m.notV(m.strEq(va, vb))
			case token.LSS:
				fr.regs[dst] = mkBool(m.strCmp(va, vb) < 0)
			case token.LEQ:
				fr.regs[dst] = mkBool(m.strCmp(va, vb) <= 0)
			case token.GTR:
				fr.regs[dst] = mkBool(m.strCmp(va, vb) > 0)
			case token.GEQ:
				fr.regs[dst] = mkBool(m.strCmp(va, vb) >= 0)
			}
			return ctlNext
		}
	case bt.Info()&types.IsFloat != 0:
		is32 := bt.Kind() == types.Float32
		return func(m *M, th *Thread, fr *Frame) ctl {
			va, vb := a.get(m, fr), b.get(m, fr)
			if is32 {
				x, y := va.(F32), vb.(F32)
				if r, ok := cmpFloat(op, float64(x), float64(y)); ok {
					fr.regs[dst] = mkBool(r)
					return ctlNext
				}
				var r F32
				switch op {
				case token.ADD:
					r = x + y
				case token.SUB:
					r = x - y
				case token.MUL:
					r = x * y
				case token.QUO:
					r = x / y
				}
				fr.regs[dst] = r
				return ctlNext
			}
			x, ok1 := va.(F64)
			y, ok2 := vb.(F64)
			if !ok1 || !ok2 {
				if m.rationals {
					fr.regs[dst] = m.ratOp(op, va, vb)
					return ctlNext
				}
				panic(abortf("float op on %T %T", va, vb))
			}
			if r, ok := cmpFloat(op, float64(x), float64(y)); ok {
				fr.regs[dst] = mkBool(r)
				return ctlNext
			}
			var r F64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			}
			fr.regs[dst] = r
			return ctlNext
		}
	case bt.Info()&types.IsComplex != 0:
		return func(m *M, th *Thread, fr *Frame) ctl { panic(abortf("complex arithmetic")) }
	}
	w := widthOf(t)
	sg := isSigned(t)
	yw := widthOf(x.Y.Type())
	ysg := isSigned(x.Y.Type())
	return func(m *M, th *Thread, fr *Frame) ctl {
		va, vb := a.get(m, fr), b.get(m, fr)
		if p, ok := va.(Int); ok {
			if q, ok := vb.(Int); ok {
				r, pan := concBin(op, uint64(p), uint64(q), w, sg, yw, ysg)
				if pan != "" {
					return m.rtPanic(th, pan)
				}
				fr.regs[dst] = mkInt(r)
				return ctlNext
			}
		}
		return m.symBin(th, fr, dst, op, va, vb, w, sg, yw, ysg)
	}
}

func (m *M) notV(v Value) Value {
	if i, ok := v.(Int); ok {
		return mkBool(i == 0)
	}
	return simplifyOut(m.ctx.Not(v.(*Expr)))
}

func cmpFloat(op token.Token, x, y float64) (bool, bool) {
	switch op {
	case token.EQL:
		return x == y, true
	case token.NEQ:
		return x != y, true
	case token.LSS:
		return x < y, true
	case token.LEQ:
		return x <= y, true
	case token.GTR:
		return x > y, true
	case token.GEQ:
		return x >= y, true
	}
	return false, false
}

func concBin(op token.Token, x, y uint64, w uint8, sg bool, yw uint8, ysg bool) (uint64, string) {
	mk := mask(w)
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case token.ADD:
		return (x + y) & mk, ""
	case token.SUB:
		return (x - y) & mk, ""
	case token.MUL:
		return (x * y) & mk, ""
	case token.QUO, token.REM:
		if y == 0 {
			return 0, "integer divide by zero"
		}
		if sg {
			if sy == -1 {
				if op == token.QUO {
					return uint64(-sx) & mk, ""
				}
				return 0, ""
			}
			if op == token.QUO {
				return uint64(sx/sy) & mk, ""
			}
			return uint64(sx%sy) & mk, ""
		}
		if op == token.QUO {
			return x / y, ""
		}
		return x % y, ""
	case token.AND:
		return x & y, ""
	case token.OR:
		return x | y, ""
	case token.XOR:
		return x ^ y, ""
	case token.AND_NOT:
		return x &^ y, ""
	case token.SHL, token.SHR:
		if ysg && sext(y, yw) < 0 {
			return 0, "negative shift amount"
		}
		if op == token.SHL {
			if y >= uint64(w) {
				return 0, ""
			}
			return (x << y) & mk, ""
		}
		if sg {
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return uint64(sx>>y) & mk, ""
		}
		if y >= uint64(w) {
			return 0, ""
		}
		return x >> y, ""
	case token.EQL:
		return b2u(x == y), ""
	case token.NEQ:
		return b2u(x != y), ""
	case token.LSS:
		if sg {
			return b2u(sx < sy), ""
		}
		return b2u(x < y), ""
	case token.LEQ:
		if sg {
			return b2u(sx <= sy), ""
		}
		return b2u(x <= y), ""
	case token.GTR:
		if sg {
			return b2u(sx > sy), ""
		}
		return b2u(x > y), ""
	case token.GEQ:
		if sg {
			return b2u(sx >= sy), ""
		}
		return b2u(x >= y), ""
	case token.LAND:
		return x & y, ""
	case token.LOR:
		return x | y, ""
	}
	panic("concBin " + op.String())
}

func (m *M) symBin(th *Thread, fr *Frame, dst int, op token.Token, va, vb Value, w uint8, sg bool, yw uint8, ysg bool) ctl {
	c := m.ctx
	x := c.toExpr(va, w)
	if op == token.SHL || op == token.SHR {
		y := c.toExpr(vb, yw)
		if ysg {
			if m.branch(simplifyOut(c.Slt(y, c.Const(0, yw)))) {
				return m.rtPanic(th, "negative shift amount")
			}
		}
		// saturate the shift count to the operand width
		var cnt *Expr
		if yw > w {
			big := c.Not(c.Ult(y, c.Const(uint64(w), yw)))
			cnt = c.Ite(big, c.Const(uint64(w), w), c.Trunc(y, w))
			if uint64(w) > mask(w) {
				panic(abortf("shift width"))
			}
		} else {
			cnt = c.ZExt(y, w)
		}
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if sg {
				o = OpAShr
			}
		}
		fr.regs[dst] = simplifyOut(c.Bin(o, x, cnt))
		return ctlNext
	}
	y := c.toExpr(vb, w)
	var r *Expr
	switch op {
	case token.ADD:
		r = c.Bin(OpAdd, x, y)
	case token.SUB:
		r = c.Sub(x, y)
	case token.MUL:
		r = c.Bin(OpMul, x, y)
	case token.QUO, token.REM:
		if m.branch(simplifyOut(c.Eq(y, c.Const(0, w)))) {
			return m.rtPanic(th, "integer divide by zero")
		}
		r = m.divide(op, x, y, sg)
	case token.AND:
		r = c.Bin(OpBAnd, x, y)
	case token.OR:
		r = c.Bin(OpBOr, x, y)
	case token.XOR:
		r = c.Bin(OpBXor, x, y)
	case token.AND_NOT:
		r = c.Bin(OpBAnd, x, c.BNot(y))
	case token.EQL:
		r = c.Eq(x, y)
	case token.NEQ:
		r = c.Not(c.Eq(x, y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		switch {
		case op == token.LSS && sg:
			r = c.Slt(x, y)
		case op == token.LSS:
			r = c.Ult(x, y)
		case sg:
			r = c.Sle(x, y)
		default:
			r = c.Ule(x, y)
		}
	default:
		panic(abortf("symbolic binop %s", op))
	}
	fr.regs[dst] = simplifyOut(r)
	return ctlNext
}

// divide encodes division. For a 64-bit dividend and a concrete divisor the
// quotient and remainder become fresh variables tied by multiplication, which
// solvers handle far better than bvsdiv/bvudiv circuits.
func (m *M) divide(op token.Token, x, y *Expr, sg bool) *Expr {
	c := m.ctx
	w := x.w
	if !(w == 64 && y.isConst() && !x.isConst()) || (y.k&(y.k-1)) == 0 && !sg {
		o := OpUDiv
		switch {
		case sg && op == token.QUO:
			o = OpSDiv
		case sg:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return c.Bin(o, x, y)
	}
	// (y*k)/k: see noOverflow
	if p := x; sg && op == token.QUO {
		if p.op == OpAdd && p.b.isConst() {
			p = p.a
		}
		if p.op == OpMul && p.b == y {
			return c.Bin(OpSDiv, x, y)
		}
	}
	q, r := m.divWitness(x, y.k, sg)
	if op == token.QUO {
		return q
	}
	return r
}

// divWitness returns fresh q, r with x = q*d + r under Go's truncated division.
func (m *M) divWitness(x *Expr, d uint64, sg bool) (*Expr, *Expr) {
	c := m.ctx
	key := fmt.Sprintf("div:%d_%d_%v", x.id, d, sg)
	if v, ok := m.extra[key]; ok {
		tv := v.(Tuple)
		return tv[0].(*Expr), tv[1].(*Expr)
	}
	name := m.freshName("!div")
	q := c.Var(name+"q", 64)
	r := c.Var(name+"r", 64)
	m.extra[key] = Tuple{q, r}
	dc := c.Const(d, 64)
	var cons *Expr
	cons = c.Eq(x, c.Bin(OpAdd, c.Bin(OpMul, q, dc), r))
	if !sg {
		// q <= max/d, r < d
		cons = c.And(cons, c.And(c.Ule(q, c.Const(^uint64(0)/d, 64)), c.Ult(r, dc)))
	} else {
		sd := int64(d)
		if sd < 0 || sd == math.MinInt64 {
			panic(abortf("division by negative constant"))
		}
		qmax := int64(math.MaxInt64) / sd
		qmin := int64(math.MinInt64) / sd
		cons = c.And(cons, c.And(c.Sle(q, c.Const(uint64(qmax), 64)), c.Sle(c.Const(uint64(qmin), 64), q)))
		neg := c.Slt(x, c.Const(0, 64))
		zero := c.Const(0, 64)
		pos := c.And(c.Sle(zero, r), c.Slt(r, dc))
		ng := c.And(c.Sle(r, zero), c.Slt(c.Const(uint64(-sd), 64), r))
		// the product does not wrap: q*d lies between 0 and x
		prod := c.Bin(OpMul, q, dc)
		np := c.And(c.Sle(zero, prod), c.Sle(prod, x))
		nn := c.And(c.Sle(prod, zero), c.Sle(x, prod))
		cons = c.And(cons, c.And(c.Or(neg, c.And(pos, np)), c.Or(c.Not(neg), c.And(ng, nn))))
	}
	m.defineConstraint(cons, x, d, sg, q, r)
	return q, r
}

// defineConstraint adds a constraint that only defines fresh variables (it is
// satisfiable for every value of the others) and extends the model.
func (m *M) defineConstraint(cons *Expr, x *Expr, d uint64, sg bool, q, r *Expr) {
	xv := m.evalNow(x)
	mod := modelBytes(m.model)
	need := q.varIdx
	if r.varIdx > need {
		need = r.varIdx
	}
	for len(mod) <= need {
		mod = append(mod, 0)
	}
	if sg {
		mod[q.varIdx] = uint64(int64(xv) / int64(d))
		mod[r.varIdx] = uint64(int64(xv) % int64(d))
	} else {
		mod[q.varIdx] = xv / d
		mod[r.varIdx] = xv % d
	}
	m.setModel(mod)
	m.assertC(cons)
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) Instr {
	src := c.op(xv)
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	set := func(f func(m *M, v Value) Value) Instr {
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = f(m, src.get(m, fr))
			return ctlNext
		}
	}
	isInt := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsInteger != 0 }
	isFlt := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsFloat != 0 }
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	fw, tw := widthOf(from), widthOf(to)
	fs, ts := isSigned(from), isSigned(to)
	switch {
	case isInt(fb) && isInt(tb):
		return set(func(m *M, v Value) Value {
			switch x := v.(type) {
			case Int:
				if fs {
					return mkInt(uint64(sext(uint64(x), fw)) & mask(tw))
				}
				return mkInt(uint64(x) & mask(tw))
			case *Expr:
				switch {
				case tw < fw:
					return simplifyOut(m.ctx.Trunc(x, tw))
				case tw > fw && fs:
					return simplifyOut(m.ctx.SExt(x, tw))
				case tw > fw:
					return simplifyOut(m.ctx.ZExt(x, tw))
				}
				return x
			}
			panic(abortf("int conversion of %T", v))
		})
	case isInt(fb) && isFlt(tb):
		return set(func(m *M, v Value) Value {
			i, ok := v.(Int)
			if e, sym := v.(*Expr); sym && m.rationals && tb.Kind() != types.Float32 {
				if fw < 64 && fs {
					e = m.ctx.SExt(e, 64)
				} else if fw < 64 {
					e = m.ctx.ZExt(e, 64)
				}
				return SymF{e, 1}
			}
			if !ok {
				i = Int(m.concretizeFew(v))
			}
			var f float64
			if fs {
				f = float64(sext(uint64(i), fw))
			} else {
				f = float64(uint64(i))
			}
			if tb.Kind() == types.Float32 {
				return F32(f)
			}
			return F64(f)
		})
	case isFlt(fb) && isInt(tb):
		return set(func(m *M, v Value) Value {
			var f float64
			switch x := v.(type) {
			case F64:
				f = float64(x)
			case F32:
				f = float64(x)
			case SymF:
				if tw == 64 && ts {
					return m.ratToInt(x)
				}
				f = float64(m.ratFloat(x))
			default:
				panic(abortf("float conversion of %T", v))
			}
			if ts {
				return mkInt(uint64(int64(f)) & mask(tw))
			}
			return mkInt(uint64(f) & mask(tw))
		})
	case isFlt(fb) && isFlt(tb):
		return set(func(m *M, v Value) Value {
			var f float64
			switch x := v.(type) {
			case F64:
				f = float64(x)
			case F32:
				f = float64(x)
			case SymF:
				if tb.Kind() != types.Float32 {
					return x
				}
				f = float64(m.ratFloat(x))
			default:
				panic(abortf("float conversion of %T", v))
			}
			if tb.Kind() == types.Float32 {
				return F32(f)
			}
			return F64(f)
		})
	case isInt(fb) && isStr(tb):
		return set(func(m *M, v Value) Value {
			return string(rune(int32(m.concretize(v))))
		})
	case isStr(fb) && isStr(tb):
		return set(func(m *M, v Value) Value { return v })
	}
	if isStr(fb) {
		if sl, ok := tu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			ez := zeroInfoOf(sl.Elem())
			if eb.Kind() == types.Uint8 {
				return set(func(m *M, v Value) Value { return bytesToSlice(strBytes(v), ez) })
			}
			return set(func(m *M, v Value) Value {
				var rs []Value
				n := strLen(v)
				for i := 0; i < n; {
					r, sz := m.decodeRune(v, i)
					rs = append(rs, r)
					i += sz
				}
				o := newArr(ez, len(rs))
				o.f = rs
				return Slice{o, 0, len(rs), len(rs)}
			})
		}
	}
	if isStr(tb) {
		if sl, ok := fu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return set(func(m *M, v Value) Value { return m.sliceToStr(v.(Slice)) })
			}
			return set(func(m *M, v Value) Value {
				s := v.(Slice)
				var sb strings.Builder
				for i := 0; i < s.len; i++ {
					sb.WriteRune(rune(int32(m.concretize(s.o.slot(s.off + i)))))
				}
				return sb.String()
			})
		}
	}
	// pointer, unsafe.Pointer and identical underlying types
	return set(func(m *M, v Value) Value { return v })
}

// concretizeFew enumerates the value of a symbolic integer when it is known to
// take few values.
func (m *M) concretizeFew(v Value) uint64 { return m.concretize(v) }

var byteZero *zeroInfo

func byteZ() *zeroInfo {
	return zeroInfoOf(types.Typ[types.Uint8])
}

func bytesToSlice(b []Value, ez *zeroInfo) Slice {
	n := len(b)
	if n == 0 {
		return Slice{newArr(ez, 0), 0, 0, 0}
	}
	cp := int(roundupsize(int64(n), true))
	o := newArr(ez, cp)
	o.f = append(make([]Value, 0, n), b...)
	return Slice{o, 0, n, cp}
}

func (m *M) sliceBytes(s Slice) []Value {
	out := make([]Value, s.len)
	for i := range out {
		out[i] = m.ld(s.o, s.off+i)
	}
	return out
}

func (m *M) sliceToStr(s Slice) Value {
	if s.len == 0 {
		return ""
	}
	return mkStr(m.sliceBytes(s))
}

// ---- builtins -----------------------------------------------------------

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, dst int) Instr {
	args := make([]opd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	set := func(f func(m *M, t *Thread, fr *Frame) Value) Instr {
		return func(m *M, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = f(m, t, fr)
			return ctlNext
		}
	}
	switch b.Name() {
	case "len":
		return set(func(m *M, t *Thread, fr *Frame) Value {
			switch x := args[0].get(m, fr).(type) {
			case string, *SymStr:
				return mkInt(uint64(strLen(x)))
			case Slice:
				return mkInt(uint64(x.len))
			case *Map:
				if m.raceOn && x != nil {
					m.raceMap(x, false)
				}
				return mkInt(uint64(x.n))
			case *Chan:
				return mkInt(uint64(len(x.buf)))
			case *Obj:
				return mkInt(uint64(x.n))
			case nil:
				return vFalse
			default:
				panic(abortf("len of %T", x))
			}
		})
	case "cap":
		return set(func(m *M, t *Thread, fr *Frame) Value {
			switch x := args[0].get(m, fr).(type) {
			case Slice:
				return mkInt(uint64(x.cap))
			case *Chan:
				return mkInt(uint64(x.cap))
			case *Obj:
				return mkInt(uint64(x.n))
			case nil:
				return vFalse
			default:
				panic(abortf("cap of %T", x))
			}
		})
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		ez := zeroInfoOf(et)
		esz := stdSizes.Sizeof(et)
		noscan := !hasPointers(et)
		return set(func(m *M, t *Thread, fr *Frame) Value {
			s := args[0].get(m, fr).(Slice)
			if len(args) == 1 {
				return s
			}
			var add []Value
			total := -1
			switch y := args[1].get(m, fr).(type) {
			case string, *SymStr:
				add = strBytes(y)
			case Slice:
				n := y.len
				total = n
				if y.o != nil && !ez.agg && !m.raceOn && s.len+n > s.cap && n > 64 {
					// the untouched zero tail of a new array need not be written out
					if k := len(y.o.f) - y.off; k < n {
						n = max(k, 0)
					}
				}
				add = make([]Value, n)
				for i := range add {
					add[i] = m.loadSlot(y.o, y.off+i)
				}
			default:
				panic(abortf("append of %T", y))
			}
			if total < 0 {
				total = len(add)
			}
			if total == 0 {
				return s
			}
			need := s.len + total
			if need <= s.cap {
				for i, v := range add {
					m.storeSlot(s.o, s.off+s.len+i, v)
				}
				return Slice{s.o, s.off, need, s.cap}
			}
			nc := growCap(s.cap, need, esz, noscan)
			if nc < need {
				nc = need
			}
			o := newArr(ez, nc)
			o.f = make([]Value, 0, s.len+len(add))
			for i := 0; i < s.len; i++ {
				o.f = append(o.f, m.loadSlot(s.o, s.off+i))
			}
			o.f = append(o.f, add...)
			return Slice{o, 0, need, nc}
		})
	case "copy":
		return func(m *M, t *Thread, fr *Frame) ctl {
			d := args[0].get(m, fr).(Slice)
			var src []Value
			n := d.len
			switch y := args[1].get(m, fr).(type) {
			case string, *SymStr:
				if l := strLen(y); l < n {
					n = l
				}
				src = strBytes(y)
			case Slice:
				if y.len < n {
					n = y.len
				}
				src = make([]Value, n)
				for i := range src {
					src[i] = m.loadSlot(y.o, y.off+i)
				}
			}
			for i := 0; i < n; i++ {
				m.storeSlot(d.o, d.off+i, src[i])
			}
			fr.regs[dst] = mkInt(uint64(n))
			return ctlNext
		}
	case "delete":
		return set(func(m *M, t *Thread, fr *Frame) Value {
			mp, _ := args[0].get(m, fr).(*Map)
			m.mapDelete(mp, args[1].get(m, fr))
			return nil
		})
	case "close":
		return func(m *M, t *Thread, fr *Frame) ctl {
			ch, _ := args[0].get(m, fr).(*Chan)
			return m.chanClose(t, ch)
		}
	case "panic":
		return func(m *M, t *Thread, fr *Frame) ctl { return m.goPanic(t, args[0].get(m, fr)) }
	case "recover":
		return set(func(m *M, t *Thread, fr *Frame) Value { return m.doRecover(fr) })
	case "print", "println":
		return set(func(m *M, t *Thread, fr *Frame) Value { return nil })
	case "min", "max":
		tt := cc.Args[0].Type()
		w, sg := widthOf(tt), isSigned(tt)
		isMin := b.Name() == "min"
		return set(func(m *M, t *Thread, fr *Frame) Value {
			r := args[0].get(m, fr)
			for i := 1; i < len(args); i++ {
				v := args[i].get(m, fr)
				switch r.(type) {
				case Int, *Expr:
				default:
					panic(abortf("min/max of %T", r))
				}
				x, y := m.ctx.toExpr(r, w), m.ctx.toExpr(v, w)
				var less *Expr
				if sg {
					less = m.ctx.Slt(x, y)
				} else {
					less = m.ctx.Ult(x, y)
				}
				if isMin {
					r = simplifyOut(m.ctx.Ite(less, x, y))
				} else {
					r = simplifyOut(m.ctx.Ite(less, y, x))
				}
			}
			return r
		})
	case "clear":
		return set(func(m *M, t *Thread, fr *Frame) Value {
			switch x := args[0].get(m, fr).(type) {
			case *Map:
				if x != nil {
					if x.pre && m.initMode == 0 {
						panic(abortf("clear of a shared map"))
					}
					x.entries, x.idx, x.n, x.symKeys = nil, map[any]*mapEntry{}, 0, 0
				}
			case Slice:
				for i := 0; i < x.len; i++ {
					m.storeSlot(x.o, x.off+i, x.o.info.slotZero(x.off+i).zero())
				}
			}
			return nil
		})
	case "ssa:wrapnilchk":
		return func(m *M, t *Thread, fr *Frame) ctl {
			v := args[0].get(m, fr)
			if v == nil {
				return m.rtPanic(t, "value method called using nil pointer")
			}
			fr.regs[dst] = v
			return ctlNext
		}
	case "ssa:deferstack":
		return set(func(m *M, t *Thread, fr *Frame) Value { return nil })
	case "String": // unsafe.String
		return set(func(m *M, t *Thread, fr *Frame) Value {
			n := int(m.concretize(args[1].get(m, fr)))
			if n == 0 {
				return ""
			}
			switch p := args[0].get(m, fr).(type) {
			case Ref:
				bs := make([]Value, n)
				for i := range bs {
					bs[i] = p.o.slot(p.i + i)
				}
				return mkStr(bs)
			default:
				panic(abortf("unsafe.String of %T", p))
			}
		})
	case "StringData":
		return set(func(m *M, t *Thread, fr *Frame) Value {
			s := args[0].get(m, fr)
			if strLen(s) == 0 {
				return nil
			}
			sl := bytesToSlice(strBytes(s), byteZ())
			return Ref{sl.o, 0}
		})
	case "SliceData":
		return set(func(m *M, t *Thread, fr *Frame) Value {
			s := args[0].get(m, fr).(Slice)
			if s.o == nil {
				return nil
			}
			if s.cap == 0 || s.o.info.slotZero(0).agg {
				panic(abortf("unsafe.SliceData"))
			}
			return Ref{s.o, s.off}
		})
	case "Slice": // unsafe.Slice
		return set(func(m *M, t *Thread, fr *Frame) Value {
			n := int(m.concretize(args[1].get(m, fr)))
			switch p := args[0].get(m, fr).(type) {
			case nil:
				return Slice{}
			case Ref:
				if p.o.info.isArr {
					return Slice{p.o, p.i, n, n}
				}
			}
			panic(abortf("unsafe.Slice"))
		})
	}
	name := b.Name()
	return func(m *M, t *Thread, fr *Frame) ctl { panic(abortf("builtin %s", name)) }
}

func (m *M) doRecover(fr *Frame) Value {
	if fr.pan != nil && !fr.pan.recovered && !fr.pan.exit {
		fr.pan.recovered = true
		return fr.pan.val
	}
	return Iface{}
}

func (m *M) deferredBuiltin(t *Thread, b *ssa.Builtin, args []Value) ctl {
	switch b.Name() {
	case "close":
		ch, _ := args[0].(*Chan)
		return m.chanClose(t, ch)
	case "recover":
		// recover called directly by defer does not stop a panic
	case "print", "println":
	case "delete":
		mp, _ := args[0].(*Map)
		m.mapDelete(mp, args[1])
	default:
		panic(abortf("deferred builtin %s", b.Name()))
	}
	return ctlNext
}

// loadSlot reads slot i as a value (copying aggregates).
func (m *M) loadSlot(o *Obj, i int) Value {
	if o.info.slotZero(i).agg {
		x := o.slot(i).(*Obj)
		if m.raceOn {
			m.raceReadAgg(x)
		}
		return copyObj(x)
	}
	return m.ld(o, i)
}

func (m *M) storeSlot(o *Obj, i int, v Value) {
	if o.info.slotZero(i).agg {
		m.storeAgg(o.slot(i).(*Obj), v.(*Obj))
		return
	}
	m.st(o, i, v)
}
