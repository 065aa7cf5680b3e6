package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is the operator of a symbolic expression node.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc"}

// Expr is a hash-consed bitvector or boolean (w==0) expression.
type Expr struct {
	op      Op
	w       uint8 // 0 means Bool
	id      int32
	k       uint64 // constant value
	a, b, c *Expr
	name    string
	v1      *Expr   // the single variable this depends on (nil if none or many)
	multi   bool    // depends on more than one variable
	vars    []*Expr // lazily computed
	bm      *[4]uint64
	emitted bool
	// per-model evaluation memo
	evEpoch uint32
	evVal   uint64
	// variable only
	varIdx int
}

type ekey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Expr
}

// Ctx owns the hash-consed expressions of one worker.
type Ctx struct {
	tab     map[ekey]*Expr
	varTab  map[varKey]*Expr
	varKeys []varKey
	varList []*Expr
	nextID  int32
	T, F    *Expr
	epoch   uint32
	rewrite map[*Expr]*Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, varTab: map[varKey]*Expr{}}
	c.T = c.mk(OpConst, 0, 1, nil, nil, nil)
	c.F = c.mk(OpConst, 0, 0, nil, nil, nil)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) mk(op Op, w uint8, k uint64, a, b, d *Expr) *Expr {
	key := ekey{op, w, k, a, b, d}
	if e, ok := c.tab[key]; ok {
		if c.rewrite != nil {
			if r, ok := c.rewrite[e]; ok {
				return r
			}
		}
		return e
	}
	c.nextID++
	e := &Expr{op: op, w: w, k: k, a: a, b: b, c: d, id: c.nextID}
	for _, x := range [3]*Expr{a, b, d} {
		if x == nil || e.multi {
			continue
		}
		if x.multi {
			e.multi = true
			e.v1 = nil
			continue
		}
		if x.v1 != nil {
			if e.v1 == nil {
				e.v1 = x.v1
			} else if e.v1 != x.v1 {
				e.multi = true
				e.v1 = nil
			}
		}
	}
	c.tab[key] = e
	return e
}

// Var returns the variable of the given name and width.
func (c *Ctx) Var(name string, w uint8) *Expr {
	return c.varByKey(varKey{name, w})
}

type varKey struct {
	name string
	w    uint8
}

func (c *Ctx) varByKey(key varKey) *Expr {
	name, w := key.name, key.w
	if e, ok := c.varTab[key]; ok {
		return e
	}
	c.nextID++
	e := &Expr{op: OpVar, w: w, id: c.nextID, name: name, varIdx: len(c.varList)}
	e.v1 = e
	c.varTab[key] = e
	c.varList = append(c.varList, e)
	c.varKeys = append(c.varKeys, key)
	return e
}

func (c *Ctx) Const(v uint64, w uint8) *Expr {
	return c.mk(OpConst, w, v&mask(w), nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}

func (e *Expr) isConst() bool { return e.op == OpConst }

func (c *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpNot:
		return a.a
	}
	return c.mk(OpNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k == 0 {
			return c.F
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return c.F
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.F
	}
	return c.mk(OpAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isConst() {
		if a.k != 0 {
			return c.T
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return c.T
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.T
	}
	return c.mk(OpOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isConst() {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.mk(OpIte, a.w, 0, cond.a, b, a)
	}
	return c.mk(OpIte, a.w, 0, cond, a, b)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
		switch a.op {
		case OpZExt:
			if b.k&^mask(a.a.w) != 0 {
				return c.F
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpSExt:
			if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return c.F
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
		case OpBXor:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k^a.b.k, a.w))
			}
		case OpMul:
			// odd constant multiplier is invertible
			if a.b.isConst() && a.b.k&1 == 1 {
				return c.Eq(a.a, c.Const(b.k*modInv(a.b.k), a.w))
			}
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				bt, bf := a.b.k == b.k, a.c.k == b.k
				switch {
				case bt && bf:
					return c.T
				case bt:
					return a.a
				case bf:
					return c.Not(a.a)
				default:
					return c.F
				}
			}
			if a.b.isConst() {
				if a.b.k == b.k {
					return c.Or(a.a, c.Eq(a.c, b))
				}
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c.k == b.k {
					return c.Or(c.Not(a.a), c.Eq(a.b, b))
				}
				return c.And(a.a, c.Eq(a.b, b))
			}
		}
		return c.mk(OpEq, 0, 0, a, b, nil)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpAdd && b.op == OpAdd && a.b == b.b {
		return c.Eq(a.a, b.a)
	}
	if a.op == OpAdd && a.b.isConst() && a.a == b {
		return c.Bool(a.b.k == 0)
	}
	if b.op == OpAdd && b.b.isConst() && b.a == a {
		return c.Bool(b.b.k == 0)
	}
	if r := c.noOverflow(a, b); r != nil {
		return r
	}
	if r := c.noOverflow(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil)
}

// ceilDiv is the quotient rounded up, for k > 0.
func ceilDiv(q, k int64) int64 {
	r := q / k
	if q%k > 0 {
		r++
	}
	return r
}

// floorDiv is the quotient rounded down, for k > 0.
func floorDiv(q, k int64) int64 {
	r := q / k
	if q%k < 0 {
		r--
	}
	return r
}

// scaled recognises y*k, k a constant above 1, and gives the condition for it
// not to overflow in signed arithmetic.
func (c *Ctx) scaled(e *Expr) (*Expr, int64, *Expr) {
	if e.op != OpMul || !e.b.isConst() || e.w < 8 {
		return nil, 0, nil
	}
	k := sext(e.b.k, e.w)
	if k < 2 {
		return nil, 0, nil
	}
	return e.a, k, c.within(e.a, k)
}

// within is min/k <= y <= max/k.
func (c *Ctx) within(y *Expr, k int64) *Expr {
	max := int64(mask(y.w) >> 1)
	return c.And(c.Sle(c.Const(uint64((-max-1)/k), y.w), y), c.Sle(y, c.Const(uint64(max/k), y.w)))
}

// noOverflow recognises (y*k)/k == y, in signed arithmetic, for a constant k:
// it holds iff y*k does not overflow. (If it does, y*k is off by a multiple of
// 2^w, and the quotient is off by more than one since k < 2^(w-1).)
func (c *Ctx) noOverflow(d, y *Expr) *Expr {
	if d.op != OpSDiv || !d.b.isConst() || d.w < 8 {
		return nil
	}
	k := sext(d.b.k, d.w)
	if k < 2 || c.Bin(OpMul, y, d.b) != d.a {
		return nil
	}
	return c.within(y, k)
}

func modInv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

// umax returns an upper bound of the unsigned value of e.
func (e *Expr) umax() uint64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpZExt:
		return e.a.umax()
	case OpIte:
		x, y := e.b.umax(), e.c.umax()
		if x > y {
			return x
		}
		return y
	case OpBAnd:
		x, y := e.a.umax(), e.b.umax()
		if x < y {
			return x
		}
		return y
	case OpAdd:
		x, y := e.a.umax(), e.b.umax()
		s, carry := bits.Add64(x, y, 0)
		if carry == 0 && s <= mask(e.w) {
			return s
		}
	case OpMul:
		hi, lo := bits.Mul64(e.a.umax(), e.b.umax())
		if hi == 0 && lo <= mask(e.w) {
			return lo
		}
	case OpURem:
		if e.b.isConst() && e.b.k > 0 {
			return e.b.k - 1
		}
	case OpLShr:
		if e.b.isConst() && e.b.k < 64 {
			return e.a.umax() >> e.b.k
		}
	case OpUDiv:
		if e.b.isConst() && e.b.k > 0 {
			return e.a.umax() / e.b.k
		}
	}
	return mask(e.w)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return c.F
		}
		if b.k == 1 {
			return c.Eq(a, c.Const(0, a.w))
		}
		if a.umax() < b.k {
			return c.T
		}
		if a.op == OpZExt {
			if b.k > mask(a.a.w) {
				return c.T
			}
			return c.Ult(a.a, c.Const(b.k, a.a.w))
		}
	}
	if a.isConst() {
		if a.k == mask(a.w) {
			return c.F
		}
		if b.umax() <= a.k {
			return c.F
		}
		if b.op == OpZExt {
			if a.k >= mask(b.a.w) {
				return c.F
			}
			return c.Ult(c.Const(a.k, b.a.w), b.a)
		}
	}
	// y*k < C and C < y*k without overflow
	if b.isConst() && a.op == OpMul && a.b.isConst() && a.b.k > 1 && a.a.umax() <= mask(a.w)/a.b.k {
		k := a.b.k
		return c.Ult(a.a, c.Const(b.k/k+b2u(b.k%k != 0), a.w))
	}
	if a.isConst() && b.op == OpMul && b.b.isConst() && b.b.k > 1 && b.a.umax() <= mask(b.w)/b.b.k {
		return c.Ult(c.Const(a.k/b.b.k, b.w), b.a)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OpUlt, 0, 0, a, b, nil)
}

func (c *Ctx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	sb := uint64(1) << (a.w - 1)
	au, bu := a.umax(), b.umax()
	if au < sb && bu < sb {
		return c.Ult(a, b)
	}
	if b.isConst() {
		if b.k == sb {
			return c.F
		}
		if au < sb && sext(b.k, b.w) <= 0 {
			return c.F
		}
	}
	if a.isConst() {
		if bu < sb && sext(a.k, a.w) < 0 {
			return c.T
		}
		if a.k == sb-1 {
			return c.F
		}
	}
	// y*k < C and C < y*k: a comparison of y alone unless the product overflows
	if b.isConst() {
		if y, k, in := c.scaled(a); y != nil {
			q := sext(b.k, b.w)
			return c.Or(c.And(in, c.Slt(y, c.Const(uint64(ceilDiv(q, k)), b.w))), c.And(c.Not(in), c.mk(OpSlt, 0, 0, a, b, nil)))
		}
	}
	if a.isConst() {
		if y, k, in := c.scaled(b); y != nil {
			q := sext(a.k, a.w)
			return c.Or(c.And(in, c.Slt(c.Const(uint64(floorDiv(q, k)), a.w), y)), c.And(c.Not(in), c.mk(OpSlt, 0, 0, a, b, nil)))
		}
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	return c.mk(OpSlt, 0, 0, a, b, nil)
}

func (c *Ctx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

func foldBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("foldBin")
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(foldBin(op, a.k, b.k, w), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return c.Bin(OpAdd, a.a, c.Const(a.b.k+b.k, w))
			}
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if a.op == OpMul && a.b.isConst() {
				return c.Bin(OpMul, a.a, c.Const(a.b.k*b.k, w))
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OpZExt && a.a.w < 64 && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
		case OpBOr, OpBXor:
			if b.k == 0 {
				return a
			}
			if op == OpBOr && b.k == mask(w) {
				return b
			}
			if op == OpBXor && a.op == OpBXor && a.b.isConst() {
				return c.Bin(OpBXor, a.a, c.Const(a.b.k^b.k, w))
			}
		case OpShl, OpLShr, OpAShr:
			if b.k == 0 {
				return a
			}
			if op != OpAShr && b.k >= uint64(w) {
				return c.Const(0, w)
			}
		case OpUDiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && a.umax() < b.k {
				return c.Const(0, w)
			}
		case OpURem:
			if b.k == 1 {
				return c.Const(0, w)
			}
			if b.k != 0 && a.umax() < b.k {
				return a
			}
		case OpSDiv, OpSRem:
			sb := uint64(1) << (w - 1)
			if a.umax() < sb && b.k < sb && b.k != 0 {
				if op == OpSDiv {
					return c.Bin(OpUDiv, a, b)
				}
				return c.Bin(OpURem, a, b)
			}
			if op == OpSDiv && b.k == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OpBAnd, OpBOr:
			return a
		case OpBXor:
			return c.Const(0, w)
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	// keep constants on the outside of sums
	if op == OpAdd && !b.isConst() {
		if a.op == OpAdd && a.b.isConst() {
			return c.Bin(OpAdd, c.Bin(OpAdd, a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.isConst() {
			return c.Bin(OpAdd, c.Bin(OpAdd, a, b.a), b.b)
		}
		// x + (-1)*x = 0
		if b.op == OpMul && b.b.isConst() && b.b.k == mask(w) && b.a == a {
			return c.Const(0, w)
		}
		if a.op == OpMul && a.b.isConst() && a.b.k == mask(w) && a.a == b {
			return c.Const(0, w)
		}
	}
	if op == OpMul && b.isConst() && a.op == OpAdd && a.b.isConst() {
		return c.Bin(OpAdd, c.Bin(OpMul, a.a, b), c.Const(a.b.k*b.k, w))
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *Ctx) Neg(a *Expr) *Expr { return c.Bin(OpMul, a, c.Const(mask(a.w), a.w)) }
func (c *Ctx) Sub(a, b *Expr) *Expr {
	if a == b {
		return c.Const(0, a.w)
	}
	if b.isConst() {
		return c.Bin(OpAdd, a, c.Const(-b.k, a.w))
	}
	return c.Bin(OpAdd, a, c.Neg(b))
}
func (c *Ctx) BNot(a *Expr) *Expr { return c.Bin(OpBXor, a, c.Const(mask(a.w), a.w)) }

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpZExt, w, 0, a, nil, nil)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.op == OpSExt {
		return c.SExt(a.a, w)
	}
	if a.umax() < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	return c.mk(OpSExt, w, 0, a, nil, nil)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	switch a.op {
	case OpZExt, OpSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OpZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case OpTrunc:
		return c.Trunc(a.a, w)
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
		}
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.mk(OpTrunc, w, 0, a, nil, nil)
}

// Model assigns values to variables by index.
type Model []uint64

// eval evaluates e under the model m (missing variables are 0).
func (c *Ctx) newEpoch() { c.epoch++ }

func (c *Ctx) eval(e *Expr, m Model) uint64 {
	if e.op == OpConst {
		return e.k
	}
	if e.op == OpVar {
		if e.varIdx < len(m) {
			return m[e.varIdx] & mask(e.w)
		}
		return 0
	}
	if e.evEpoch == c.epoch {
		return e.evVal
	}
	var r uint64
	switch e.op {
	case OpNot:
		r = 1 ^ c.eval(e.a, m)
	case OpAnd:
		r = c.eval(e.a, m)
		if r != 0 {
			r = c.eval(e.b, m)
		}
	case OpOr:
		r = c.eval(e.a, m)
		if r == 0 {
			r = c.eval(e.b, m)
		}
	case OpEq:
		r = b2u(c.eval(e.a, m) == c.eval(e.b, m))
	case OpUlt:
		r = b2u(c.eval(e.a, m) < c.eval(e.b, m))
	case OpUle:
		r = b2u(c.eval(e.a, m) <= c.eval(e.b, m))
	case OpSlt:
		r = b2u(sext(c.eval(e.a, m), e.a.w) < sext(c.eval(e.b, m), e.b.w))
	case OpSle:
		r = b2u(sext(c.eval(e.a, m), e.a.w) <= sext(c.eval(e.b, m), e.b.w))
	case OpIte:
		if c.eval(e.a, m) != 0 {
			r = c.eval(e.b, m)
		} else {
			r = c.eval(e.c, m)
		}
	case OpZExt:
		r = c.eval(e.a, m)
	case OpSExt:
		r = uint64(sext(c.eval(e.a, m), e.a.w)) & mask(e.w)
	case OpTrunc:
		r = c.eval(e.a, m) & mask(e.w)
	default:
		r = foldBin(e.op, c.eval(e.a, m), c.eval(e.b, m), e.w)
	}
	e.evEpoch = c.epoch
	e.evVal = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// bitmap returns, for a boolean expression over a single 8-bit variable, the
// set of values of that variable for which it is true.
func (c *Ctx) bitmap(e *Expr) *[4]uint64 {
	if e.bm != nil {
		return e.bm
	}
	var r [4]uint64
	switch {
	case e.op == OpNot && e.a.bm != nil:
		for i := range r {
			r[i] = ^e.a.bm[i]
		}
	case e.op == OpEq && e.a.op == OpVar && e.b.isConst():
		r[e.b.k>>6] |= 1 << (e.b.k & 63)
	default:
		m := make(Model, e.v1.varIdx+1)
		for v := 0; v < 256; v++ {
			c.newEpoch()
			m[e.v1.varIdx] = uint64(v)
			if c.eval(e, m) != 0 {
				r[v>>6] |= 1 << (uint(v) & 63)
			}
		}
		c.newEpoch()
	}
	e.bm = &r
	return e.bm
}

// varsOf returns the variables e depends on.
func (c *Ctx) varsOf(e *Expr) []*Expr {
	if e.vars != nil {
		return e.vars
	}
	if !e.multi {
		if e.v1 == nil {
			return nil
		}
		e.vars = []*Expr{e.v1}
		return e.vars
	}
	seen := map[*Expr]bool{}
	var out []*Expr
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil || seen[x] || x.op == OpConst {
			return
		}
		seen[x] = true
		if x.op == OpVar {
			out = append(out, x)
			return
		}
		if x.vars != nil || (!x.multi && x.v1 != nil) {
			for _, v := range c.varsOf(x) {
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
			return
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
	}
	walk(e)
	e.vars = out
	return out
}

func (e *Expr) String() string {
	var sb strings.Builder
	e.str(&sb, 0)
	return sb.String()
}

func (e *Expr) str(sb *strings.Builder, d int) {
	switch e.op {
	case OpConst:
		if e.w == 0 {
			fmt.Fprintf(sb, "%v", e.k != 0)
		} else {
			fmt.Fprintf(sb, "%d", e.k)
		}
	case OpVar:
		sb.WriteString(e.name)
	default:
		if d > 6 {
			sb.WriteString("...")
			return
		}
		sb.WriteString("(" + opNames[e.op])
		for _, x := range []*Expr{e.a, e.b, e.c} {
			if x != nil {
				sb.WriteByte(' ')
				x.str(sb, d+1)
			}
		}
		sb.WriteByte(')')
	}
}
