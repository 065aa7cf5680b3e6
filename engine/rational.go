package main

// Symbolic floating point values, for harnesses that ask for them with
// sym.Rationals: decimal text of symbolic digits is an exact rational number
// (symbolic numerator, concrete denominator), arithmetic is exact and a
// formatted value is a reference to the number. What is proved this way holds
// up to the rounding of each operation.

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// SymF is num/den; num is a 64-bit signed integer that never comes near
// overflow, den > 0.
type SymF struct {
	num *Expr
	den int64
}

const ratLimit = int64(1) << 40

func (m *M) ratDen(d int64) int64 {
	if d <= 0 || d > ratLimit {
		panic(abortf("rational number too large"))
	}
	return d
}

func (m *M) toRat(v Value) (SymF, bool) {
	switch x := v.(type) {
	case SymF:
		return x, true
	case F64:
		f := float64(x)
		if math.IsNaN(f) || math.Abs(f) >= float64(ratLimit) {
			return SymF{}, false
		}
		for den := int64(1); den <= 1000000; den *= 10 {
			n := math.Round(f * float64(den))
			if math.Abs(n) < float64(ratLimit) && float64(n)/float64(den) == f {
				return SymF{m.ctx.Const(uint64(int64(n)), 64), den}, true
			}
		}
		for den := int64(2); den <= 1<<20; den *= 2 {
			if n := f * float64(den); n == math.Trunc(n) && math.Abs(n) < float64(ratLimit) {
				return SymF{m.ctx.Const(uint64(int64(n)), 64), den}, true
			}
		}
	}
	return SymF{}, false
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (m *M) ratScale(n *Expr, k int64) *Expr {
	if k == 1 {
		return n
	}
	return m.ctx.Bin(OpMul, n, m.ctx.Const(uint64(k), 64))
}

// ratConc turns a rational whose numerator is constant into a float.
func ratConc(r SymF) Value {
	if r.num.op == OpConst {
		return F64(float64(int64(r.num.k)) / float64(r.den))
	}
	return r
}

// ratFloat picks concrete values for v (a branch for each).
func (m *M) ratFloat(v Value) F64 {
	switch x := v.(type) {
	case F64:
		return x
	case SymF:
		n := m.concretize(simplifyOut(x.num))
		return F64(float64(int64(n)) / float64(x.den))
	}
	panic(abortf("float expected, got %T", v))
}

func (m *M) ratOp(op token.Token, va, vb Value) Value {
	x, ok1 := m.toRat(va)
	y, ok2 := m.toRat(vb)
	if !ok1 || !ok2 {
		// beside NaN, an infinity or a very large number
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ || op == token.EQL || op == token.NEQ {
			f := func(v Value) float64 {
				if _, sym := v.(SymF); sym {
					return 0
				}
				return float64(v.(F64))
			}
			if a, b := f(va), f(vb); math.IsNaN(a) || math.IsNaN(b) || math.Abs(a) > 1e18 || math.Abs(b) > 1e18 {
				r, _ := cmpFloat(op, a, b)
				return mkBool(r)
			}
		}
		a, b := m.ratFloat(va), m.ratFloat(vb)
		if r, ok := cmpFloat(op, float64(a), float64(b)); ok {
			return mkBool(r)
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		}
		return a / b
	}
	c := m.ctx
	g := gcd(x.den, y.den)
	kx, ky := y.den/g, x.den/g
	xs, ys := m.ratScale(x.num, kx), m.ratScale(y.num, ky)
	switch op {
	case token.ADD:
		return ratConc(SymF{c.Bin(OpAdd, xs, ys), m.ratDen(x.den * kx)})
	case token.SUB:
		return ratConc(SymF{c.Sub(xs, ys), m.ratDen(x.den * kx)})
	case token.MUL:
		return ratConc(SymF{c.Bin(OpMul, x.num, y.num), m.ratDen(x.den * y.den)})
	case token.QUO:
		if y.num.op != OpConst {
			f := m.ratFloat(vb)
			if f == 0 {
				return m.ratFloat(va) / f
			}
			y, _ = m.toRat(f)
			if y.num == nil {
				return m.ratFloat(va) / f
			}
		}
		p := int64(y.num.k)
		if p == 0 {
			return m.ratFloat(va) / 0
		}
		q := y.den
		if p < 0 {
			p, q = -p, -q
		}
		if g := gcd(p, q); g != 0 {
			if g < 0 {
				g = -g
			}
			p, q = p/g, q/g
		}
		return ratConc(SymF{m.ratScale(x.num, q), m.ratDen(x.den * p)})
	case token.LSS:
		return simplifyOut(c.Slt(xs, ys))
	case token.LEQ:
		return simplifyOut(c.Sle(xs, ys))
	case token.GTR:
		return simplifyOut(c.Slt(ys, xs))
	case token.GEQ:
		return simplifyOut(c.Sle(ys, xs))
	case token.EQL:
		return simplifyOut(c.Eq(xs, ys))
	case token.NEQ:
		return simplifyOut(c.Not(c.Eq(xs, ys)))
	}
	panic(abortf("float operator %v", op))
}

// ratToInt drops the fraction.
func (m *M) ratToInt(r SymF) Value {
	if r.den == 1 {
		return simplifyOut(r.num)
	}
	return simplifyOut(m.ctx.Bin(OpSDiv, r.num, m.ctx.Const(uint64(r.den), 64)))
}

// ratParse reads [+-]digits[.digits][e[+-]digits] with symbolic digits.
func (m *M) ratParse(s Value) (Value, bool) {
	ss, ok := s.(*SymStr)
	if !ok {
		return nil, false
	}
	c := m.ctx
	num, den := c.Const(0, 64), int64(1)
	digits, point, neg := 0, false, false
	for i, b := range ss.b {
		ch, concrete := b.(Int)
		switch {
		case concrete && i == 0 && (ch == '-' || ch == '+'):
			neg = ch == '-'
		case concrete && ch == '.' && !point:
			point = true
		case concrete && (ch == 'e' || ch == 'E') && digits > 0:
			var rest strings.Builder
			for _, b := range ss.b[i+1:] {
				ch, ok := b.(Int)
				if !ok {
					return nil, false
				}
				rest.WriteByte(byte(ch))
			}
			k, err := strconv.Atoi(rest.String())
			if err != nil || k > 6 || k < -6 {
				return nil, false
			}
			for ; k > 0; k-- {
				num = m.ratScale(num, 10)
			}
			for ; k < 0; k++ {
				den = m.ratDen(den * 10)
			}
			if neg {
				num = c.Neg(num)
			}
			return ratConc(SymF{num, den}), true
		default:
			if digits++; digits > 9 {
				return nil, false
			}
			var d *Expr
			if concrete {
				if ch < '0' || ch > '9' {
					return nil, false
				}
				d = c.Const(uint64(ch-'0'), 64)
			} else {
				e := b.(*Expr)
				lo := c.Not(c.Ult(e, c.Const('0', 8)))
				hi := c.Ult(e, c.Const('9'+1, 8))
				if !m.decide(c.And(lo, hi)) {
					return nil, false
				}
				d = c.ZExt(c.Bin(OpAdd, e, c.Const(256-'0', 8)), 64)
			}
			num = c.Bin(OpAdd, m.ratScale(num, 10), d)
			if point {
				den = m.ratDen(den * 10)
			}
		}
	}
	if digits == 0 {
		return nil, false
	}
	if neg {
		num = c.Neg(num)
	}
	return ratConc(SymF{num, den}), true
}

// ratText is the formatted form: a reference between control characters.
func (m *M) ratText(r SymF) string {
	m.rats = append(m.rats, r)
	return fmt.Sprintf("\x02%d\x03", len(m.rats)-1)
}

// ratFormat formats v.
func (m *M) ratFormat(v Value, verb byte, prec, bits int) string {
	if r, ok := v.(SymF); ok && bits == 64 && (prec == -1 || prec >= 15 && verb != 'f') {
		return m.ratText(r)
	}
	return strconv.FormatFloat(float64(m.ratFloat(v)), verb, prec, bits)
}

// ratNear tells whether text denotes num/den.
func (m *M) ratNear(text, num, den Value) Value {
	d := int64(m.concretize(den))
	s, ok := text.(string)
	if !ok {
		s = m.concStr(text)
	}
	if strings.HasPrefix(s, "\x02") && strings.HasSuffix(s, "\x03") {
		if k, err := strconv.Atoi(s[1 : len(s)-1]); err == nil && k < len(m.rats) {
			return m.ratOp(token.EQL, m.rats[k], SymF{m.ctx.toExpr(num, 64), d})
		}
		return vFalse
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return vFalse
	}
	n := int64(m.concretize(num))
	return mkBool(ratClose(f, n, d))
}

func ratClose(f float64, n, d int64) bool {
	want, _ := new(big.Rat).SetFrac64(n, d).Float64()
	return math.Abs(f-want) <= 1e-9*math.Max(1, math.Abs(want))
}
