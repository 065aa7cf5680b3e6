package main

import "math/bits"

// Interval analysis over the byte domains of the current path. It decides
// comparisons of accumulated numbers (digit loops, lengths) without the
// solver; everything it cannot decide goes to the solver.

type ival struct{ lo, hi uint64 }

type ivalCtx struct {
	m    *M
	memo map[*Expr]ival
}

func (x *ivalCtx) get(e *Expr) ival {
	if e.op == OpConst {
		return ival{e.k, e.k}
	}
	if r, ok := x.memo[e]; ok {
		return r
	}
	r := x.compute(e)
	if b, ok := x.m.bounds[e]; ok {
		if b.lo > r.lo {
			r.lo = b.lo
		}
		if b.hi < r.hi {
			r.hi = b.hi
		}
	}
	x.memo[e] = r
	return r
}

func (x *ivalCtx) compute(e *Expr) ival {
	full := ival{0, mask(e.w)}
	if e.w == 0 {
		full = ival{0, 1}
	}
	if !e.multi && e.v1 != nil && e.v1.w == 8 && e.w != 0 {
		// exact range over the domain of the single byte
		d := x.m.dom[e.v1]
		var mod Model
		r := ival{^uint64(0), 0}
		for len(mod) <= e.v1.varIdx {
			mod = append(mod, 0)
		}
		c := x.m.ctx
		for i := 0; i < 256; i++ {
			if d != nil && d[i>>6]&(1<<uint(i&63)) == 0 {
				continue
			}
			mod[e.v1.varIdx] = uint64(i)
			c.newEpoch()
			v := c.eval(e, mod)
			if v < r.lo {
				r.lo = v
			}
			if v > r.hi {
				r.hi = v
			}
		}
		c.newEpoch()
		if r.lo > r.hi {
			return full
		}
		return r
	}
	switch e.op {
	case OpZExt:
		return x.get(e.a)
	case OpTrunc:
		r := x.get(e.a)
		if r.hi <= mask(e.w) {
			return r
		}
	case OpIte:
		p, q := x.get(e.b), x.get(e.c)
		if q.lo < p.lo {
			p.lo = q.lo
		}
		if q.hi > p.hi {
			p.hi = q.hi
		}
		return p
	case OpAdd:
		p, q := x.get(e.a), x.get(e.b)
		hi, carry := bits.Add64(p.hi, q.hi, 0)
		if carry == 0 && hi <= mask(e.w) {
			return ival{p.lo + q.lo, hi}
		}
		// adding a negative constant
		if e.b.isConst() {
			neg := -e.b.k & mask(e.w)
			if p.lo >= neg {
				return ival{p.lo - neg, p.hi - neg}
			}
		}
	case OpMul:
		p, q := x.get(e.a), x.get(e.b)
		h, lo := bits.Mul64(p.hi, q.hi)
		if h == 0 && lo <= mask(e.w) {
			return ival{p.lo * q.lo, lo}
		}
	case OpUDiv:
		p, q := x.get(e.a), x.get(e.b)
		if q.lo > 0 {
			return ival{p.lo / q.hi, p.hi / q.lo}
		}
	case OpURem:
		q := x.get(e.b)
		if q.lo > 0 {
			return ival{0, q.hi - 1}
		}
	}
	return full
}

// truth returns 1 (always true), 0 (always false) or -1.
func (x *ivalCtx) truth(e *Expr) int {
	if v, ok := x.m.facts[e]; ok {
		return int(b2u(v))
	}
	switch e.op {
	case OpConst:
		return int(e.k)
	case OpNot:
		if t := x.truth(e.a); t >= 0 {
			return 1 - t
		}
	case OpAnd:
		p, q := x.truth(e.a), x.truth(e.b)
		if p == 0 || q == 0 {
			return 0
		}
		if p == 1 && q == 1 {
			return 1
		}
	case OpOr:
		p, q := x.truth(e.a), x.truth(e.b)
		if p == 1 || q == 1 {
			return 1
		}
		if p == 0 && q == 0 {
			return 0
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		p, q := x.get(e.a), x.get(e.b)
		if e.op == OpSlt || e.op == OpSle {
			top := uint64(1) << (e.a.w - 1)
			if p.hi >= top || q.hi >= top {
				return -1
			}
		}
		strict := e.op == OpUlt || e.op == OpSlt
		if p.hi < q.lo || (!strict && p.hi == q.lo) {
			return 1
		}
		if p.lo > q.hi || (strict && p.lo == q.hi) {
			return 0
		}
	case OpEq:
		if e.a.w == 0 {
			return -1
		}
		p, q := x.get(e.a), x.get(e.b)
		if p.hi < q.lo || q.hi < p.lo {
			return 0
		}
		if p.lo == p.hi && p == q {
			return 1
		}
	}
	return -1
}

func (m *M) intervalTruth(e *Expr) int {
	x := &ivalCtx{m: m, memo: map[*Expr]ival{}}
	return x.truth(e)
}

// learn records what an asserted condition says about its parts.
func (m *M) learn(e *Expr) {
	val := true
	if e.op == OpNot {
		e, val = e.a, false
	}
	m.facts[e] = val
	if !e.multi {
		return
	}
	bound := func(x *Expr, lo, hi uint64) {
		b, ok := m.bounds[x]
		if !ok {
			b = ival{0, mask(x.w)}
		}
		if lo > b.lo {
			b.lo = lo
		}
		if hi < b.hi {
			b.hi = hi
		}
		m.bounds[x] = b
	}
	switch e.op {
	case OpUlt:
		if e.b.isConst() {
			if val {
				bound(e.a, 0, e.b.k-1)
			} else {
				bound(e.a, e.b.k, mask(e.a.w))
			}
		} else if e.a.isConst() {
			if val {
				bound(e.b, e.a.k+1, mask(e.b.w))
			} else {
				bound(e.b, 0, e.a.k)
			}
		}
	case OpUle:
		if e.b.isConst() {
			if val {
				bound(e.a, 0, e.b.k)
			} else if e.b.k < mask(e.b.w) {
				bound(e.a, e.b.k+1, mask(e.a.w))
			}
		} else if e.a.isConst() {
			if val {
				bound(e.b, e.a.k, mask(e.b.w))
			} else if e.a.k > 0 {
				bound(e.b, 0, e.a.k-1)
			}
		}
	}
}

// underFacts simplifies the boolean structure of e with the path's facts.
func (m *M) underFacts(e *Expr) *Expr {
	if e.w != 0 || e.isConst() {
		return e
	}
	switch m.intervalTruth(e) {
	case 0:
		return m.ctx.F
	case 1:
		return m.ctx.T
	}
	switch e.op {
	case OpNot:
		return m.ctx.Not(m.underFacts(e.a))
	case OpAnd:
		return m.ctx.And(m.underFacts(e.a), m.underFacts(e.b))
	case OpOr:
		return m.ctx.Or(m.underFacts(e.a), m.underFacts(e.b))
	}
	return e
}

func hasMul(e *Expr, seen map[*Expr]bool) bool {
	if e == nil || seen[e] {
		return false
	}
	seen[e] = true
	if e.op >= OpMul && e.op <= OpSRem {
		return true
	}
	return hasMul(e.a, seen) || hasMul(e.b, seen) || hasMul(e.c, seen)
}
