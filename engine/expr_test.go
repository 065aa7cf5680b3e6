package main

import "testing"

// The rewriting rules for products, for every value of 8 bits.
func TestProducts(t *testing.T) {
	c := newCtx()
	y := c.Var("y", 8)
	for k := uint64(0); k < 256; k++ {
		p := c.Bin(OpMul, y, c.Const(k, 8))
		var q *Expr
		if k != 0 {
			q = c.Eq(c.Bin(OpSDiv, p, c.Const(k, 8)), y)
		}
		for cc := uint64(0); cc < 256; cc++ {
			C := c.Const(cc, 8)
			es := []*Expr{c.Ult(p, C), c.Ult(C, p), c.Slt(p, C), c.Slt(C, p), c.Eq(p, C)}
			for v := uint64(0); v < 256; v++ {
				c.newEpoch()
				var m Model
				for len(m) <= y.varIdx {
					m = append(m, 0)
				}
				m[y.varIdx] = v
				pv := v * k & 255
				want := []bool{pv < cc, cc < pv, int8(pv) < int8(cc), int8(cc) < int8(pv), pv == cc}
				for i, e := range es {
					if (c.eval(e, m) != 0) != want[i] {
						t.Fatalf("k=%d C=%d y=%d case %d", k, cc, v, i)
					}
				}
				if q != nil && cc == 0 {
					w := foldBin(OpSDiv, pv, k, 8) == v
					if (c.eval(q, m) != 0) != w {
						t.Fatalf("k=%d y=%d quotient", k, v)
					}
				}
			}
		}
	}
}
