package main

import (
	"go/types"
	"time"
)

// time.Time values are represented as {valid, unix nanoseconds, loc}: the
// instants the code under test handles all come from nanosecond timestamps.

const unixToYear1Secs = 62135596800

func (m *M) timeInfo() *zeroInfo {
	return zeroInfoOf(m.typeByName("time", "Time"))
}

func (m *M) mkTime(ns Value) Value {
	o := m.timeInfo().zero().(*Obj)
	o.f[0] = mkInt(1)
	o.f[1] = ns
	return o
}

func timeParts(v Value) (valid bool, ns Value) {
	o := v.(*Obj)
	w := o.slot(0).(Int)
	return w != 0, o.slot(1)
}

func (m *M) timeNs(v Value) Value {
	ok, ns := timeParts(v)
	if !ok {
		var z time.Time
		return Int(uint64(z.UnixNano()))
	}
	return ns
}

func (m *M) i64(v Value) *Expr { return m.ctx.toExpr(v, 64) }

// checked signed addition; overflow is outside the encoding.
func (m *M) addChecked(a, b Value) Value {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return Int(uint64(x) + uint64(y))
		}
	}
	c := m.ctx
	x, y := m.i64(a), m.i64(b)
	s := c.Bin(OpAdd, x, y)
	z := c.Const(0, 64)
	ovf := c.Or(c.And(c.And(c.Slt(z, x), c.Slt(z, y)), c.Slt(s, z)),
		c.And(c.And(c.Slt(x, z), c.Slt(y, z)), c.Sle(z, s)))
	if m.decide(ovf) {
		panic(abortf("time beyond the 64-bit nanosecond range"))
	}
	return simplifyOut(s)
}

func (m *M) sltV(a, b Value) Value { return simplifyOut(m.ctx.Slt(m.i64(a), m.i64(b))) }

func (m *M) timeLess(a, b Value) Value {
	av, an := timeParts(a)
	bv, bn := timeParts(b)
	switch {
	case !av && !bv:
		return vFalse
	case !av:
		return vTrue
	case !bv:
		return vFalse
	}
	return m.sltV(an, bn)
}

func (m *M) timeSub(a, b Value) Value {
	av, an := timeParts(a)
	bv, bn := timeParts(b)
	switch {
	case !av && !bv:
		return vFalse
	case !bv:
		return Int(uint64(int64(1<<63 - 1)))
	case !av:
		return Int(uint64(1) << 63)
	}
	if x, ok := an.(Int); ok {
		if y, ok := bn.(Int); ok {
			return Int(uint64(time.Unix(0, int64(x)).Sub(time.Unix(0, int64(y)))))
		}
	}
	c := m.ctx
	x, y := m.i64(an), m.i64(bn)
	d := c.Sub(x, y)
	z := c.Const(0, 64)
	// overflow when the signs differ and the sign of d differs from x
	pos := c.And(c.And(c.Sle(z, x), c.Slt(y, z)), c.Slt(d, z))
	neg := c.And(c.And(c.Slt(x, z), c.Sle(z, y)), c.Sle(z, d))
	return simplifyOut(c.Ite(pos, c.Const(1<<63-1, 64), c.Ite(neg, c.Const(1<<63, 64), d)))
}

func (m *M) floorMod(x Value, d int64) Value {
	if i, ok := x.(Int); ok {
		r := int64(i) % d
		if r < 0 {
			r += d
		}
		return mkInt(uint64(r))
	}
	_, r := m.divWitness(x.(*Expr), uint64(d), true)
	c := m.ctx
	return simplifyOut(c.Ite(c.Slt(r, c.Const(0, 64)), c.Bin(OpAdd, r, c.Const(uint64(d), 64)), r))
}

func (m *M) truncTime(v Value, d Value) Value {
	dv := int64(m.concretize(d))
	ok, ns := timeParts(v)
	if dv <= 0 || !ok {
		return v
	}
	// offset of the Unix epoch from year 1, modulo d
	off := mulMod(unixToYear1Secs, 1000000000, uint64(dv))
	c := m.ctx
	r := m.floorMod(ns, dv)
	rr := m.addV(r, Int(off), 64)
	var rem Value
	if i, ok := rr.(Int); ok {
		rem = Int(uint64(i) % uint64(dv))
	} else {
		e := rr.(*Expr)
		dc := c.Const(uint64(dv), 64)
		rem = simplifyOut(c.Ite(c.Ult(e, dc), e, c.Sub(e, dc)))
	}
	if n, ok := ns.(Int); ok {
		return m.mkTime(Int(uint64(n) - uint64(rem.(Int))))
	}
	return m.mkTime(simplifyOut(c.Sub(m.i64(ns), m.i64(rem))))
}

func mulMod(a, b, d uint64) uint64 {
	// (a*b) mod d without overflow
	var r uint64
	a %= d
	for b > 0 {
		if b&1 == 1 {
			r = (r + a) % d
		}
		a = (a + a) % d
		b >>= 1
	}
	return r
}

func (m *M) goTime(v Value) time.Time {
	ok, ns := timeParts(v)
	if !ok {
		return time.Time{}
	}
	return time.Unix(0, int64(m.concretize(ns))).UTC()
}

func initTimeNatives() {
	natives["time.Now"] = simple(func(m *M, a []Value) Value { return m.mkTime(m.now) })
	natives["time.runtimeNano"] = simple(func(m *M, a []Value) Value { return m.now })
	natives["time.Since"] = simple(func(m *M, a []Value) Value { return m.timeSub(m.mkTime(m.now), a[0]) })
	natives["time.Until"] = simple(func(m *M, a []Value) Value { return m.timeSub(a[0], m.mkTime(m.now)) })
	natives["time.Unix"] = simple(func(m *M, a []Value) Value {
		sec, nsec := a[0], a[1]
		if s, ok := sec.(Int); ok {
			if s == 0 {
				return m.mkTime(nsec)
			}
			if n, ok := nsec.(Int); ok {
				t := time.Unix(int64(s), int64(n))
				if y := t.Year(); y < 1678 || y > 2261 {
					panic(abortf("time beyond the 64-bit nanosecond range"))
				}
				return m.mkTime(Int(uint64(t.UnixNano())))
			}
			return m.mkTime(m.addChecked(Int(uint64(s)*1000000000), nsec))
		}
		c := m.ctx
		e := m.i64(sec)
		lim := uint64(9000000000)
		if !m.decide(c.And(c.Slt(c.Const(-lim, 64), e), c.Slt(e, c.Const(lim, 64)))) {
			panic(abortf("time beyond the 64-bit nanosecond range"))
		}
		return m.mkTime(m.addChecked(simplifyOut(c.Bin(OpMul, e, c.Const(1000000000, 64))), nsec))
	})
	natives["(time.Time).UnixNano"] = simple(func(m *M, a []Value) Value { return m.timeNs(a[0]) })
	natives["(time.Time).Unix"] = simple(func(m *M, a []Value) Value {
		ok, ns := timeParts(a[0])
		if !ok {
			var z time.Time
			return Int(uint64(z.Unix()))
		}
		r := m.floorMod(ns, 1000000000)
		if n, ok := ns.(Int); ok {
			return mkInt(uint64(int64(n)-int64(r.(Int))) / 1000000000)
		}
		q, _ := m.divWitness(m.ctx.Sub(m.i64(ns), m.i64(r)), 1000000000, true)
		return simplifyOut(q)
	})
	natives["(time.Time).UnixMilli"] = simple(func(m *M, a []Value) Value {
		ok, ns := timeParts(a[0])
		if !ok {
			var z time.Time
			return Int(uint64(z.UnixMilli()))
		}
		r := m.floorMod(ns, 1000000)
		if n, ok := ns.(Int); ok {
			return Int(uint64((int64(n) - int64(r.(Int))) / 1000000))
		}
		q, _ := m.divWitness(m.ctx.Sub(m.i64(ns), m.i64(r)), 1000000, true)
		return simplifyOut(q)
	})
	natives["(time.Time).IsZero"] = simple(func(m *M, a []Value) Value {
		ok, _ := timeParts(a[0])
		return mkBool(!ok)
	})
	natives["(time.Time).Sub"] = simple(func(m *M, a []Value) Value { return m.timeSub(a[0], a[1]) })
	natives["(time.Time).Add"] = simple(func(m *M, a []Value) Value {
		ok, ns := timeParts(a[0])
		if !ok {
			d := int64(m.concretize(a[1]))
			if d == 0 {
				return a[0]
			}
			panic(abortf("arithmetic on the zero time"))
		}
		return m.mkTime(m.addChecked(ns, a[1]))
	})
	natives["(time.Time).After"] = simple(func(m *M, a []Value) Value { return m.timeLess(a[1], a[0]) })
	natives["(time.Time).Before"] = simple(func(m *M, a []Value) Value { return m.timeLess(a[0], a[1]) })
	natives["(time.Time).Compare"] = simple(func(m *M, a []Value) Value {
		if m.branch(m.timeLess(a[0], a[1])) {
			return Int(^uint64(0))
		}
		if m.branch(m.timeLess(a[1], a[0])) {
			return mkInt(1)
		}
		return mkInt(0)
	})
	natives["(time.Time).Equal"] = simple(func(m *M, a []Value) Value {
		av, an := timeParts(a[0])
		bv, bn := timeParts(a[1])
		if av != bv {
			return vFalse
		}
		if !av {
			return vTrue
		}
		return simplifyOut(m.ctx.Eq(m.i64(an), m.i64(bn)))
	})
	natives["(time.Time).Truncate"] = simple(func(m *M, a []Value) Value { return m.truncTime(a[0], a[1]) })
	same := simple(func(m *M, a []Value) Value { return copyObj(a[0].(*Obj)) })
	for _, n := range []string{"UTC", "Local", "Round0"} {
		natives["(time.Time)."+n] = same
	}
	natives["(time.Time).In"] = same
	natives["(time.Time).Round"] = simple(func(m *M, a []Value) Value {
		if d, ok := a[1].(Int); ok && d == 0 {
			return copyObj(a[0].(*Obj))
		}
		panic(abortf("Time.Round"))
	})
	natives["(time.Time).Format"] = simple(func(m *M, a []Value) Value { return m.goTime(a[0]).Format(m.cstr(a[1])) })
	natives["(time.Time).String"] = simple(func(m *M, a []Value) Value { return m.goTime(a[0]).String() })
	natives["time.Date"] = simple(func(m *M, a []Value) Value {
		iv := func(i int) int { return int(int64(m.concretize(a[i]))) }
		t := time.Date(iv(0), time.Month(iv(1)), iv(2), iv(3), iv(4), iv(5), iv(6), time.UTC)
		if y := t.Year(); y < 1678 || y > 2261 {
			panic(abortf("time beyond the 64-bit nanosecond range"))
		}
		return m.mkTime(Int(uint64(t.UnixNano())))
	})
	natives["time.Sleep"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		if t.woken {
			t.woken = false
			return nil, ctlNext
		}
		if m.branch(m.sltV(a[0], Int(1))) {
			if m.yieldPoint(t) {
				return nil, ctlSwitch
			}
			return nil, ctlNext
		}
		c := m.block(t, "sleep")
		seq := t.waitSeq
		m.addTimer(&timer{when: m.after(a[0]), fire: func() {
			if t.state == tBlocked && t.waitSeq == seq {
				t.woken = true
				m.wake(t)
			}
		}})
		return nil, c
	}
	timeChan := func(m *M, d Value, period int64, o *Obj) (*timer, *Chan) {
		ch := m.newChan(1, m.timeInfo())
		tm := &timer{period: period, ch: ch}
		tm.when = m.after(d)
		tm.fire = func() { m.trySend(nil, ch, m.mkTime(m.now)) }
		m.addTimer(tm)
		return tm, ch
	}
	natives["time.After"] = simple(func(m *M, a []Value) Value {
		_, ch := timeChan(m, a[0], 0, nil)
		return ch
	})
	natives["time.Tick"] = simple(func(m *M, a []Value) Value {
		d := int64(m.concretize(a[0]))
		if d <= 0 {
			return nil
		}
		_, ch := timeChan(m, mkInt(uint64(d)), d, nil)
		return ch
	})
	mkTimer := func(m *M, name string, d Value, period int64) Value {
		o := zeroInfoOf(m.typeByName("time", name)).zero().(*Obj)
		tm, ch := timeChan(m, d, period, o)
		o.f[0] = ch
		m.sideTimer[o] = tm
		return o
	}
	natives["time.NewTimer"] = simple(func(m *M, a []Value) Value {
		return mkTimer(m, "Timer", a[0], 0)
	})
	natives["time.NewTicker"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		d := int64(m.concretize(a[0]))
		if d <= 0 {
			return nil, m.goPanic(t, m.rtError("non-positive interval for NewTicker"))
		}
		return mkTimer(m, "Ticker", mkInt(uint64(d)), d), ctlNext
	}
	natives["time.AfterFunc"] = simple(func(m *M, a []Value) Value {
		o := zeroInfoOf(m.typeByName("time", "Timer")).zero().(*Obj)
		f := a[1]
		tm := &timer{when: m.after(a[0])}
		tm.fire = func() { m.spawn(nil, f, nil) }
		m.addTimer(tm)
		m.sideTimer[o] = tm
		return o
	})
	stop := simple(func(m *M, a []Value) Value {
		tm := m.sideTimer[mustObj(a[0])]
		if tm == nil {
			panic(abortf("Stop of an unknown timer"))
		}
		was := m.stopTimer(tm)
		if tm.ch != nil {
			if len(tm.ch.buf) > 0 {
				was = true
			}
			tm.ch.buf = nil
		}
		return mkBool(was)
	})
	natives["(*time.Timer).Stop"] = stop
	natives["(*time.Ticker).Stop"] = stop
	reset := func(ticker bool) Native {
		return simple(func(m *M, a []Value) Value {
			tm := m.sideTimer[mustObj(a[0])]
			if tm == nil {
				panic(abortf("Reset of an unknown timer"))
			}
			was := m.stopTimer(tm)
			if tm.ch != nil {
				if len(tm.ch.buf) > 0 {
					was = true
				}
				tm.ch.buf = nil
			}
			if ticker {
				tm.period = int64(m.concretize(a[1]))
			}
			tm.when = m.after(a[1])
			m.addTimer(tm)
			return mkBool(was)
		})
	}
	natives["(*time.Timer).Reset"] = reset(false)
	natives["(*time.Ticker).Reset"] = reset(true)
}

var _ types.Type
