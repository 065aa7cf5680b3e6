package main

import (
	"fmt"
	"strings"
)

func initSymNatives() {
	reg := func(name string, f Native) { natives[symPkg+"."+name] = f }
	in := func(w uint8, signed bool) Native {
		return func(m *M, t *Thread, a []Value) (Value, ctl) { return m.input(m.cstr(a[0]), w, signed), ctlNext }
	}
	reg("Bool", func(m *M, t *Thread, a []Value) (Value, ctl) {
		e := m.input(m.cstr(a[0]), 8, false)
		m.assertC(m.ctx.Ult(e, m.ctx.Const(2, 8)))
		return simplifyOut(m.ctx.Eq(e, m.ctx.Const(1, 8))), ctlNext
	})
	reg("Byte", in(8, false))
	reg("Uint16", in(16, false))
	reg("Uint32", in(32, false))
	reg("Uint64", in(64, false))
	reg("Int64", in(64, true))
	reg("Int", in(64, true))
	bytesIn := func(m *M, a []Value) []Value {
		name := m.freshName("bytes:" + m.cstr(a[0]))[6:]
		n := int(int64(m.concretize(a[1])))
		bs := make([]Value, n)
		for i := range bs {
			bs[i] = m.input(fmt.Sprintf("%s[%d]", name, i), 8, false)
		}
		return bs
	}
	reg("Bytes", func(m *M, t *Thread, a []Value) (Value, ctl) {
		bs := bytesIn(m, a)
		o := newArr(byteZ(), len(bs))
		o.f = bs
		return Slice{o, 0, len(bs), len(bs)}, ctlNext
	})
	reg("String", func(m *M, t *Thread, a []Value) (Value, ctl) { return mkStr(bytesIn(m, a)), ctlNext })
	reg("Choose", func(m *M, t *Thread, a []Value) (Value, ctl) {
		n := int(m.concretize(a[1]))
		return mkInt(uint64(m.choiceInput(m.cstr(a[0]), n))), ctlNext
	})
	reg("Assume", func(m *M, t *Thread, a []Value) (Value, ctl) { m.assume(a[0]); return nil, ctlNext })
	reg("Assert", func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.assertProp(a[0], m.cstr(a[1]), "assertion failed")
		return nil, ctlNext
	})
	reg("Fail", func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.assertProp(vFalse, m.cstr(a[0]), "reached")
		return nil, ctlNext
	})
	reg("Reach", func(m *M, t *Thread, a []Value) (Value, ctl) { m.reached[m.cstr(a[0])] = true; return nil, ctlNext })
	reg("Observe", func(m *M, t *Thread, a []Value) (Value, ctl) {
		var vs []Value
		s := a[1].(Slice)
		for i := 0; i < s.len; i++ {
			v := s.o.slot(s.off + i).(Iface)
			if sl, ok := v.v.(Slice); ok && v.t != nil {
				vs = append(vs, m.sliceToStr(sl))
			} else {
				vs = append(vs, v)
			}
		}
		m.observes = append(m.observes, observation{m.cstr(a[0]), vs})
		return nil, ctlNext
	})
	reg("Param", func(m *M, t *Thread, a []Value) (Value, ctl) {
		if v, ok := m.ex.params[m.cstr(a[0])]; ok {
			return mkInt(uint64(int64(v))), ctlNext
		}
		return a[1], ctlNext
	})
	reg("Symbolic", ret(vTrue))
	reg("And", simple(func(m *M, a []Value) Value { return m.andV(a[0], a[1]) }))
	reg("Or", simple(func(m *M, a []Value) Value { return m.notV(m.andV(m.notV(a[0]), m.notV(a[1]))) }))
	reg("Not", simple(func(m *M, a []Value) Value { return m.notV(a[0]) }))
	reg("Implies", simple(func(m *M, a []Value) Value { return m.notV(m.andV(a[0], m.notV(a[1]))) }))
	reg("IteByte", simple(func(m *M, a []Value) Value { return m.iteV(a, 8) }))
	reg("IteInt", simple(func(m *M, a []Value) Value { return m.iteV(a, 64) }))
	reg("IteInt64", simple(func(m *M, a []Value) Value { return m.iteV(a, 64) }))
	reg("Sched", func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.schedAll = true
		m.preempts = int(m.concretize(a[0]))
		return nil, ctlNext
	})
	reg("Select", func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.selectBudget = int(m.concretize(a[0]))
		return nil, ctlNext
	})
	reg("Rationals", func(m *M, t *Thread, a []Value) (Value, ctl) { m.rationals = true; return nil, ctlNext })
	reg("Near", simple(func(m *M, a []Value) Value { return m.ratNear(m.sliceToStr(a[0].(Slice)), a[1], a[2]) }))
	reg("Race", func(m *M, t *Thread, a []Value) (Value, ctl) { m.raceOn = true; return nil, ctlNext })
	reg("MapOrder", func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.mapOrder = m.choiceInput("maporder", 2)
		return nil, ctlNext
	})
	reg("Steps", func(m *M, t *Thread, a []Value) (Value, ctl) {
		m.stepLimit = int(m.concretize(a[0]))
		return nil, ctlNext
	})
	reg("Goroutines", simple(func(m *M, a []Value) Value {
		n := 0
		for _, t := range m.threads {
			if t.id != 0 && t.state != tDone {
				n++
			}
		}
		return mkInt(uint64(n))
	}))
	reg("Concrete", simple(func(m *M, a []Value) Value { return mkInt(m.concretize(a[0])) }))
	reg("IsSymbolic", simple(func(m *M, a []Value) Value {
		iv := a[0].(Iface)
		switch x := iv.v.(type) {
		case *Expr, *SymStr:
			return vTrue
		case Slice:
			_, c := m.sliceToStr(x).(string)
			return mkBool(!c)
		}
		return vFalse
	}))
	reg("Settle", func(m *M, t *Thread, a []Value) (Value, ctl) {
		if t.woken {
			t.woken = false
			return nil, ctlNext
		}
		t.idleWait = true
		return nil, m.block(t, "settle")
	})
	reg("Debug", func(m *M, t *Thread, a []Value) (Value, ctl) {
		s := a[0].(Slice)
		var ss []string
		for i := 0; i < s.len; i++ {
			ss = append(ss, showVal(s.o.slot(s.off+i).(Iface).v, 0))
		}
		fmt.Println("DEBUG", strings.Join(ss, " "))
		return nil, ctlNext
	})
	// fieldByName sets struct fields for the configuration decoder stub
	natives[symPkg+"/vrt.throwAbort"] = func(m *M, t *Thread, a []Value) (Value, ctl) {
		panic(abortf("%s", m.cstr(a[0])))
	}
}

func (m *M) iteV(a []Value, w uint8) Value {
	switch c := a[0].(type) {
	case Int:
		if c != 0 {
			return a[1]
		}
		return a[2]
	case *Expr:
		return simplifyOut(m.ctx.Ite(c, m.ctx.toExpr(a[1], w), m.ctx.toExpr(a[2], w)))
	}
	panic(abortf("ite on %T", a[0]))
}
