package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks ------------------------------------------------------

type vclock []int32

func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) set(i int, x int32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}

func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.get(i) {
			v.set(i, x)
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

type epoch struct {
	tid int
	clk int32
	fr  *Fn // where: a function and its instruction
	blk int
	pc  int
}

type cell struct {
	w epoch
	r []epoch
}

const shadowPage = 8

// shadow holds the last accesses of the slots of an object.
type shadow struct {
	pages map[int]*[shadowPage]cell
}

// release copies the clock of t into *dst and advances t.
func (m *M) release(t *Thread, dst *vclock) {
	if !m.raceOn {
		return
	}
	dst.join(t.vc)
	t.vc.set(t.id, t.vc.get(t.id)+1)
}

func (m *M) acquire(t *Thread, src vclock) {
	if !m.raceOn {
		return
	}
	t.vc.join(src)
}

func (m *M) cellOf(p **shadow, i int) *cell {
	if *p == nil {
		*p = &shadow{pages: map[int]*[shadowPage]cell{}}
		m.undo = append(m.undo, undoRec{f: func() { *p = nil }})
	}
	pg := (*p).pages[i/shadowPage]
	if pg == nil {
		pg = new([shadowPage]cell)
		for k := range pg {
			pg[k].w.tid = -1
		}
		(*p).pages[i/shadowPage] = pg
	}
	return &pg[i%shadowPage]
}

func (m *M) raceEpoch(t *Thread) epoch {
	e := epoch{tid: t.id, clk: t.vc.get(t.id)}
	fr := t.top
	for fr != nil && !fr.fn.inRepo {
		fr = fr.caller
	}
	if fr == nil {
		fr = t.top
	}
	if fr != nil {
		e.fr, e.blk, e.pc = fr.fn, fr.block, fr.pc
	}
	return e
}

func (e epoch) where() string {
	if e.fr == nil {
		return "?"
	}
	return e.fr.name + " " + e.fr.posAt(&Frame{fn: e.fr, block: e.blk, pc: e.pc})
}

func (m *M) raceAccess(sp **shadow, i int, write bool) {
	t := m.cur
	if t == nil || m.initMode > 0 {
		return
	}
	c := m.cellOf(sp, i)
	w := c.w
	if w.tid >= 0 && w.tid != t.id && w.clk > t.vc.get(w.tid) {
		m.raceReport(w, write, true)
	}
	if write {
		for _, r := range c.r {
			if r.tid != t.id && r.clk > t.vc.get(r.tid) {
				m.raceReport(r, true, false)
			}
		}
		c.w = m.raceEpoch(t)
		c.r = c.r[:0]
		return
	}
	for k := range c.r {
		if c.r[k].tid == t.id {
			c.r[k].clk = t.vc.get(t.id)
			return
		}
	}
	c.r = append(c.r, m.raceEpoch(t))
}

func (m *M) raceReport(prev epoch, write, prevWrite bool) {
	k := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	det := fmt.Sprintf("data race: %s at %s / previous %s at %s", k(write), m.raceEpoch(m.cur).where(), k(prevWrite), prev.where())
	m.schedUsed = true
	m.violation("race", det, m.model)
	m.endPath("race")
}

func (m *M) raceRead(o *Obj, i int)  { m.raceAccess(&o.sh, i, false) }
func (m *M) raceWrite(o *Obj, i int) { m.raceAccess(&o.sh, i, true) }
func (m *M) raceReadAgg(o *Obj) {
	for i := 0; i < len(o.f); i++ {
		if o.info.slotZero(i).agg {
			m.raceReadAgg(o.slot(i).(*Obj))
		} else {
			m.raceRead(o, i)
		}
	}
}
func (m *M) raceMap(mp *Map, write bool) { m.raceAccess(&mp.sh, 0, write) }

// ---- threads ------------------------------------------------------------

func (m *M) spawn(t *Thread, fv Value, args []Value) {
	nt := &Thread{id: len(m.threads), compIdx: -1}
	m.threads = append(m.threads, nt)
	if m.raceOn && t != nil {
		nt.vc = t.vc.clone()
		nt.vc.set(nt.id, 1)
		t.vc.set(t.id, t.vc.get(t.id)+1)
	}
	var fn *Fn
	var bind []Value
	switch f := fv.(type) {
	case *Fn:
		fn = f
	case *Closure:
		fn, bind = f.fn, f.bind
	case *NativeFn:
		fn = &Fn{native: f.f, name: f.name}
		fn.once.Do(func() {})
	default:
		panic(abortf("go of %T", fv))
	}
	fn.ensure()
	if fn.redirect != nil {
		fn = fn.redirect
	}
	if fn.native != nil {
		nat := fn.native
		nt.start = func() ctl {
			_, c := nat(m, nt, args)
			return c
		}
		return
	}
	m.pushFrame(nt, fn, args, bind, -1)
}

// runnable lists the other runnable threads in round-robin order after t.
func (m *M) runnable(t *Thread) []*Thread {
	var out []*Thread
	n := len(m.threads)
	start := 0
	if t != nil {
		start = t.id + 1
	}
	for k := 0; k < n; k++ {
		x := m.threads[(start+k)%n]
		if x != t && x.state == tRunnable {
			out = append(out, x)
		}
	}
	return out
}

// yieldPoint offers a preemption before a synchronisation operation of t. It
// reports whether another thread runs first.
func (m *M) yieldPoint(t *Thread) bool {
	if m.initMode > 0 || !m.schedAll {
		return false
	}
	if t.yielded {
		t.yielded = false
		return false
	}
	if m.preempts <= 0 {
		return false
	}
	others := m.runnable(t)
	if len(others) == 0 {
		return false
	}
	k := len(others)
	if k > m.preempts {
		k = m.preempts
	}
	c := m.choose(k + 1)
	if c == 0 {
		return false
	}
	m.preempts -= c
	m.schedUsed = true
	t.yielded = true
	m.cur = others[c-1]
	return true
}

// pickNext selects the next thread after the current one blocked or ended.
func (m *M) pickNext() bool {
	for {
		rs := m.runnable(m.cur)
		if m.cur != nil && m.cur.state == tRunnable {
			rs = append(rs, m.cur)
		}
		if len(rs) > 0 {
			c := 0
			if m.schedAll && m.preempts > 0 && len(rs) > 1 {
				k := len(rs)
				if k > m.preempts+1 {
					k = m.preempts + 1
				}
				c = m.choose(k)
				if c > 0 {
					m.preempts -= c
					m.schedUsed = true
				}
			}
			m.cur = rs[c]
			return true
		}
		// a thread waiting for quiescence goes first
		idle := false
		for _, t := range m.threads {
			if t.state == tBlocked && t.idleWait {
				t.idleWait = false
				t.woken = true
				t.state = tRunnable
				idle = true
				break
			}
		}
		if idle {
			continue
		}
		if !m.advanceTime() {
			return false
		}
	}
}

// block suspends t; the instruction is executed again when it is woken.
func (m *M) block(t *Thread, why string) ctl {
	t.state = tBlocked
	t.why = why
	t.waitSeq++
	return ctlBlock
}

func (m *M) wake(t *Thread) {
	if t.state == tBlocked {
		t.state = tRunnable
		t.why = ""
	}
}

// run executes the path until the main thread ends.
func (m *M) run(entry *Fn) {
	main := &Thread{id: 0, compIdx: -1}
	main.vc.set(0, 1)
	m.threads = []*Thread{main}
	m.cur = main
	m.pushFrame(main, entry, nil, nil, -1)
	for {
		t := m.cur
		c := ctlNext
		if t.start != nil {
			s := t.start
			c = s()
			if c == ctlNext || c == ctlEnd {
				t.start = nil
				c = ctlEnd
			}
		} else {
			for m.cur == t && c != ctlBlock && c != ctlEnd {
				c = m.step(t)
			}
		}
		switch c {
		case ctlEnd:
			t.state = tDone
			if t == main {
				m.endPath("done")
			}
			if !m.pickNext() {
				m.deadlock()
			}
		case ctlBlock:
			if t.state != tBlocked {
				panic(abortf("blocked thread is runnable"))
			}
			if !m.pickNext() {
				m.deadlock()
			}
		}
	}
}

func (m *M) deadlock() {
	var ws []string
	for _, t := range m.threads {
		if t.state == tBlocked {
			fn := "?"
			for fr := t.top; fr != nil; fr = fr.caller {
				if fr.fn.inRepo {
					fn = fr.fn.name
					break
				}
			}
			ws = append(ws, fmt.Sprintf("g%d %s in %s", t.id, t.why, fn))
		}
	}
	m.cur = m.threads[0]
	m.violation("deadlock", fmt.Sprintf("all goroutines blocked: %v", ws), m.model)
	m.endPath("deadlock")
}

// ---- timers -------------------------------------------------------------

type timer struct {
	when   Value // int64 nanoseconds, possibly symbolic
	seq    int
	period int64
	fire   func()
	active bool
	obj    *Obj
	ch     *Chan
}

// after is the instant d from now, or now if d is negative.
func (m *M) after(d Value) Value {
	if x, ok := d.(Int); ok {
		if int64(x) <= 0 {
			return m.now
		}
	} else if m.branch(m.sltV(d, Int(0))) {
		return m.now
	}
	return m.addChecked(m.now, d)
}

// timeBefore decides whether a < b.
func (m *M) timeBefore(a, b Value) bool {
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return int64(x) < int64(y)
		}
	}
	return m.branch(m.sltV(a, b))
}

func (m *M) addTimer(t *timer) {
	m.timerSeq++
	t.seq = m.timerSeq
	t.active = true
	m.timers = append(m.timers, t)
}

func (m *M) stopTimer(t *timer) bool {
	was := t.active
	t.active = false
	for i, x := range m.timers {
		if x == t {
			m.timers = append(m.timers[:i:i], m.timers[i+1:]...)
			break
		}
	}
	return was
}

const horizonNs = int64(3 * 24 * 3600 * 1e9)

// advanceTime moves the virtual clock to the next timer.
func (m *M) advanceTime() bool {
	if len(m.timers) == 0 {
		return false
	}
	sort.SliceStable(m.timers, func(i, j int) bool { return m.timers[i].seq < m.timers[j].seq })
	// the earliest of the concrete instants, then the others
	var first *timer
	for _, t := range m.timers {
		if _, ok := t.when.(Int); ok && (first == nil || m.timeBefore(t.when, first.when)) {
			first = t
		}
	}
	for _, t := range m.timers {
		if _, ok := t.when.(Int); !ok && (first == nil || m.timeBefore(t.when, first.when)) {
			first = t
		}
	}
	when := first.when
	const start = 946684800 * 1000000000
	if w, ok := when.(Int); m.timeAdvances > 20000 || ok && int64(w)-start > horizonNs || !ok && m.timeAdvances > 2000 {
		m.cur = m.threads[0]
		m.violation("hang", "main goroutine makes no progress while timers keep firing: "+m.threads[0].why, m.model)
		m.endPath("hang")
	}
	m.timeAdvances++
	m.now = when
	var due []*timer
	for _, t := range m.timers {
		if t == first {
			due = append(due, t)
			continue
		}
		x, ok1 := t.when.(Int)
		y, ok2 := when.(Int)
		if ok1 && ok2 {
			if x == y {
				due = append(due, t)
			}
		} else if m.branch(simplifyOut(m.ctx.Eq(m.i64(t.when), m.i64(when)))) {
			due = append(due, t)
		}
	}
	for _, t := range due {
		if !t.active {
			continue
		}
		if t.period > 0 {
			t.when = m.addChecked(t.when, Int(uint64(t.period)))
			m.timerSeq++
			t.seq = m.timerSeq
		} else {
			m.stopTimer(t)
		}
		t.fire()
	}
	return true
}

// ---- channels -----------------------------------------------------------

type chanElem struct {
	v  Value
	vc vclock
}

type waiter struct {
	t   *Thread
	seq int
	val Value
	idx int
}

// Chan is a channel.
type Chan struct {
	cap    int
	buf    []chanElem
	recvq  []waiter
	sendq  []waiter
	closed bool
	ez     *zeroInfo
	vc     vclock // closers
	rvc    vclock // receivers
}

func (m *M) newChan(n int, ez *zeroInfo) *Chan {
	if m.initMode > 0 && n == 0 {
		// shared channels created by package initialisers are not supported when mutated
	}
	return &Chan{cap: n, ez: ez}
}

func (w *waiter) live() bool {
	return w.t.state == tBlocked && w.t.waitSeq == w.seq && w.t.compIdx < 0
}

func popWaiter(q *[]waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return &w
		}
	}
	return nil
}

func hasWaiter(q []waiter, not *Thread) bool {
	for i := range q {
		if q[i].live() && q[i].t != not {
			return true
		}
	}
	return false
}

// trySend completes a send when it does not block. t may be nil (timers).
func (m *M) trySend(t *Thread, ch *Chan, v Value) bool {
	if ch.closed {
		return false
	}
	if w := popWaiter(&ch.recvq); w != nil {
		w.t.compIdx, w.t.compVal, w.t.compOK = w.idx, v, true
		m.wake(w.t)
		if m.raceOn && t != nil {
			tv := w.t.vc.clone()
			w.t.vc.join(t.vc)
			t.vc.set(t.id, t.vc.get(t.id)+1)
			if ch.cap == 0 {
				t.vc.join(tv)
				w.t.vc.set(w.t.id, w.t.vc.get(w.t.id)+1)
			}
		}
		return true
	}
	if len(ch.buf) < ch.cap {
		e := chanElem{v: v}
		if m.raceOn && t != nil {
			m.acquire(t, ch.rvc)
			m.release(t, &e.vc)
		}
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], e)
		return true
	}
	return false
}

// tryRecv completes a receive when it does not block.
func (m *M) tryRecv(t *Thread, ch *Chan) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		e := ch.buf[0]
		ch.buf = ch.buf[1:]
		if m.raceOn {
			m.acquire(t, e.vc)
			m.release(t, &ch.rvc)
		}
		if w := popWaiter(&ch.sendq); w != nil {
			ne := chanElem{v: w.val}
			if m.raceOn {
				m.acquire(w.t, ch.rvc)
				m.release(w.t, &ne.vc)
			}
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], ne)
			w.t.compIdx, w.t.compVal, w.t.compOK = w.idx, nil, true
			m.wake(w.t)
		}
		return e.v, true, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		w.t.compIdx, w.t.compVal, w.t.compOK = w.idx, nil, true
		m.wake(w.t)
		if m.raceOn {
			tv := t.vc.clone()
			t.vc.join(w.t.vc)
			w.t.vc.set(w.t.id, w.t.vc.get(w.t.id)+1)
			w.t.vc.join(tv)
			t.vc.set(t.id, t.vc.get(t.id)+1)
		}
		return w.val, true, true
	}
	if ch.closed {
		m.acquire(t, ch.vc)
		return ch.ez.zero(), false, true
	}
	return nil, false, false
}

func (m *M) chanSend(t *Thread, ch *Chan, v Value) ctl {
	if t.compIdx >= 0 {
		ok := t.compOK
		t.compIdx = -1
		if !ok {
			return m.goPanic(t, m.rtError("send on closed channel"))
		}
		return ctlNext
	}
	if m.initMode > 0 {
		panic(abortf("channel operation in init"))
	}
	if m.yieldPoint(t) {
		return ctlSwitch
	}
	if ch == nil {
		return m.block(t, "send on nil channel")
	}
	if ch.closed {
		return m.goPanic(t, m.rtError("send on closed channel"))
	}
	if m.trySend(t, ch, v) {
		return ctlNext
	}
	c := m.block(t, "chan send")
	ch.sendq = append(ch.sendq, waiter{t, t.waitSeq, v, 0})
	return c
}

func (m *M) chanRecv(t *Thread, ch *Chan) (Value, bool, ctl) {
	if t.compIdx >= 0 {
		t.compIdx = -1
		v := t.compVal
		t.compVal = nil
		return v, t.compOK, ctlNext
	}
	if m.initMode > 0 {
		panic(abortf("channel operation in init"))
	}
	if m.yieldPoint(t) {
		return nil, false, ctlSwitch
	}
	if ch == nil {
		return nil, false, m.block(t, "receive from nil channel")
	}
	if v, ok, done := m.tryRecv(t, ch); done {
		return v, ok, ctlNext
	}
	c := m.block(t, "chan receive")
	ch.recvq = append(ch.recvq, waiter{t, t.waitSeq, nil, 0})
	return nil, false, c
}

func (m *M) chanClose(t *Thread, ch *Chan) ctl {
	if ch == nil {
		return m.goPanic(t, m.rtError("close of nil channel"))
	}
	if m.yieldPoint(t) {
		return ctlSwitch
	}
	if ch.closed {
		return m.goPanic(t, m.rtError("close of closed channel"))
	}
	m.release(t, &ch.vc)
	ch.closed = true
	for {
		w := popWaiter(&ch.recvq)
		if w == nil {
			break
		}
		w.t.compIdx, w.t.compVal, w.t.compOK = w.idx, ch.ez.zero(), false
		m.acquire(w.t, ch.vc)
		m.wake(w.t)
	}
	for {
		w := popWaiter(&ch.sendq)
		if w == nil {
			break
		}
		w.t.compIdx, w.t.compOK = w.idx, false
		m.wake(w.t)
	}
	return ctlNext
}

func (c *compiler) sel(x *ssa.Select) Instr {
	type cs struct {
		send bool
		ch   opd
		v    opd
	}
	var cases []cs
	var recvZ []*zeroInfo
	for _, s := range x.States {
		k := cs{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		if k.send {
			k.v = c.op(s.Send)
		} else {
			recvZ = append(recvZ, zeroInfoOf(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
		cases = append(cases, k)
	}
	dst := c.reg(x)
	blocking := x.Blocking
	return func(m *M, t *Thread, fr *Frame) ctl {
		if m.initMode > 0 {
			panic(abortf("select in init"))
		}
		done := func(idx int, ok bool, v Value) ctl {
			res := make(Tuple, 2+len(recvZ))
			res[0] = mkInt(uint64(int64(idx)))
			res[1] = mkBool(ok)
			ri := 0
			for i := range cases {
				if cases[i].send {
					continue
				}
				if i == idx && v != nil {
					res[2+ri] = v
				} else {
					res[2+ri] = recvZ[ri].zero()
				}
				ri++
			}
			fr.regs[dst] = res
			return ctlNext
		}
		if t.compIdx >= 0 {
			idx, ok, v := t.compIdx, t.compOK, t.compVal
			t.compIdx, t.compVal = -1, nil
			if cases[idx].send {
				if !ok {
					return m.goPanic(t, m.rtError("send on closed channel"))
				}
				return done(idx, false, nil)
			}
			return done(idx, ok, v)
		}
		if m.yieldPoint(t) {
			return ctlSwitch
		}
		chans := make([]*Chan, len(cases))
		var ready []int
		for i := range cases {
			ch, _ := cases[i].ch.get(m, fr).(*Chan)
			chans[i] = ch
			if ch == nil {
				continue
			}
			if cases[i].send {
				if ch.closed || len(ch.buf) < ch.cap || hasWaiter(ch.recvq, nil) {
					ready = append(ready, i)
				}
			} else if len(ch.buf) > 0 || ch.closed || hasWaiter(ch.sendq, nil) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 && m.selectBudget > 0 {
				k = m.choose(len(ready))
				if k > 0 {
					m.selectBudget--
					m.schedUsed = true
				}
			}
			i := ready[k]
			if cases[i].send {
				if chans[i].closed {
					return m.goPanic(t, m.rtError("send on closed channel"))
				}
				m.trySend(t, chans[i], cases[i].v.get(m, fr))
				return done(i, false, nil)
			}
			v, ok, _ := m.tryRecv(t, chans[i])
			return done(i, ok, v)
		}
		if !blocking {
			return done(-1, false, nil)
		}
		r := m.block(t, "select")
		for i, ch := range chans {
			if ch == nil {
				continue
			}
			if cases[i].send {
				ch.sendq = append(ch.sendq, waiter{t, t.waitSeq, cases[i].v.get(m, fr), i})
			} else {
				ch.recvq = append(ch.recvq, waiter{t, t.waitSeq, nil, i})
			}
		}
		return r
	}
}

// ---- mutexes and wait groups --------------------------------------------

type mutexState struct {
	locked  bool
	readers int
	waitW   int
	waiters []waiter
	vc      vclock
	rvc     vclock
}

func (m *M) mutexOf(o *Obj) *mutexState {
	s := m.mutexes[o]
	if s == nil {
		s = &mutexState{}
		m.mutexes[o] = s
	}
	return s
}

func (m *M) wakeAll(ws *[]waiter) {
	for _, w := range *ws {
		if w.t.state == tBlocked && w.t.waitSeq == w.seq {
			m.wake(w.t)
		}
	}
	*ws = (*ws)[:0:0]
}

func (m *M) mutexLock(t *Thread, o *Obj) ctl {
	if m.initMode > 0 {
		return ctlNext
	}
	if m.yieldPoint(t) {
		return ctlSwitch
	}
	s := m.mutexOf(o)
	if t.lockWait {
		t.lockWait = false
		s.waitW--
	}
	if s.locked || s.readers > 0 {
		t.lockWait = true
		s.waitW++
		c := m.block(t, "mutex lock")
		t.yielded = m.schedAll
		s.waiters = append(s.waiters, waiter{t: t, seq: t.waitSeq})
		return c
	}
	s.locked = true
	m.acquire(t, s.vc)
	m.acquire(t, s.rvc)
	return ctlNext
}

func (m *M) mutexTryLock(t *Thread, o *Obj) bool {
	s := m.mutexOf(o)
	if s.locked || s.readers > 0 {
		return false
	}
	s.locked = true
	m.acquire(t, s.vc)
	m.acquire(t, s.rvc)
	return true
}

func (m *M) mutexUnlock(t *Thread, o *Obj) ctl {
	if m.initMode > 0 {
		return ctlNext
	}
	s := m.mutexOf(o)
	if !s.locked {
		m.violation("crash", "unlock of unlocked mutex", m.model)
		m.endPath("crash")
	}
	s.locked = false
	m.release(t, &s.vc)
	m.wakeAll(&s.waiters)
	return ctlNext
}

func (m *M) mutexRLock(t *Thread, o *Obj) ctl {
	if m.initMode > 0 {
		return ctlNext
	}
	if m.yieldPoint(t) {
		return ctlSwitch
	}
	s := m.mutexOf(o)
	if s.locked || s.waitW > 0 {
		c := m.block(t, "rwmutex rlock")
		t.yielded = m.schedAll
		s.waiters = append(s.waiters, waiter{t: t, seq: t.waitSeq})
		return c
	}
	s.readers++
	m.acquire(t, s.vc)
	return ctlNext
}

func (m *M) mutexRUnlock(t *Thread, o *Obj) ctl {
	if m.initMode > 0 {
		return ctlNext
	}
	s := m.mutexOf(o)
	if s.readers == 0 {
		m.violation("crash", "RUnlock of unlocked RWMutex", m.model)
		m.endPath("crash")
	}
	s.readers--
	m.release(t, &s.rvc)
	if s.readers == 0 {
		m.wakeAll(&s.waiters)
	}
	return ctlNext
}

type wgState struct {
	n       int
	waiters []waiter
	vc      vclock
}

func (m *M) wgOf(o *Obj) *wgState {
	s := m.wgs[o]
	if s == nil {
		s = &wgState{}
		m.wgs[o] = s
	}
	return s
}

func (m *M) wgAdd(t *Thread, o *Obj, d int) ctl {
	s := m.wgOf(o)
	s.n += d
	m.release(t, &s.vc)
	if s.n < 0 {
		return m.goPanic(t, m.rtError("sync: negative WaitGroup counter"))
	}
	if s.n == 0 {
		m.wakeAll(&s.waiters)
	}
	return ctlNext
}

func (m *M) wgWait(t *Thread, o *Obj) ctl {
	if m.yieldPoint(t) {
		return ctlSwitch
	}
	s := m.wgOf(o)
	if s.n > 0 {
		c := m.block(t, "WaitGroup wait")
		t.yielded = m.schedAll
		s.waiters = append(s.waiters, waiter{t: t, seq: t.waitSeq})
		return c
	}
	m.acquire(t, s.vc)
	return ctlNext
}
