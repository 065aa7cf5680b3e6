package probes

import (
	"strconv"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

func zzWant(ok bool) int {
	if ok {
		return 200
	}
	return 503
}

// ZZ_Sequence: state changes and requests in any order.
func ZZ_Sequence() {
	env := venv.New()
	port := sym.Param("port", 9000)
	p := Listen(port)
	sym.Settle()
	addr := ":" + strconv.Itoa(port)
	alive, ready := true, false
	check := func(what int) {
		if what != 1 {
			r := env.Request(addr, "GET", "/healthz", nil)
			sym.Assert(r != nil && r.Status == zzWant(alive), "alive")
		}
		if what != 0 {
			r := env.Request(addr, "GET", "/readyz", nil)
			sym.Assert(r != nil && r.Status == zzWant(ready), "ready")
		}
	}
	check(2)
	for i := sym.Choose("steps", sym.Param("steps", 4)+1); i > 0; i-- {
		switch sym.Choose("op", 4) {
		case 0:
			alive = sym.Bool("alive")
			p.SetAlive(alive)
		case 1:
			ready = sym.Bool("ready")
			p.SetReady(ready)
		case 2:
			check(0)
		case 3:
			check(1)
		}
		check(2)
	}
	p.Close()
	sym.Reach("closed")
	env.CheckGone()
	p.SetAlive(true)
	p.SetReady(true)
	env.CheckGone()
}

// ZZ_Overlap: requests while the state changes, under every schedule.
func ZZ_Overlap() {
	env := venv.New()
	p := Listen(venv.ProbePort)
	sym.Settle()
	h := env.Probes()
	a0, r0 := sym.Bool("alive"), sym.Bool("ready")
	p.SetAlive(a0)
	p.SetReady(r0)
	sym.Sched(sym.Param("delays", 3))
	sym.Race()
	a1, r1 := sym.Bool("alive"), sym.Bool("ready")
	done := make(chan bool)
	go func() {
		p.SetReady(r1)
		p.SetAlive(a1)
		done <- true
	}()
	ready := venv.Status(h, "/readyz")
	alive := venv.Status(h, "/healthz")
	sym.Assert(sym.Or(ready == zzWant(r0), ready == zzWant(r1)), "ready-meanwhile")
	sym.Assert(sym.Or(alive == zzWant(a0), alive == zzWant(a1)), "alive-meanwhile")
	<-done
	sym.Assert(venv.Status(h, "/readyz") == zzWant(r1), "ready")
	sym.Assert(venv.Status(h, "/healthz") == zzWant(a1), "alive")
	sym.Reach("compared")
	p.Close()
	env.CheckGone()
}

// ZZ_Close: closing right after listening.
func ZZ_Close() {
	sym.Sched(sym.Param("delays", 5))
	env := venv.New()
	p := Listen(venv.ProbePort)
	p.Close()
	sym.Reach("closed")
	env.CheckGone()
}

// ZZ_None: no probe port.
func ZZ_None() {
	env := venv.New()
	port := sym.Int("port")
	sym.Assume(port <= 0)
	p := Listen(port)
	for i := sym.Choose("steps", 4); i > 0; i-- {
		switch sym.Choose("op", 3) {
		case 0:
			p.SetAlive(sym.Bool("v"))
		case 1:
			p.SetReady(sym.Bool("v"))
		case 2:
			p.Close()
		}
	}
	sym.Settle()
	sym.Assert(env.OpenListeners() == 0, "nothing-listens")
	p.Close()
	sym.Reach("closed")
	env.CheckGone()
}
