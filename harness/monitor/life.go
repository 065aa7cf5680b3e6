package monitor

import (
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_StartFaults: failures of any start-up steps.
func ZZ_StartFaults() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort * sym.Choose("probes", 2)
	env := venv.New()
	env.StartFaults(func() (venv.Stopper, error) { return Start(c) }, sym.Param("faults", 2), false)
}

// ZZ_Stop: stopping while messages and requests arrive, under every schedule.
func ZZ_Stop() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	if sym.Param("early", 0) == 1 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	env := venv.New()
	m, err := Start(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	sym.Assert(h != nil, "probes-serve")
	page := env.Server(":9331").Handler
	if sym.Param("early", 0) == 0 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	for i := sym.Choose("messages", sym.Param("messages", 2)+1); i > 0; i-- {
		env.NATS.Deliver(zzSubject, []byte("aa{k=\"v\"} 1 2\nbb 1\n"))
	}
	done := make(chan bool, 1)
	go func() {
		sym.Assert(venv.Status(page, "/metrics") == 200, "page")
		done <- true
	}()
	venv.Status(h, "/readyz")
	env.Later()
	env.StopRun(m, h, nil)
	<-done
}
