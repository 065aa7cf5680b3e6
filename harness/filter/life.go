package filter

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_StartFaults: failures of any start-up steps.
func ZZ_StartFaults() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort * sym.Choose("probes", 2)
	c.Workers = 1 + sym.Choose("workers", 3)
	bad := sym.Choose("badrule", 2) == 1
	if bad {
		c.Rule = append(c.Rule, config.Rule{Rtype: "unknown", Match: "x", Subject: "sx"})
	}
	env := venv.New()
	env.StartFaults(func() (venv.Stopper, error) { return StartFilter(c) }, sym.Param("faults", 2), bad)
}

// ZZ_Stop: stopping while messages arrive, under every schedule.
func ZZ_Stop() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.Workers = 1 + sym.Choose("workers", sym.Param("workers", 2))
	c.StatsInterval = config.NewDuration(3 * time.Second)
	if sym.Param("early", 0) == 1 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	env := venv.New()
	f, err := StartFilter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	sym.Assert(h != nil, "probes-serve")
	if sym.Param("early", 0) == 0 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	env.Later()
	for i := sym.Choose("messages", sym.Param("messages", 2)+1); i > 0; i-- {
		env.NATS.Deliver(zzIn, []byte("aa x=1\nbb x=1\ncc x=1\n"))
	}
	venv.Status(h, "/readyz")
	env.StopRun(f, h, nil)
}

// ZZ_Flooded: stopping while everything is full.
func ZZ_Flooded() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	env := venv.New()
	slow := false
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && subject != zzMonitor && slow {
			time.Sleep(5 * time.Second)
		}
		return nil
	}
	f, err := StartFilter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	slow = true
	for i := 0; i < 1030; i++ {
		env.NATS.Deliver(zzIn, []byte("aa\n"))
	}
	if sym.Choose("settled", 2) == 1 {
		sym.Settle()
	}
	env.StopRun(f, h, nil)
}
