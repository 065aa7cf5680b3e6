package downsampler

import (
	"strconv"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_StartFaults: failures of any start-up steps.
func ZZ_StartFaults() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort * sym.Choose("probes", 2)
	c.NATSSubject = []string{"s0", "s1", "s2"}[:1+sym.Choose("subjects", 3)]
	env := venv.New()
	env.StartFaults(func() (venv.Stopper, error) { return StartDownsampler(c) }, sym.Param("faults", 2), false)
}

// ZZ_Stop: stopping while messages arrive and periods end, under every
// schedule.
func ZZ_Stop() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.NATSSubject = []string{"s0", "s1"}[:1+sym.Choose("subjects", sym.Param("subjects", 2))]
	c.StatsInterval = config.NewDuration(3 * time.Second)
	c.DownsamplePeriod = config.NewDuration(3 * time.Second)
	if sym.Param("early", 0) == 1 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	env := venv.New()
	ds, err := StartDownsampler(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	sym.Assert(h != nil, "probes-serve")
	now := strconv.FormatInt(time.Now().UnixNano(), 10)
	if sym.Param("early", 0) == 0 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	for i := sym.Choose("messages", sym.Param("messages", 2)+1); i > 0; i-- {
		for _, s := range c.NATSSubject {
			env.NATS.Deliver(s, []byte("m x=1 "+now+"\nm x\n"))
		}
	}
	env.Later()
	venv.Status(h, "/readyz")
	env.StopRun(ds, h, nil)
}

// ZZ_Flooded: stopping while everything is full.
func ZZ_Flooded() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.DownsamplePeriod = config.NewDuration(3 * time.Second)
	env := venv.New()
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && subject != zzMonitor {
			time.Sleep(50 * time.Second)
		}
		return nil
	}
	ds, err := StartDownsampler(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	now := strconv.FormatInt(time.Now().UnixNano(), 10)
	env.NATS.Deliver("s0", []byte("m x=1 "+now+"\n"))
	time.Sleep(7 * time.Second)
	for i := 0; i < 1030; i++ {
		env.NATS.Deliver("s0", []byte("m\n"))
	}
	if sym.Choose("settled", 2) == 1 {
		sym.Settle()
	}
	env.StopRun(ds, h, nil)
}
