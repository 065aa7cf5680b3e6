package listener

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_StartFaults: failures of any start-up steps.
func ZZ_StartFaults() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort * sym.Choose("probes", 2)
	env := venv.New()
	start := func() (venv.Stopper, error) { return StartListener(c) }
	if sym.Choose("http", 2) == 1 {
		start = func() (venv.Stopper, error) { return StartHTTPListener(c) }
	}
	env.StartFaults(start, sym.Param("faults", 2), false)
}

// ZZ_Stop: stopping while data arrives, under every schedule.
func ZZ_Stop() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.StatsInterval = config.NewDuration(3 * time.Second)
	c.BatchMaxAge = config.NewDuration(2500 * time.Millisecond)
	c.BatchMaxCount = 1 + sym.Choose("count", 2)
	isHTTP := sym.Param("http", 0) == 1
	if sym.Param("early", 0) == 1 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	env := venv.New()
	start := StartListener
	if isHTTP {
		start = StartHTTPListener
	}
	l, err := start(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	sym.Assert(h != nil, "probes-serve")
	if sym.Param("early", 0) == 0 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	done := make(chan bool, 8)
	n := sym.Choose("messages", sym.Param("messages", 2)+1)
	if isHTTP {
		s := env.Server(zzAddr)
		url := []string{"/write", "/write?precision=s"}[sym.Choose("precision", 2)]
		for i := 0; i < n; i++ {
			go func() {
				venv.Post(s, url, &venv.Body{Pieces: [][]byte{[]byte("m x=1 1"), []byte("2\n")}})
				done <- true
			}()
		}
	} else {
		for i := 0; i < n; i++ {
			env.UDP.Send([]byte("m x=1 1"), nil)
			done <- true
		}
	}
	venv.Status(h, "/readyz")
	env.Later()
	env.StopRun(l, h, nil)
	for i := 0; i < n; i++ {
		<-done
	}
}
