package writer

import (
	"net/http"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_StartFaults: failures of any start-up steps.
func ZZ_StartFaults() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort * sym.Choose("probes", 2)
	c.Workers = 1 + sym.Choose("workers", 2)
	c.NATSSubject = []string{"s0", "s1"}[:1+sym.Choose("subjects", 2)]
	c.QueueGroup = []string{"", "q"}[sym.Choose("queue", 2)]
	if sym.Choose("retry", 2) == 1 {
		c.WriterRetryBatches = 1
		c.WriterRetryInterval = config.NewDuration(10 * time.Second)
		c.WriterRetryTimeout = config.NewDuration(25 * time.Second)
	}
	bad := sym.Choose("badrule", 2) == 1
	if bad {
		c.Rule = append(c.Rule, config.Rule{Rtype: "unknown", Match: "x"})
	}
	env := venv.New()
	env.StartFaults(func() (venv.Stopper, error) { return StartWriter(c) }, sym.Param("faults", 2), bad)
}

// ZZ_Stop: stopping while messages arrive and batches are written and retried,
// under every schedule.
func ZZ_Stop() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.Workers = 1 + sym.Choose("workers", sym.Param("workers", 2))
	c.StatsInterval = config.NewDuration(3 * time.Second)
	c.BatchMaxCount = 1
	if sym.Choose("retry", sym.Param("retry", 2)) == 1 {
		c.WriterRetryBatches = 1
		c.WriterRetryInterval = config.NewDuration(1 * time.Second)
		c.WriterRetryTimeout = config.NewDuration(time.Minute)
	}
	if sym.Param("early", 0) == 1 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	env := venv.New()
	var posts int64
	slow := sym.Choose("slow", 2) == 1
	fails := sym.Choose("fails", 2) == 1
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		atomic.AddInt64(&posts, 1)
		if slow {
			time.Sleep(2 * time.Second)
		}
		if fails {
			return 500, "", nil
		}
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	sym.Assert(h != nil, "probes-serve")
	if sym.Param("early", 0) == 0 {
		sym.Sched(sym.Param("delays", 2))
		sym.Select(sym.Param("selects", 0))
	}
	for i := sym.Choose("messages", sym.Param("messages", 2)+1); i > 0; i-- {
		env.NATS.Deliver(zzSubject, []byte("aa x=1\n"))
	}
	venv.Status(h, "/readyz")
	env.Later()
	env.StopRun(w, h, func() int { return int(atomic.LoadInt64(&posts)) })
}

// ZZ_Flooded: stopping while everything is full, and the probes meanwhile.
func ZZ_Flooded() {
	sym.Steps(50000000)
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.BatchMaxCount = 1
	if sym.Choose("retry", 2) == 1 {
		c.WriterRetryBatches = 1
		c.WriterRetryInterval = config.NewDuration(10 * time.Second)
		c.WriterRetryTimeout = config.NewDuration(time.Minute)
	}
	env := venv.New()
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		time.Sleep(4 * time.Second)
		return 500, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	for i := 0; i < 1030; i++ {
		env.NATS.Deliver(zzSubject, []byte("m\n"))
	}
	if sym.Choose("settled", 2) == 1 {
		sym.Settle()
		go func() {
			time.Sleep(time.Second) // the worker is still waiting for an answer
			sym.Assert(venv.Status(h, "/readyz") == 503, "not-ready-meanwhile")
			sym.Assert(venv.Status(h, "/healthz") == 503, "not-alive-meanwhile")
			sym.Reach("meanwhile")
		}()
	}
	env.StopRun(w, h, nil)
}

// ZZ_Busy: stopping at any time while the writer is busy: retries are under
// way and batches fail meanwhile.
func ZZ_Busy() {
	c := zzConfig()
	c.ProbePort = venv.ProbePort
	c.Workers = 1 + sym.Choose("workers", 2)
	c.BatchMaxSize = 20
	c.WriterRetryBatches = 1 + sym.Choose("batches", 2)
	c.WriterRetryInterval = config.NewDuration(100 * time.Millisecond)
	c.WriterRetryTimeout = config.NewDuration(time.Minute)
	sym.Sched(sym.Param("delays", 1))
	sym.Select(sym.Param("selects", 0))
	env := venv.New()
	var posts int64
	slowFirst := int64(sym.Choose("slowfirst", 4))
	pause := time.Duration(1+2*sym.Choose("pause", 3)) * time.Second
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		if n := atomic.AddInt64(&posts, 1); n == slowFirst+1 || n == slowFirst+3 {
			time.Sleep(pause)
		}
		return 500, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	h := env.Probes()
	sym.Assert(h != nil, "probes-serve")
	env.NATS.Deliver(zzSubject, []byte("aaaaaaaa xxxxxxxx=1\n"))
	for i := 1 + sym.Choose("messages", sym.Param("messages", 1)); i > 0; i-- {
		env.NATS.Deliver(zzSubject, []byte("aaaaaaaa xxxxxxxx=1\nbbbbbbbb xxxxxxxx=2\ncccccccc xxxxxxxx=3\n"))
	}
	env.Later()
	env.StopRun(w, h, func() int { return int(atomic.LoadInt64(&posts)) })
}
