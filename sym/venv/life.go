package venv

import (
	"errors"
	"net/http"
	"strconv"
	"sync"
	"time"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// ProbePort is the probe port of the components under test.
const ProbePort = 44450

var probeAddr = ":" + strconv.Itoa(ProbePort)

var errFault = errors.New("injected fault")

// Stopper is a running component.
type Stopper interface{ Stop() }

// Probes returns the handler of the probe listener, nil if nothing listens.
func (e *Env) Probes() http.Handler {
	s := e.Server(probeAddr)
	if s == nil {
		return nil
	}
	return s.Handler
}

// Status is the answer of a handler to a GET.
func Status(h http.Handler, path string) int {
	req, err := http.NewRequest("GET", path, nil)
	if err != nil {
		panic(err)
	}
	req.Body = http.NoBody
	r := &Reply{}
	h.ServeHTTP(r, req)
	if r.Status == 0 {
		r.Status = 200
	}
	return r.Status
}

// CheckGone checks that nothing of a component is left.
func (e *Env) CheckGone() {
	sym.Settle()
	sym.Assert(sym.Goroutines() == 0, "goroutines-gone")
	sym.Assert(e.NATS.Open() == 0, "connections-closed")
	sym.Assert(len(e.NATS.Subscriptions()) == 0, "subscriptions-closed")
	sym.Assert(e.OpenListeners() == 0, "listeners-closed")
	sym.Assert(!e.UDP.Open(), "socket-closed")
}

// StartFaults starts a component while up to max of the start-up steps fail.
// bad means that the configuration makes starting fail as well.
func (e *Env) StartFaults(start func() (Stopper, error), max int, bad bool) {
	var mu sync.Mutex
	started := false
	failed, flushes := 0, 0
	fault := func(what string) error {
		mu.Lock()
		defer mu.Unlock()
		if started || failed >= max || !sym.Bool("fault:"+what) {
			return nil
		}
		failed++
		return errFault
	}
	e.NATS.Fail = func(op string, n int, subject string) error {
		switch op {
		case "flush":
			// later ones belong to the running component
			mu.Lock()
			flushes++
			first := flushes == 1
			mu.Unlock()
			if first {
				return fault(op)
			}
		case "connect", "subscribe", "limits":
			return fault(op)
		}
		return nil
	}
	e.FailListen = func(addr string) error {
		if addr == probeAddr {
			return nil
		}
		return fault("listen")
	}
	e.FailUDP = func() error { return fault("udp") }
	e.UDP.FailBuffer = func() error { return fault("buffer") }
	sym.Sched(sym.Param("delays", 0))
	c, err := start()
	mu.Lock()
	started = true
	n := failed
	mu.Unlock()
	if n > 0 || bad {
		sym.Assert(err != nil, "error-reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "starts")
		sym.Reach("started")
		sym.Settle()
		h := e.Probes()
		if h != nil {
			sym.Assert(Status(h, "/healthz") == 200, "alive")
			sym.Assert(Status(h, "/readyz") == 200, "ready")
		}
		c.Stop()
	}
	e.CheckGone()
	published := len(e.NATS.Published())
	time.Sleep(time.Hour)
	sym.Settle()
	sym.Assert(len(e.NATS.Published()) == published, "quiet-afterwards")
}

// Later lets an arbitrary time pass, up to about 2^bits/16 seconds.
func (e *Env) Later() {
	if sym.Choose("later", 2) == 0 {
		return
	}
	if sym.Param("any", 1) == 0 {
		time.Sleep(3 * time.Second)
		return
	}
	n := sym.Byte("ticks")
	sym.Assume(n < 1<<sym.Param("bits", 6))
	time.Sleep(time.Duration(n) << 26) // steps of 67 ms
}

// StopRun stops a running component and checks that this ends everything.
// activity reports what was done to the outside so far.
func (e *Env) StopRun(c Stopper, h http.Handler, activity func() int) {
	c.Stop()
	sym.Reach("stopped")
	published := len(e.NATS.Published())
	did := 0
	if activity != nil {
		did = activity()
	}
	if h != nil {
		sym.Assert(Status(h, "/readyz") == 503, "not-ready")
		sym.Assert(Status(h, "/healthz") == 503, "not-alive")
	}
	e.CheckGone()
	time.Sleep(time.Hour)
	sym.Settle()
	sym.Assert(len(e.NATS.Published()) == published, "quiet-afterwards")
	if activity != nil {
		sym.Assert(activity() == did, "inactive-afterwards")
	}
}
