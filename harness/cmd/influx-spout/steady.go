package cmdmain

import (
	"errors"
	"net/http"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Steady: nothing accumulates while a component works.
func ZZ_Steady() {
	modes := []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor"}
	mode := modes[sym.Choose("mode", len(modes))]
	env := venv.New()
	var mu sync.Mutex
	status, fails := 204, false
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		mu.Lock()
		defer mu.Unlock()
		if status == 0 {
			return 0, "", errors.New("unreachable")
		}
		return status, "text", nil
	}
	env.NATS.Fail = func(op string, n int, subject string) error {
		mu.Lock()
		defer mu.Unlock()
		if fails && op == "publish" {
			return errors.New("publish failed")
		}
		return nil
	}
	c := zzRun(mode, func(c *config.Config) {
		c.ProbePort = venv.ProbePort
		c.Workers = 2
		c.BatchMaxAge = config.NewDuration(2 * time.Second)
		if mode == "writer" && sym.Choose("retry", 2) == 1 {
			c.WriterRetryBatches = 1
			c.WriterRetryInterval = config.NewDuration(2 * time.Second)
			c.WriterRetryTimeout = config.NewDuration(5 * time.Second)
		}
	})
	time.Sleep(4 * time.Second) // a round of statistics
	sym.Settle()
	goroutines, conns, listeners := sym.Goroutines(), env.NATS.Open(), env.OpenListeners()
	made, subs := len(env.NATS.Conns()), len(env.NATS.Subscriptions())
	h := env.Probes()
	for i := sym.Param("events", 2); i > 0; i-- {
		if mode != "writer" && mode != "monitor" {
			mu.Lock()
			fails = sym.Choose("publish-fails", 2) == 1
			mu.Unlock()
		}
		lines := []string{"m x=1i\n", "other,b=1,a=2 x=1", "malformed, x\n\n", "m x=1i 5\n"}
		switch mode {
		case "listener":
			var err error
			if k := sym.Choose("error", 3); k > 0 {
				err = []error{errors.New("read error"), http.ErrServerClosed}[k-1]
			}
			env.UDP.Send([]byte(lines[sym.Choose("line", 2)]), err)
		case "listener_http":
			b := &venv.Body{Pieces: [][]byte{[]byte(lines[sym.Choose("line", 2)])}}
			if sym.Choose("broken", 2) == 1 {
				b.Err = errors.New("broken")
			}
			url := []string{"/write", "/write?precision=s", "/other"}[sym.Choose("url", 3)]
			env.Request(":13337", "POST", url, b)
		case "filter", "downsampler":
			env.NATS.Deliver("lines", []byte(lines[sym.Choose("line", len(lines))]))
		case "writer":
			mu.Lock()
			status = []int{204, 500, 400, 0}[sym.Choose("status", 4)]
			mu.Unlock()
			env.NATS.Deliver("lines", []byte("m x=1i\n"))
			if sym.Choose("more", 2) == 1 {
				env.NATS.Deliver("lines", []byte("m x=2i\n"))
			}
		case "monitor":
			env.NATS.Deliver("monitor", []byte([]string{`a{b="c"} 1`, "gar{bage", ""}[sym.Choose("metric", 3)]))
			env.Request(":9331", "GET", "/metrics", nil)
		}
		if i == 1 {
			venv.Status(h, "/healthz")
			venv.Status(h, "/readyz")
		}
		wait := 6 * time.Second
		if mode == "downsampler" {
			wait = 24 * time.Second
		}
		sym.Settle()
		time.Sleep(wait)
		sym.Settle()
		sym.Assert(sym.Goroutines() == goroutines, "goroutines")
		sym.Assert(env.NATS.Open() == conns && len(env.NATS.Conns()) == made, "connections")
		sym.Assert(len(env.NATS.Subscriptions()) == subs, "subscriptions")
		sym.Assert(env.OpenListeners() == listeners, "listeners")
		sym.Assert(env.OpenReplies() == 0, "replies")
	}
	c.Stop()
	sym.Reach(mode)
}
