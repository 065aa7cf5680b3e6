package cmdmain

import (
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// zzGate holds up whoever comes until it is opened.
type zzGate struct {
	mu      sync.Mutex
	waiting int
	ch      chan struct{}
}

func newZZGate() *zzGate { return &zzGate{ch: make(chan struct{})} }

func (g *zzGate) wait() {
	g.mu.Lock()
	g.waiting++
	g.mu.Unlock()
	<-g.ch
	g.mu.Lock()
	g.waiting--
	g.mu.Unlock()
}

func (g *zzGate) count() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.waiting
}

// zzSlowReply is a client which stops reading an answer.
type zzSlowReply struct {
	venv.Reply
	gate  *zzGate
	after int
}

func (r *zzSlowReply) Write(b []byte) (int, error) {
	n := r.after
	if n > len(b) {
		n = len(b)
	}
	r.Reply.Write(b[:n])
	r.gate.wait()
	r.Reply.Write(b[n:])
	return len(b), nil
}

// zzGet makes a request of its own; nil means that there is no answer yet.
func zzGet(h http.Handler, method, url string, body *venv.Body) func() *venv.Reply {
	var mu sync.Mutex
	var got *venv.Reply
	go func() {
		req, err := http.NewRequest(method, url, nil)
		if err != nil {
			panic(err)
		}
		req.Body = http.NoBody
		if body != nil {
			req.Body = body
		}
		r := &venv.Reply{}
		h.ServeHTTP(r, req)
		mu.Lock()
		got = r
		mu.Unlock()
	}()
	return func() *venv.Reply {
		mu.Lock()
		defer mu.Unlock()
		return got
	}
}

// ZZ_Stalled: what one client or server holds up does not hold up the rest.
func ZZ_Stalled() {
	modes := []string{"listener_http", "filter", "downsampler", "writer", "retry", "monitor"}
	mode := modes[sym.Choose("mode", len(modes))]
	what := mode
	if what == "retry" {
		what = "writer"
	}
	gate := newZZGate()
	env := venv.New()
	var mu sync.Mutex
	posts, stall, fail := "", false, false
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		mu.Lock()
		hold, bad := stall && strings.Contains(string(body), "slow"), fail
		mu.Unlock()
		if bad {
			return 500, "", nil
		}
		if hold {
			gate.wait()
		}
		mu.Lock()
		posts += string(body)
		mu.Unlock()
		return 204, "", nil
	}
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && strings.HasPrefix(subject, "slow") {
			gate.wait()
		}
		return nil
	}
	count := 1
	if mode == "listener_http" {
		count = 1 + sym.Choose("count", 3)
	}
	workers := 1
	if mode == "filter" || mode == "writer" {
		workers = 2 + sym.Choose("workers", 2)
	}
	c := zzRun(what, func(c *config.Config) {
		c.ProbePort = venv.ProbePort
		c.Workers = workers
		c.BatchMaxCount = count
		c.BatchMaxAge = config.NewDuration(2 * time.Second)
		switch mode {
		case "filter":
			c.Rule = append(c.Rule, config.Rule{Rtype: "basic", Match: "slow", Subject: "slow"})
		case "downsampler":
			c.NATSSubject = []string{"lines", "slow"}
		case "retry":
			c.WriterRetryBatches = 5
			c.WriterRetryInterval = config.NewDuration(3 * time.Second)
			c.WriterRetryTimeout = config.NewDuration(time.Hour)
		}
	})
	sym.Sched(sym.Param("delays", 0))
	probes := env.Probes()
	sym.Assert(probes != nil, "probes")
	stalls := 1
	if mode == "monitor" || mode == "listener_http" || (mode == "writer" && workers == 3) || (mode == "filter" && workers == 3) {
		stalls = 1 + sym.Choose("stalls", 2)
	}
	server := http.Handler(nil)
	if mode == "monitor" {
		server = env.Server(zzMonitor).Handler
		env.NATS.Deliver("monitor", []byte(`zz{component="c"} 1`))
	}
	if mode == "listener_http" {
		server = env.Server(zzHTTP).Handler
	}
	sym.Settle()
	slow := "slow x=1i\n"
	var replies []func() *venv.Reply
	for i := 0; i < stalls; i++ {
		switch mode {
		case "monitor":
			r := &zzSlowReply{gate: gate, after: sym.Choose("after", 2) * 5}
			req, _ := http.NewRequest("GET", "/metrics", nil)
			req.Body = http.NoBody
			go server.ServeHTTP(r, req)
			replies = append(replies, func() *venv.Reply { return &r.Reply })
		case "listener_http":
			reads, at := 0, sym.Choose("at", 3)
			b := &venv.Body{Pieces: [][]byte{[]byte(slow[:5]), []byte(slow[5:])}}
			b.Wait = func() {
				if reads == at {
					gate.wait()
				}
				reads++
			}
			url := []string{"/write", "/write?precision=ns", "/write?precision=ms"}[sym.Choose("precision", 3)]
			replies = append(replies, zzGet(server, "POST", url, b))
		case "filter", "writer":
			mu.Lock()
			stall = true
			mu.Unlock()
			env.NATS.Deliver("lines", []byte(slow))
		case "downsampler":
			env.NATS.Deliver("slow", []byte(slow))
			time.Sleep(25 * time.Second)
		case "retry":
			mu.Lock()
			fail, stall = true, true
			mu.Unlock()
			env.NATS.Deliver("lines", []byte(slow))
			sym.Settle()
			mu.Lock()
			fail = false
			mu.Unlock()
			time.Sleep(4 * time.Second)
		}
		sym.Settle()
	}
	sym.Assert(gate.count() == stalls, "stalled")
	n := 0
	completed := func() {
		for _, m := range env.NATS.Published() {
			if m.Subject == "lines" || m.Subject == "slow" || m.Subject == "slow-archive" {
				n += strings.Count(string(m.Data), slow[:len(slow)-1])
			}
		}
		env.NATS.Forget()
	}
	completed()

	for i := 1; i <= sym.Param("messages", 2); i++ {
		line := "m x=" + strconv.Itoa(i) + "i\n"
		subject := ""
		switch mode {
		case "monitor":
			env.NATS.Deliver("monitor", []byte(`zz{component="c"} 2`+strconv.Itoa(i)))
			sym.Settle()
			r := zzGet(server, "GET", "/metrics", nil)
			sym.Settle()
			sym.Assert(r() != nil, "page-served")
			sym.Assert(strings.Contains(string(r().Body), `zz{component="c"} 2`+strconv.Itoa(i)), "page-current")
		case "listener_http":
			url := []string{"/write", "/write?precision=ms"}[sym.Choose("precision", 2)]
			r := zzGet(server, "POST", url, &venv.Body{Pieces: [][]byte{[]byte(line)}})
			sym.Settle()
			sym.Assert(r() != nil && r().Status == 204, "write-accepted")
			subject = "lines"
			time.Sleep(5 * time.Second)
		case "filter":
			env.NATS.Deliver("lines", []byte(line))
			subject = "s1"
		case "downsampler":
			env.NATS.Deliver("lines", []byte(line))
			time.Sleep(25 * time.Second)
			subject = "lines-archive"
			line = line[:len(line)-1] + " " // a timestamp follows
		default:
			env.NATS.Deliver("lines", []byte(line))
			sym.Settle()
			mu.Lock()
			sym.Assert(strings.Contains(posts, line), "written")
			mu.Unlock()
		}
		sym.Settle()
		if subject != "" {
			found := false
			for _, m := range env.NATS.On(subject) {
				if strings.Contains(string(m.Data), line) {
					found = true
				}
			}
			sym.Assert(found, "published")
		}
	}
	for _, path := range []string{"/healthz", "/readyz"} {
		r := zzGet(probes, "GET", path, nil)
		sym.Settle()
		sym.Assert(r() != nil && r().Status == 200, "probe")
	}
	if mode != "monitor" {
		completed()
		time.Sleep(7 * time.Second)
		sym.Settle()
		sym.Assert(len(env.NATS.On("monitor")) > 0, "statistics")
	}
	sym.Assert(gate.count() == stalls, "still-stalled")

	// what was held up goes on afterwards
	close(gate.ch)
	sym.Settle()
	time.Sleep(5 * time.Second)
	sym.Settle()
	sym.Assert(gate.count() == 0, "released")
	for _, r := range replies {
		sym.Assert(r() != nil, "answered")
		if mode == "monitor" {
			sym.Assert(strings.Contains(string(r().Body), `zz{component="c"} `), "page-complete")
		} else {
			sym.Assert(r().Status == 204, "accepted")
		}
	}
	completed()
	if what == "writer" {
		mu.Lock()
		n = strings.Count(posts, slow)
		mu.Unlock()
	} else if mode == "monitor" {
		n = stalls
	}
	sym.Assert(n == stalls, "completed")
	c.Stop()
	sym.Reach(mode)
}
