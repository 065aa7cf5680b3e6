package cmdmain

import (
	"errors"
	"io"
	"net/http"
	"os"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
	"github.com/spf13/afero"
)

type zzFs struct {
	afero.Fs
}

func (fs *zzFs) Open(name string) (afero.File, error) {
	if name == "/etc/influx-spout.toml" || name == "missing.toml" {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	return &zzFile{text: name}, nil
}

type zzFile struct {
	afero.File
	text string
}

func (f *zzFile) Read(p []byte) (int, error) {
	if f.text == "" {
		return 0, io.EOF
	}
	n := copy(p, f.text)
	f.text = f.text[n:]
	return n, nil
}

func (f *zzFile) Close() error { return nil }

// ZZ_Command: what runs for a configuration file.
func ZZ_Command() {
	config.Fs = &zzFs{}
	modes := []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor", "", "other"}
	mode := modes[sym.Choose("mode", len(modes))]
	file := []string{"inst.toml", "missing.toml"}[sym.Choose("missing", 2)]
	pprof := sym.Choose("pprof", 2)
	workers := sym.Choose("workers", 3)
	port := 0
	if sym.Choose("port", 2) == 1 {
		port = 1 + int(sym.Concrete(int(sym.Byte("p")&3)))
	}
	broken := sym.Choose("broken", 2) == 1
	toml.VerifDecode = func(text string, v interface{}) error {
		if broken {
			return errors.New("broken")
		}
		c := v.(*config.Config)
		c.Mode = mode
		c.PprofPort = 6060 * pprof
		c.BatchMaxCount = 1
		c.Workers = workers
		if port > 0 {
			c.Port = port
		}
		return nil
	}
	os.Setenv("INFLUXDB_USER", "")
	os.Setenv("INFLUXDB_PASS", "")
	env := venv.New()
	faulty := sym.Choose("connect-fails", 2) == 1
	env.NATS.Fail = func(op string, n int, subject string) error {
		if faulty && op == "connect" {
			return errors.New("no connection")
		}
		return nil
	}
	posts := 0
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		sym.Assert(string(body) == "m x=1i\n", "written")
		posts++
		return 204, "", nil
	}
	c, err := runComponent(file)
	sym.Settle()
	if file != "inst.toml" || broken || mode == "" || mode == "other" || faulty || (workers == 0 && (mode == "filter")) {
		if workers == 0 && mode == "filter" && err == nil {
			return // whether a filter needs workers is another property
		}
		sym.Assert(err != nil, "refused")
		sym.Assert(c == nil, "nothing-returned")
		sym.Assert(env.NATS.Open() == 0, "no-connection-left")
		sym.Assert(!env.UDP.Open(), "no-socket-left")
		sym.Assert(env.Server(":13337") == nil && env.Server(":9331") == nil, "no-server-left")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && c != nil, "started")
	sym.Assert((env.Server(":6060") != nil) == (pprof == 1), "profiling")
	udp, server := "", ""
	sub := map[string]bool{}
	for _, s := range env.NATS.Subscriptions() {
		sub[s.Subject] = true
	}
	at := func(d string) string {
		if port > 0 {
			return []string{"", ":1", ":2", ":3", ":4"}[port]
		}
		return d
	}
	switch mode {
	case "listener":
		udp = at(":10001")
	case "listener_http":
		server = at(":13337")
	case "monitor":
		server = at(":9331")
		sym.Assert(len(sub) == 1 && sub["influx-spout-monitor"], "subscribed")
	default:
		sym.Assert(len(sub) == 1 && sub["influx-spout"], "subscribed")
	}
	if udp == "" {
		sym.Assert(!env.UDP.Open(), "no-socket")
	} else {
		sym.Assert(env.UDP.Open() && env.UDP.Port == []int{10001, 1, 2, 3, 4}[port], "socket")
		sym.Assert(len(sub) == 0, "not-subscribed")
	}
	for _, a := range []string{":13337", ":9331", ":10001", ":1", ":2", ":3", ":4"} {
		sym.Assert((env.Server(a) != nil) == (a == server), "server")
	}
	line := []byte("m x=1i\n")
	published := func(subject string) bool {
		ok := false
		for _, m := range env.NATS.Published() {
			if m.Subject == subject && string(m.Data[:4]) == "m x=" {
				ok = true
			}
		}
		return ok
	}
	switch mode {
	case "listener":
		env.UDP.Send(line, nil)
		sym.Settle()
		sym.Assert(published("influx-spout"), "works")
	case "listener_http":
		r := env.Request(server, "POST", "/write", &venv.Body{Pieces: [][]byte{line}})
		sym.Settle()
		sym.Assert(r.Status == 204 && published("influx-spout"), "works")
	case "filter":
		env.NATS.Deliver("influx-spout", line)
		sym.Settle()
		sym.Assert(published("influx-spout-junk"), "works")
	case "downsampler":
		env.NATS.Deliver("influx-spout", line)
		time.Sleep(3 * time.Minute)
		sym.Settle()
		sym.Assert(published("influx-spout-archive"), "works")
	case "writer":
		env.NATS.Deliver("influx-spout", line)
		sym.Settle()
		sym.Assert(posts == 1, "works")
	case "monitor":
		env.NATS.Deliver("influx-spout-monitor", []byte("a{b=\"c\"} 1 2\n"))
		sym.Settle()
		r := env.Request(server, "GET", "/metrics", nil)
		sym.Assert(r.Status == 200 && string(r.Body) == "a{b=\"c\"} 1 2\n", "works")
	}
	sym.Reach(mode)
	c.Stop()
	sym.Settle()
	sym.Assert(env.NATS.Open() == 0 && !env.UDP.Open() && (server == "" || env.Server(server) == nil), "stopped")
}
