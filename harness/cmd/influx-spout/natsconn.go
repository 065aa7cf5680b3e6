package cmdmain

import (
	"net/http"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// zzRun starts the component of a configuration the way the program does.
func zzRun(mode string, set func(*config.Config)) stoppable {
	config.Fs = &zzFs{}
	os.Setenv("INFLUXDB_USER", "")
	os.Setenv("INFLUXDB_PASS", "")
	toml.VerifDecode = func(text string, v interface{}) error {
		c := v.(*config.Config)
		c.Mode = mode
		c.BatchMaxCount = 1
		c.NATSSubject = []string{"lines"}
		c.NATSSubjectMonitor = "monitor"
		c.StatsInterval = config.NewDuration(3 * time.Second)
		switch mode {
		case "downsampler":
			c.DownsamplePeriod = config.NewDuration(10 * time.Second)
		case "filter":
			c.Rule = []config.Rule{{Rtype: "basic", Match: "m", Subject: "s1"}}
		}
		c.Workers = 1
		set(c)
		return nil
	}
	c, err := runComponent("inst.toml")
	return zzStarted(c, err)
}

// ZZ_Outage: a component goes on working after its NATS server could not be
// reached for any time.
func ZZ_Outage() {
	modes := []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor"}
	mode := modes[sym.Choose("mode", len(modes))]
	address := "nats://" + venv.Word("host", 2) + ":4222"
	name := ""
	if sym.Choose("named", 2) == 1 {
		name = venv.Word("name", 2)
	}
	subject := venv.Word("subject", 2)
	env := venv.New()
	posts := ""
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		posts += string(body)
		return 204, "", nil
	}
	c := zzRun(mode, func(c *config.Config) {
		c.NATSAddress = address
		c.Name = name
		c.NATSSubject = []string{subject}
		c.Workers = 1 + sym.Choose("workers", 2)
	})
	if name == "" {
		name = "inst"
	}
	conns := env.NATS.Conns()
	sym.Assert(len(conns) > 0, "connects")
	for _, nc := range conns {
		sym.Assert(nc.Opts.Url == address, "address")
		sym.Assert(nc.Opts.Name == name, "name")
	}
	sent := 0
	works := func() bool {
		sent++
		env.NATS.Forget()
		posts = ""
		line := "m x=" + strconv.Itoa(sent) + "i"
		got := func(subject, text string) bool {
			for _, m := range env.NATS.On(subject) {
				if strings.HasPrefix(string(m.Data), text) {
					return true
				}
			}
			return false
		}
		ok := false
		switch mode {
		case "listener":
			env.UDP.Send([]byte(line), nil)
			sym.Settle()
			ok = got(subject, line)
		case "listener_http":
			r := env.Request(":13337", "POST", "/write", &venv.Body{Pieces: [][]byte{[]byte(line)}})
			sym.Settle()
			ok = r != nil && r.Status == 204 && got(subject, line)
		case "filter":
			env.NATS.Deliver(subject, []byte(line))
			sym.Settle()
			ok = got("s1", line)
		case "downsampler":
			env.NATS.Deliver(subject, []byte(line))
			time.Sleep(25 * time.Second)
			sym.Settle()
			ok = got(subject+"-archive", line)
		case "writer":
			env.NATS.Deliver(subject, []byte(line))
			sym.Settle()
			return posts == line && env.NATS.Open() > 0
		case "monitor":
			metric := `zz{component="c"} ` + strconv.Itoa(sent)
			env.NATS.Deliver("monitor", []byte(metric))
			sym.Settle()
			r := env.Request(":9331", "GET", "/metrics", nil)
			return r != nil && strings.Contains(string(r.Body), metric)
		}
		if !ok {
			return false
		}
		time.Sleep(7 * time.Second)
		sym.Settle()
		return len(env.NATS.On("monitor")) > 0
	}
	sym.Assert(works(), "works")
	for i := 0; i < sym.Param("outages", 2); i++ {
		n := sym.Int("attempts")
		sym.Assume(sym.And(n >= 0, n < 1<<40))
		env.NATS.Outage(n)
		sym.Settle()
		sym.Assert(works(), "works-after-outage")
	}
	c.Stop()
	sym.Reach(mode)
}

// ZZ_Burst: what waits while a component is busy is limited by its size, not
// by the number of messages, and what is lost is counted.
func ZZ_Burst() {
	modes := []string{"filter", "downsampler", "writer"}
	mode := modes[sym.Choose("mode", len(modes))]
	subjects := []string{"sa", "sb"}
	if mode == "filter" {
		subjects = subjects[:1]
	}
	max := sym.Param("messages", 4)
	limit := sym.Int("limit")
	sym.Assume(sym.And(limit >= 1, limit <= 20*max))
	env := venv.New()
	env.Answer = func(r *http.Request, body []byte) (int, string, error) { return 204, "", nil }
	c := zzRun(mode, func(c *config.Config) {
		c.Name = "zz"
		c.NATSSubject = subjects
		c.NATSMaxPendingSize = datasize.ByteSize(uint64(limit))
	})
	accepted, lost := 0, map[string]int{}
	for _, s := range subjects {
		lost[s] = 0
		waiting := 0
		for i := sym.Choose("messages", max+1); i > 0; i-- {
			line := "m x=1i"
			if sym.Choose("long", 2) == 1 {
				line = "m,host=hh x=1i"
			}
			env.NATS.Deliver(s, []byte(line))
			if waiting+len(line) <= limit {
				waiting += len(line)
				accepted++
			} else {
				lost[s]++
				sym.Reach("lost")
			}
		}
	}
	sym.Settle()
	env.NATS.Forget()
	time.Sleep(7 * time.Second)
	sym.Settle()
	received, dropped := -1, map[string]int{}
	for _, st := range env.Stats("monitor") {
		switch st.Name {
		case "received":
			received = int(st.Value)
		case "processed":
			received = int(st.Value)
		case "nats_dropped":
			s := "sa"
			if strings.Contains(st.Labels, `subject="sb"`) {
				s = "sb"
			}
			dropped[s] = int(st.Value)
		}
	}
	sym.Assert(received == accepted, "none-lost-within-limit")
	for _, s := range subjects {
		sym.Assert(dropped[s] == lost[s], "losses-counted")
	}
	c.Stop()
	sym.Reach(mode)
}

// ZZ_Backlog: any number of messages may wait as long as their size is within
// the limit.
func ZZ_Backlog() {
	modes := []string{"filter", "downsampler", "writer"}
	mode := modes[sym.Choose("mode", len(modes))]
	subjects := []string{"sa", "sb", "sc"}
	if mode == "filter" {
		subjects = subjects[:1]
	}
	limit := sym.Int("limit")
	sym.Assume(sym.And(limit >= 1, limit <= 1<<50))
	env := venv.New()
	group := ""
	if mode == "writer" && sym.Choose("group", 2) == 1 {
		group = "group"
	}
	c := zzRun(mode, func(c *config.Config) {
		c.NATSSubject = subjects
		c.NATSMaxPendingSize = datasize.ByteSize(uint64(limit))
		c.QueueGroup = group
	})
	subs := env.NATS.Subscriptions()
	sym.Assert(len(subs) == len(subjects), "subscriptions")
	for _, s := range subs {
		messages, bytes := sym.Int("messages"), sym.Int("bytes")
		sym.Assume(sym.And(messages >= 1, sym.And(bytes >= messages, bytes <= 1<<55)))
		if s.VerifHolds(messages, bytes) {
			sym.Assert(bytes <= limit, "limited")
			sym.Reach("held")
		} else {
			sym.Assert(bytes > limit, "held")
			sym.Reach("dropped")
		}
	}
	c.Stop()
	sym.Reach(mode)
}
