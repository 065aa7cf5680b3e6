package writer

import (
	"net/http"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Stats: what the writer publishes about itself.
func ZZ_Stats() {
	c := zzConfig()
	c.Name = venv.Word("name", 2)
	c.NATSSubject = []string{"s0", "s1", "s2"}[:1+sym.Choose("subjects", sym.Param("subjects", 3))]
	c.BatchMaxCount = 1
	interval := []time.Duration{3 * time.Second, 10 * time.Second, 7777 * time.Millisecond}[sym.Choose("interval", sym.Param("intervals", 3))]
	c.StatsInterval = config.NewDuration(interval)
	env := venv.New()
	posts, failed := 0, 0
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		posts++
		status := int(sym.Byte("status")) + 200
		if status >= 300 {
			failed++
		}
		return status, "", nil
	}
	start := time.Now()
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	time.Sleep(time.Second)
	dropped := map[string]int{}
	received := 0
	for _, s := range c.NATSSubject {
		dropped[s] = 0
		if sym.Choose("message", 2) == 1 {
			env.NATS.Deliver(s, []byte(venv.Word("data", 2)+"\n"))
			received++
		}
		sym.Settle()
	}
	for i, s := range env.NATS.Subscriptions() {
		n := i * 3
		if i == 0 {
			n = int(sym.Byte("drops"))
		}
		s.VerifDrop(n)
		dropped[s.Subject] = n
	}
	rounds := 2 + sym.Choose("rounds", 2)
	time.Sleep(interval * time.Duration(rounds-1))
	sym.Settle()
	w.Stop()
	time.Sleep(interval * 3)
	sym.Settle()
	env.CheckStats(venv.Expected{
		Subject:  zzMonitor,
		Labels:   []string{"component", "writer", "name", c.Name, "influxdb_address", "influx", "influxdb_port", "8086", "influxdb_dbname", "db"},
		Start:    start,
		Interval: interval,
		Rounds:   rounds,
		Counters: map[string]int{"received": received, "write_requests": posts, "failed_writes": failed},
		Each:     "nats_dropped", EachLabel: "subject", EachFinal: dropped,
	})
}
