package filter

import (
	"errors"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

const (
	zzIn      = "in"
	zzJunk    = "junk"
	zzMonitor = "monitor"
)

func zzConfig() *config.Config {
	return &config.Config{
		Name:                "zz",
		NATSAddress:         "nats",
		NATSSubject:         []string{zzIn},
		NATSSubjectJunkyard: zzJunk,
		NATSSubjectMonitor:  zzMonitor,
		NATSMaxPendingSize:  200 * datasize.MB,
		Workers:             1,
		MaxTimeDelta:        config.NewDuration(10 * time.Minute),
		StatsInterval:       config.NewDuration(24 * time.Hour),
		Rule: []config.Rule{
			{Rtype: "basic", Match: "aa", Subject: "sa"},
			{Rtype: "basic", Match: "bb", Subject: "sb"},
		},
	}
}

// ZZ_Stats: what the filter publishes about itself.
func ZZ_Stats() {
	c := zzConfig()
	c.Name = venv.Word("name", 2)
	c.Rule = append(c.Rule, config.Rule{Rtype: "basic", Match: "cc", Subject: "sc"})[:1+sym.Choose("rules", 3)]
	interval := []time.Duration{3 * time.Second, 10 * time.Second, 7777 * time.Millisecond}[sym.Choose("interval", 3)]
	c.StatsInterval = config.NewDuration(interval)
	env := venv.New()
	failed := 0
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && subject != zzMonitor && sym.Choose("fails", 2) == 1 {
			failed++
			return errors.New("publish failed")
		}
		return nil
	}
	start := time.Now()
	f, err := StartFilter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	time.Sleep(time.Second)
	triggered := map[string]int{}
	for _, r := range c.Rule {
		triggered[r.Subject] = 0
	}
	processed, passed, rejected, invalid := 0, 0, 0, 0
	for i := sym.Choose("messages", sym.Param("messages", 2)+1); i > 0; i-- {
		data := ""
		for k := 1 + sym.Choose("more", 2); k > 0; k-- {
			name := venv.Word("m", 2)
			data += name + " x=1"
			processed++
			if sym.Choose("old", 2) == 1 {
				data += " 1\n"
				invalid++
				continue
			}
			data += "\n"
			hit := false
			for _, r := range c.Rule {
				if r.Match == name {
					passed++
					triggered[r.Subject]++
					hit = true
					break
				}
			}
			if !hit {
				rejected++
			}
		}
		env.NATS.Deliver(zzIn, []byte(data))
		sym.Settle()
	}
	drops := int(sym.Byte("drops"))
	env.NATS.Subscriptions()[0].VerifDrop(drops)
	time.Sleep(interval)
	sym.Settle()
	f.Stop()
	time.Sleep(interval * 3)
	sym.Settle()
	env.CheckStats(venv.Expected{
		Subject:  zzMonitor,
		Labels:   []string{"component", "filter", "name", c.Name},
		Start:    start,
		Interval: interval,
		Rounds:   2,
		Counters: map[string]int{"processed": processed, "passed": passed, "rejected": rejected,
			"invalid_time": invalid, "failed_nats_publish": failed, "nats_dropped": drops},
		Each: "triggered", EachLabel: "rule", EachFinal: triggered,
	})
}
