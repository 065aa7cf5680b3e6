package downsampler

import (
	"errors"
	"strconv"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

const zzMonitor = "monitor"

func zzConfig() *config.Config {
	return &config.Config{
		Name:               "zz",
		NATSAddress:        "nats",
		NATSSubject:        []string{"s0"},
		NATSSubjectMonitor: zzMonitor,
		NATSMaxPendingSize: 200 * datasize.MB,
		DownsamplePeriod:   config.NewDuration(time.Minute),
		DownsampleSuffix:   "-down",
		StatsInterval:      config.NewDuration(24 * time.Hour),
	}
}

// ZZ_Stats: what the downsampler publishes about itself.
func ZZ_Stats() {
	c := zzConfig()
	c.Name = venv.Word("name", 2)
	c.NATSSubject = []string{"s0", "s1", "s2"}[:1+sym.Choose("subjects", sym.Param("subjects", 3))]
	c.StatsInterval = config.NewDuration(150 * time.Second)
	env := venv.New()
	failed := 0
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && subject != zzMonitor && sym.Choose("fails", 2) == 1 {
			failed++
			return errors.New("publish failed")
		}
		return nil
	}
	start := time.Now()
	ds, err := StartDownsampler(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	received, sent, badLines, badTimes := 0, 0, 0, 0
	dropped := map[string]int{}
	now := strconv.FormatInt(start.UnixNano()+int64(time.Second), 10)
	for _, s := range c.NATSSubject {
		dropped[s] = 0
		what := sym.Choose("message", 5)
		if what == 0 {
			continue
		}
		received++
		switch what {
		case 1:
			sent++
		case 2:
			badLines++
		case 3:
			badTimes++
		case 4:
			sent++
			badLines++
		}
		text := []string{"", "m x=1 " + now + "\n", "m x\n", "m x=1 1\n", "m x=1 " + now + "\nm x\n"}[what]
		sym.Assert(env.NATS.Deliver(s, []byte(text)) == 1, "subscribed")
	}
	sym.Settle()
	for i, s := range env.NATS.Subscriptions() {
		n := i * 3
		if i == 0 {
			n = int(sym.Byte("drops"))
		}
		s.VerifDrop(n)
		dropped[s.Subject] = n
	}
	time.Sleep(151 * time.Second)
	sym.Settle()
	ds.Stop()
	time.Sleep(10 * time.Minute)
	sym.Settle()
	env.CheckStats(venv.Expected{
		Subject:  zzMonitor,
		Labels:   []string{"component", "downsampler", "name", c.Name},
		Start:    start,
		Interval: 150 * time.Second,
		Rounds:   2,
		Counters: map[string]int{"received": received, "sent": sent, "invalid_lines": badLines,
			"invalid_timestamps": badTimes, "failed_nats_publish": failed},
		Each: "nats_dropped", EachLabel: "subject", EachFinal: dropped,
	})
}
