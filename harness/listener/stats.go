package listener

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Stats: what the listeners publish about themselves.
func ZZ_Stats() {
	c := zzConfig()
	c.Name = venv.Word("name", 2)
	c.BatchMaxCount = 1 + sym.Choose("count", 2)
	c.BatchMaxAge = config.NewDuration(time.Hour)
	interval := []time.Duration{3 * time.Second, 10 * time.Second, 7777 * time.Millisecond}[sym.Choose("interval", 3)]
	c.StatsInterval = config.NewDuration(interval)
	env := venv.New()
	received, sent, failed, readErrors := 0, 0, 0, 0
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && subject == zzSubject {
			sent++
			if sym.Choose("fails", 2) == 1 {
				failed++
				return errRead
			}
		}
		return nil
	}
	isHTTP := sym.Choose("http", 2) == 1
	start := time.Now()
	var l *Listener
	var err error
	if isHTTP {
		l, err = StartHTTPListener(c)
	} else {
		l, err = StartListener(c)
	}
	sym.Assert(err == nil, "starts")
	sym.Settle()
	time.Sleep(time.Second)
	n := sym.Choose("messages", sym.Param("messages", 3)+1)
	for i := 0; i < n; i++ {
		bad := sym.Choose("bad", 2) == 1
		received++
		if isHTTP {
			b := &venv.Body{Pieces: [][]byte{[]byte(venv.Word("data", 2) + " y=1\n")}}
			if bad {
				b.Err = errRead
				readErrors++
			}
			env.Request(zzAddr, "POST", "/write", b)
		} else if bad {
			received--
			readErrors++
			env.UDP.Send(nil, errRead)
		} else {
			env.UDP.Send([]byte(venv.Word("data", 2)+" y=1\n"), nil)
		}
		sym.Settle()
	}
	rounds := 2 + sym.Choose("rounds", 2)
	time.Sleep(interval * time.Duration(rounds-1))
	sym.Settle()
	l.Stop()
	time.Sleep(interval * 3)
	sym.Settle()
	env.CheckStats(venv.Expected{
		Subject:  zzMonitor,
		Labels:   []string{"component", "listener", "name", c.Name},
		Start:    start,
		Interval: interval,
		Rounds:   rounds,
		Counters: map[string]int{"received": received, "sent": sent, "read_errors": readErrors, "failed_nats_publish": failed},
	})
}
