package cmdmain

import (
	"errors"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
	"github.com/jumptrading/influx-spout/v2/writer"
)

// What may happen between two statistics intervals.
const (
	zzNothing = iota
	zzMatched
	zzUnmatched
	zzOutside
	zzMalformed
	zzFilterFails
	zzListenerFails
	zzArchiveFails
	zzWriteFails
	zzReadFails
	zzFilterDrops
	zzWriterDrops
	zzLate
	zzBadField
	zzEvents
)

// ZZ_Rounds: after each statistics interval the monitor's page has everything
// that happened since the components started.
func ZZ_Rounds() {
	env := venv.New()
	env.NATS.Route = true
	failing, writesFail := "", false
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && failing != "" && subject == failing {
			return errors.New("nats: failed")
		}
		return nil
	}
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		if writesFail && r.URL.Query().Get("db") == "live" {
			return []int{400, 503}[sym.Choose("status", 2)], "", nil
		}
		return 204, "", nil
	}

	mc := zzBase("mon")
	mc.Port = 9331
	lc := zzBase("lis", "lines")
	lc.Port = 10001
	fc := zzBase("fil", "lines")
	fc.Rule = []config.Rule{{Rtype: "basic", Match: "m", Subject: "s1"}}
	dc := zzBase("dow", "s1")
	lw := zzBase("live", "s1")
	lw.DBName = "live"
	aw := zzBase("arch", "s1-archive")
	aw.DBName = "archive"
	interval := 20 * time.Second
	for _, c := range []*config.Config{lc, fc, dc, lw, aw} {
		c.StatsInterval = config.NewDuration(interval)
	}
	m, err := monitor.Start(mc)
	parts := []stoppable{zzStarted(m, err)}
	w, err := writer.StartWriter(lw)
	parts = append(parts, zzStarted(w, err))
	a, err := writer.StartWriter(aw)
	parts = append(parts, zzStarted(a, err))
	d, err := downsampler.StartDownsampler(dc)
	parts = append(parts, zzStarted(d, err))
	f, err := filter.StartFilter(fc)
	parts = append(parts, zzStarted(f, err))
	l, err := listener.StartListener(lc)
	parts = append(parts, zzStarted(l, err))

	want := map[string]int{}
	for i := sym.Param("rounds", 2); i > 0; i-- {
		// the beginning of a period, away from the statistics
		period := 10 * time.Second
		time.Sleep(time.Now().Truncate(period).Add(period + time.Second).Sub(time.Now()))
		sym.Settle()

		event := sym.Choose("event", zzEvents)
		digit := sym.Byte("digit")
		sym.Assume(sym.And(digit >= '0', digit <= '9'))
		line := "m x=" + string([]byte{digit}) + "i"
		switch event {
		case zzUnmatched:
			line = "other x=1i"
		case zzOutside:
			line = "m x=1i 1000"
		case zzMalformed:
			line = "m,t= x=1i"
		case zzLate:
			line += " " + strconv.FormatInt(time.Now().Add(-time.Minute).UnixNano(), 10)
		case zzBadField:
			line = "m x="
		case zzFilterFails:
			failing = "s1"
		case zzListenerFails:
			failing = "lines"
		case zzArchiveFails:
			failing = "s1-archive"
		case zzWriteFails:
			writesFail = true
		}
		n := 0
		switch event {
		case zzNothing, zzReadFails, zzFilterDrops, zzWriterDrops:
		default:
			n = 1 + sym.Choose("lines", sym.Param("lines", 2))
		}
		switch event {
		case zzReadFails:
			env.UDP.Send(nil, errors.New("read failed"))
			want["lis read_errors"]++
		case zzFilterDrops, zzWriterDrops:
			drops := 1 + sym.Choose("drops", 2)
			for _, s := range env.NATS.Subscriptions() {
				if event == zzFilterDrops && s.Subject == "lines" {
					s.VerifDrop(drops)
					want["fil nats_dropped"] += drops
				}
				if event == zzWriterDrops && s.Subject == "s1-archive" {
					s.VerifDrop(drops)
					want["arch nats_dropped"] += drops
				}
			}
		}
		if n > 0 {
			env.UDP.Send([]byte(strings.Repeat(line+"\n", n)), nil)
			sym.Settle()
			want["lis received"]++
			want["lis sent"]++
			if event == zzListenerFails {
				want["lis failed_nats_publish"]++
			} else {
				want["fil processed"] += n
			}
		}
		live, archived := false, false
		switch event {
		case zzUnmatched:
			want["fil rejected"] += n
		case zzOutside:
			want["fil invalid_time"] += n
		case zzFilterFails:
			want["fil failed_nats_publish"]++
		case zzLate:
			live = true
			want["dow invalid_timestamps"] += n
		case zzBadField:
			live = true
			want["dow invalid_lines"] += n
		case zzMatched, zzWriteFails, zzArchiveFails:
			live = true
			want["dow sent"]++
			archived = event != zzArchiveFails
		}
		if live || event == zzFilterFails {
			want["fil passed"] += n
			want["fil triggered"] += n
		}
		if live {
			want["live received"]++
			want["live write_requests"]++
			want["dow received"]++
		}
		if event == zzWriteFails {
			want["live failed_writes"]++
		}
		if event == zzArchiveFails {
			want["dow failed_nats_publish"]++
		}
		if archived {
			want["arch received"]++
			want["arch write_requests"]++
		}
		time.Sleep(3 * period)
		sym.Settle()
		failing, writesFail = "", false
		time.Sleep(interval + time.Second)
		sym.Settle()

		r := env.Request(zzMonitor, "GET", "/metrics", nil)
		sym.Assert(r != nil && r.Status == 200, "page")
		page := string(r.Body)
		for _, x := range []struct{ component, name, metrics string }{
			{"listener", "lis", "received sent read_errors failed_nats_publish"},
			{"filter", "fil", "processed passed rejected invalid_time failed_nats_publish nats_dropped triggered"},
			{"downsampler", "dow", "received sent invalid_lines invalid_timestamps failed_nats_publish nats_dropped"},
			{"writer", "live", "received write_requests failed_writes nats_dropped"},
			{"writer", "arch", "received write_requests failed_writes nats_dropped"},
		} {
			for _, metric := range strings.Fields(x.metrics) {
				sym.Assert(zzCounter(page, metric, x.component, x.name, "") == want[x.name+" "+metric], "shown-"+x.name+"-"+metric)
			}
		}
		sym.Reach("event-" + strconv.Itoa(event))
	}
	for _, p := range parts {
		p.Stop()
	}
}
