package cmdmain

import (
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
	"github.com/jumptrading/influx-spout/v2/writer"
)

const (
	zzHTTP    = ":13337"
	zzMonitor = ":9331"
)

func zzBase(name string, subjects ...string) *config.Config {
	return &config.Config{
		Name:                name,
		NATSAddress:         "nats",
		NATSSubject:         subjects,
		NATSSubjectMonitor:  "monitor",
		NATSSubjectJunkyard: "junk",
		NATSMaxPendingSize:  200 * datasize.MB,
		InfluxDBProtocol:    "http",
		InfluxDBAddress:     "influx",
		InfluxDBPort:        8086,
		ReadBufferSize:      4 * datasize.MB,
		BatchMaxCount:       1,
		BatchMaxAge:         config.NewDuration(2 * time.Second),
		BatchMaxSize:        datasize.MB,
		MaxTimeDelta:        config.NewDuration(10 * time.Minute),
		WriteTimeout:        config.NewDuration(5 * time.Second),
		Workers:             1,
		DownsamplePeriod:    config.NewDuration(10 * time.Second),
		DownsampleSuffix:    "-archive",
		StatsInterval:       config.NewDuration(24 * time.Hour),
	}
}

func zzStarted(s stoppable, err error) stoppable {
	sym.Assert(err == nil, "starts")
	sym.Settle()
	return s
}

// zzLine is what a line sent should become.
type zzLine struct {
	to   string // database, "" if it is dropped
	text string
}

var zzDatabases = []string{"first", "second", "rest"}

// zzExpected is what becomes of a line (without its newline).
func zzExpected(line []byte) zzLine {
	l, ok := ref.Parse(line)
	if !ok {
		return zzLine{}
	}
	to := "rest"
	if string(ref.Unescape(l.Measurement)) == "ma" {
		to = "first"
	} else {
		for _, t := range l.Tags {
			if string(ref.Unescape(t.Key)) == "region" && string(ref.Unescape(t.Value)) == "eu" {
				to = "second"
			}
		}
	}
	out := append([]byte(nil), l.Measurement...)
	for i := 1; i < len(l.Tags); i++ {
		for j := i; j > 0 && string(ref.Unescape(l.Tags[j].Key)) < string(ref.Unescape(l.Tags[j-1].Key)); j-- {
			l.Tags[j], l.Tags[j-1] = l.Tags[j-1], l.Tags[j]
		}
	}
	for _, t := range l.Tags {
		out = append(out, ","...)
		out = append(out, t.Key...)
		out = append(out, "="...)
		out = append(out, t.Value...)
	}
	if l.HasRest {
		out = append(out, ' ')
		out = append(out, l.Rest...)
	}
	return zzLine{to, string(out) + "\n"}
}

// zzCounter is the value of a metric on the monitor's page; -1 if it is not
// there or not unique.
func zzCounter(page, metric, component, name, extra string) int {
	v := -1
	for _, l := range strings.Split(page, "\n") {
		if strings.HasPrefix(l, metric+"{") && strings.Contains(l, `component="`+component+`"`) &&
			strings.Contains(l, `name="`+name+`"`) && strings.Contains(l, extra) {
			f := strings.Fields(l[strings.LastIndex(l, "}")+1:])
			n, err := strconv.Atoi(f[0])
			if err != nil || v >= 0 {
				return -2
			}
			v = n
		}
	}
	return v
}

// ZZ_EndToEnd: lines go through a listener, a filter and the writers of three
// databases. what=37 checks what the databases get, what=38 the counters which
// the monitor shows.
func ZZ_EndToEnd() {
	what := sym.Param("what", 37)
	viaHTTP := sym.Choose("http", 2) == 1
	lc := zzBase("lis", "lines")
	lc.Port = 10001
	if viaHTTP {
		lc.Port = 13337
	}
	lc.BatchMaxCount = 1 + sym.Choose("count", sym.Param("counts", 2))
	fc := zzBase("fil", "lines")
	fc.Rule = []config.Rule{
		{Rtype: "basic", Match: "ma", Subject: "s1"},
		{Rtype: "tags", Tags: [][]string{{"region", "eu"}}, Subject: "s2"},
	}
	fc.Workers = 1 + sym.Choose("filterworkers", sym.Param("workers", 2))
	mc := zzBase("mon")
	mc.Port = 9331
	all := []*config.Config{lc, fc, mc}
	var wcs []*config.Config
	fails := sym.Choose("fails", sym.Param("fails", 2)) == 1
	together := sym.Choose("writercount", sym.Param("writercounts", 2)) == 1
	for i, db := range zzDatabases {
		c := zzBase("w-"+db, []string{"s1", "s2", "junk"}[i])
		c.DBName = db
		if together {
			c.BatchMaxCount = 2
		}
		if fails {
			c.WriterRetryBatches = 10
			c.WriterRetryInterval = config.NewDuration(3 * time.Second)
			c.WriterRetryTimeout = config.NewDuration(time.Minute)
		}
		wcs = append(wcs, c)
		all = append(all, c)
	}
	if what == 38 {
		for _, c := range all {
			c.StatsInterval = config.NewDuration(20 * time.Second)
		}
	}

	env := venv.New()
	env.NATS.Route = true
	got := map[string]string{}
	posts, failed := map[string]int{}, map[string]int{}
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		db := r.URL.Query().Get("db")
		posts[db]++
		if fails && posts[db] == 1 && sym.Choose("outcome", 2) == 1 {
			failed[db]++
			return 503, "", nil
		}
		got[db] += string(body)
		if len(body) > 0 && body[len(body)-1] != '\n' {
			got[db] += "\n"
		}
		return 204, "", nil
	}
	var parts []stoppable
	m, err := monitor.Start(mc)
	parts = append(parts, zzStarted(m, err))
	for _, c := range wcs {
		w, err := writer.StartWriter(c)
		parts = append(parts, zzStarted(w, err))
	}
	f, err := filter.StartFilter(fc)
	parts = append(parts, zzStarted(f, err))
	if viaHTTP {
		l, err := listener.StartHTTPListener(lc)
		parts = append(parts, zzStarted(l, err))
	} else {
		l, err := listener.StartListener(lc)
		parts = append(parts, zzStarted(l, err))
	}

	var want []zzLine
	messages := sym.Param("messages", 2)
	seconds := viaHTTP && sym.Choose("seconds", sym.Param("precisions", 2)) == 1
	for i := 0; i < messages; i++ {
		var msg []byte
		for j := 1 + sym.Choose("lines", sym.Param("lines", 2)); j > 0; j-- {
			b := sym.Byte("b")
			if sym.Param("plain", 0) == 1 {
				sym.Assume(sym.And(b >= 'a', b <= 'z'))
			} else {
				sym.Assume(b != '\n')
			}
			id := strconv.Itoa(len(want))
			now := time.Now()
			line := append([]byte(nil), []string{"m", "zz,region=e", "zz,b=1,a="}[sym.Choose("kind", 3)]...)
			line = append(line, b)
			line = append(line, " x="+id+"i"...)
			ts := ""
			switch sym.Choose("time", sym.Param("times", 2)) {
			case 1:
				ts = " " + strconv.FormatInt(now.UnixNano(), 10)
				if seconds {
					ts = " " + strconv.FormatInt(now.Unix(), 10)
				}
			case 2:
				ts = " " + strconv.FormatInt(now.Add(-time.Hour).UnixNano(), 10)
				if seconds {
					ts = " " + strconv.FormatInt(now.Add(-time.Hour).Unix(), 10)
				}
			}
			msg = append(append(msg, line...), ts...)
			if seconds && ts != "" {
				ts += "000000000"
			}
			e := zzExpected(append(line, ts...))
			if strings.HasPrefix(ts, " ") && len(ts) > 1 && !strings.HasSuffix(ts, strconv.FormatInt(now.UnixNano(), 10)) {
				e.to = ""
			}
			want = append(want, e)
			// For HTTP writes without a final newline and writers which put
			// messages together see ZZ_Unterminated.
			if j > 1 || (viaHTTP && together) || sym.Choose("newline", 2) == 1 {
				msg = append(msg, '\n')
			}
		}
		if viaHTTP {
			url := "/write"
			if seconds {
				url += "?precision=s"
			}
			r := env.Request(zzHTTP, "POST", url, &venv.Body{Pieces: [][]byte{msg}})
			sym.Assert(r != nil && r.Status == 204, "status")
		} else {
			env.UDP.Send(msg, nil)
		}
		sym.Settle()
	}
	time.Sleep(12 * time.Second) // the ages of two batches and a retry
	sym.Settle()
	if what == 37 {
		if !fails && fc.Workers == 1 {
			for _, db := range zzDatabases {
				text := ""
				for _, l := range want {
					if l.to == db {
						text += l.text
					}
				}
				sym.Assert(got[db] == text, "in-order")
			}
			sym.Reach("ordered")
		} else {
			n := map[string]int{}
			for id, l := range want {
				n[l.to] += len(l.text)
				mark := " x=" + strconv.Itoa(id) + "i"
				for _, db := range zzDatabases {
					found := 0
					for _, g := range strings.SplitAfter(got[db], "\n") {
						if strings.Contains(g, mark) {
							found++
							sym.Assert(l.to == db && g == l.text, "unchanged")
						}
					}
					if l.to == db {
						sym.Assert(found == 1, "once")
					}
				}
			}
			for _, db := range zzDatabases {
				sym.Assert(len(got[db]) == n[db], "nothing-else")
			}
			sym.Reach("unordered")
		}
		for _, l := range want {
			if l.to != "" {
				sym.Reach(l.to)
			}
		}
	} else {
		time.Sleep(45 * time.Second)
		sym.Settle()
		r := env.Request(zzMonitor, "GET", "/metrics", nil)
		sym.Assert(r != nil && r.Status == 200, "page")
		page := string(r.Body)
		dropped, to := 0, map[string]int{}
		for _, l := range want {
			to[l.to]++
		}
		dropped = to[""]
		sym.Assert(zzCounter(page, "received", "listener", "lis", "") == messages, "listener-received")
		sym.Assert(zzCounter(page, "failed_nats_publish", "listener", "lis", "") == 0, "listener-failed")
		sent := zzCounter(page, "sent", "listener", "lis", "")
		sym.Assert(sent == (messages+lc.BatchMaxCount-1)/lc.BatchMaxCount, "listener-sent")
		sym.Assert(zzCounter(page, "processed", "filter", "fil", "") == len(want), "filter-processed")
		sym.Assert(zzCounter(page, "passed", "filter", "fil", "") == to["first"]+to["second"], "filter-passed")
		sym.Assert(zzCounter(page, "rejected", "filter", "fil", "") == to["rest"], "filter-rejected")
		sym.Assert(zzCounter(page, "triggered", "filter", "fil", `rule="s1"`) == to["first"], "rule-first")
		sym.Assert(zzCounter(page, "triggered", "filter", "fil", `rule="s2"`) == to["second"], "rule-second")
		sym.Assert(zzCounter(page, "invalid_time", "filter", "fil", "") <= dropped, "filter-invalid")
		for _, db := range zzDatabases {
			sym.Assert(zzCounter(page, "write_requests", "writer", "w-"+db, "") == posts[db], "writer-requests")
			sym.Assert(zzCounter(page, "failed_writes", "writer", "w-"+db, "") == failed[db], "writer-failed")
			n := zzCounter(page, "received", "writer", "w-"+db, "")
			sym.Assert(n >= 0 && n <= sent && (n > 0) == (to[db] > 0), "writer-received")
		}
		sym.Reach("page")
	}
	for _, p := range parts {
		p.Stop()
	}
}

// ZZ_Archive: lines go through a filter and a downsampler to a writer.
func ZZ_Archive() {
	env := venv.New()
	env.NATS.Route = true
	got := ""
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		sym.Assert(r.URL.Query().Get("db") == "archive", "database")
		got += string(body)
		return 204, "", nil
	}
	wc := zzBase("w", "s1-archive")
	wc.DBName = "archive"
	w, err := writer.StartWriter(wc)
	parts := []stoppable{zzStarted(w, err)}
	d, err := downsampler.StartDownsampler(zzBase("d", "s1"))
	parts = append(parts, zzStarted(d, err))
	fc := zzBase("fil", "lines")
	fc.Rule = []config.Rule{{Rtype: "basic", Match: "m", Subject: "s1"}}
	f, err := filter.StartFilter(fc)
	parts = append(parts, zzStarted(f, err))

	// the beginning of a period
	period := 10 * time.Second
	time.Sleep(time.Now().Truncate(period).Add(period).Sub(time.Now()))
	sym.Settle()
	start := time.Now()
	type value struct{ sum, n int }
	periods := make([]value, 2)
	for i := sym.Param("messages", 2); i > 0; i-- {
		b := sym.Byte("digit")
		sym.Assume(sym.And(b >= '0', b <= '9'))
		k := sym.Choose("period", 2)
		line := append([]byte("m,b=2,a=1 x="), b)
		line = append(line, "i "+strconv.FormatInt(start.Add(time.Duration(k)*period+time.Second).UnixNano(), 10)...)
		if sym.Choose("other", 2) == 1 {
			line = append(line, "\nother x=1i"...)
		}
		env.NATS.Deliver("lines", line)
		sym.Settle()
		periods[k].sum += int(b - '0')
		periods[k].n++
	}
	time.Sleep(5 * period)
	sym.Settle()
	want := ""
	for k, p := range periods {
		if p.n > 0 {
			want += "m,a=1,b=2 x=" + strconv.Itoa(int(sym.Concrete(p.sum/p.n))) + "i " + strconv.FormatInt(start.Add(time.Duration(k+1)*period).UnixNano(), 10) + "\n"
		}
	}
	sym.Assert(got == want, "archived")
	sym.Reach("archived")
	for _, p := range parts {
		p.Stop()
	}
}

// ZZ_Unterminated: an HTTP write without a final newline, published in a
// message of its own, and a writer without rules which batches it with the
// next message.
func ZZ_Unterminated() {
	env := venv.New()
	env.NATS.Route = true
	got := ""
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		got += string(body)
		return 204, "", nil
	}
	wc := zzBase("w", "junk")
	wc.DBName = "rest"
	wc.BatchMaxCount = 2
	w, err := writer.StartWriter(wc)
	parts := []stoppable{zzStarted(w, err)}
	f, err := filter.StartFilter(zzBase("fil", "lines"))
	parts = append(parts, zzStarted(f, err))
	lc := zzBase("lis", "lines")
	lc.Port = 13337
	l, err := listener.StartHTTPListener(lc)
	parts = append(parts, zzStarted(l, err))
	b := sym.Byte("b")
	sym.Assume(sym.And(b >= 'a', b <= 'z'))
	first := append([]byte("m"), b)
	first = append(first, " x=1i"...)
	for _, body := range [][]byte{first, []byte("n y=2i\n")} {
		r := env.Request(zzHTTP, "POST", "/write", &venv.Body{Pieces: [][]byte{append([]byte(nil), body...)}})
		sym.Assert(r != nil && r.Status == 204, "status")
		sym.Settle()
	}
	time.Sleep(5 * time.Second)
	sym.Settle()
	sym.Assert(got == string(first)+"\nn y=2i\n", "unterminated-write-joined-with-next-message")
	for _, p := range parts {
		p.Stop()
	}
}
