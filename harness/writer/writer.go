package writer

import (
	"errors"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

const (
	zzSubject = "lines"
	zzMonitor = "monitor"
)

var errSend = errors.New("connection refused")

func zzConfig() *config.Config {
	return &config.Config{
		Name:               "zz",
		NATSAddress:        "nats",
		NATSSubject:        []string{zzSubject},
		NATSSubjectMonitor: zzMonitor,
		NATSMaxPendingSize: 200 * datasize.MB,
		InfluxDBProtocol:   "http",
		InfluxDBAddress:    "influx",
		InfluxDBPort:       8086,
		DBName:             "db",
		BatchMaxCount:      2,
		BatchMaxAge:        config.NewDuration(2500 * time.Millisecond),
		BatchMaxSize:       datasize.MB,
		WriteTimeout:       config.NewDuration(5 * time.Second),
		Workers:            1,
		StatsInterval:      config.NewDuration(24 * time.Hour),
	}
}

// zzPost is a write request.
type zzPost struct {
	body   string
	at     time.Time
	failed bool
}

// zzLines is what is left of a message: the lines rules accept.
func zzLines(data string) []string {
	var out []string
	for len(data) > 0 {
		i := 0
		for i < len(data) && data[i] != '\n' {
			i++
		}
		if i < len(data) {
			i++
		}
		out = append(out, data[:i])
		data = data[i:]
	}
	return out
}

// ZZ_Deliver: a sequence of messages, pauses and failing writes under several
// settings. what=17 checks the content, what=18 the triggers, 19 the rules.
func ZZ_Deliver() {
	what := sym.Param("what", 17)
	check := func(p int, ok bool, id string) {
		if p == what {
			sym.Assert(ok, id)
		}
	}
	c := zzConfig()
	c.BatchMaxCount = []int{1, 2, 3, 100}[sym.Choose("count", sym.Param("counts", 4))]
	ages := []time.Duration{150 << 24, 20 << 24, time.Hour} // 2.5 s, 0.34 s
	age := ages[sym.Choose("age", sym.Param("ages", 3))]
	c.BatchMaxAge = config.NewDuration(age)
	c.BatchMaxSize = []datasize.ByteSize{1 << 20, 4, 6, 9}[sym.Choose("size", sym.Param("sizes", 3))]
	rules := sym.Param("rules", 0) == 1
	if rules {
		c.Rule = []config.Rule{{Rtype: "basic", Match: "m"}, {Rtype: "basic", Match: "k"}}
	}
	oracle, err := filter.RuleSetFromConfig(c) // what a rule matches is another property
	sym.Assert(err == nil, "rules")
	env := venv.New()
	var posts []zzPost
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		p := zzPost{body: string(body), at: time.Now()}
		defer func() { posts = append(posts, p) }()
		if sym.Param("fail", 0) == 1 {
			switch sym.Choose("outcome", 3) {
			case 1:
				p.failed = true
				return 503, "unavailable", nil
			case 2:
				p.failed = true
				return 0, "", errSend
			}
		}
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()

	want := ""    // everything received which is to be written
	pending := "" // the part of it which was not sent at the last step
	writes := 0
	var since time.Time
	sent := func() string {
		s := ""
		for _, p := range posts {
			s += p.body
		}
		return s
	}
	steps := sym.Param("steps", 3)
	n := sym.Param("n", 3)
	for i := 0; i < steps; i++ {
		var gap time.Duration
		if sym.Param("any", 0) == 1 {
			gap = time.Duration(sym.Byte("gap")) << 24 // up to 4.3 s
		} else {
			gap = []time.Duration{0, 2600 * time.Millisecond, 350 * time.Millisecond}[sym.Choose("gap", sym.Param("gaps", 3))]
		}
		if gap > 0 {
			time.Sleep(gap)
			sym.Settle()
		}
		now := time.Now()
		got := sent()
		check(18, len(pending) == 0 || now.Sub(since) < age+time.Second || got == want, "held-back")
		if len(pending) > 0 && got == want {
			for _, p := range posts {
				check(18, !p.at.Before(since.Add(age)), "not-before-age")
			}
			sym.Reach("aged")
			pending = ""
			writes = 0
		}
		check(17, got+pending == want, "content")
		check(19, got+pending == want, "content")
		posts = nil
		want = pending

		data := ""
		if sym.Param("lines", 0) == 0 {
			data = string(sym.Bytes("data", sym.Choose("len", n+1)))
		} else {
			// lines of two arbitrary bytes and one more
			for k := sym.Choose("lines", n+1); k > 0; k-- {
				data += string(sym.Bytes("head", 2)) + "x\n"
			}
			if sym.Choose("unterminated", 2) == 1 && data != "" {
				data = data[:len(data)-1]
			}
		}
		due := writes > 0 && now.Sub(since) >= age
		sym.Assert(env.NATS.Deliver(zzSubject, []byte(data)) == 1, "subscribed")
		sym.Settle()
		add := func(d string) {
			if writes == 0 {
				since = now
				due = false
			}
			writes++
			if rules && len(pending) > 0 && pending[len(pending)-1] != '\n' {
				d = "\n" + d
			}
			want += d
			pending += d
		}
		if rules {
			for _, l := range zzLines(data) {
				if oracle.Lookup([]byte(l)) >= 0 {
					sym.Reach("matched")
					add(l)
				}
			}
		} else if len(data) > 0 {
			add(data)
		} else if what == 18 {
			return // whether nothing counts as a write is not stated
		} else {
			writes++
		}
		due = len(pending) > 0 && (due || writes >= c.BatchMaxCount || len(pending) >= int(c.BatchMaxSize))
		got = sent()
		for _, p := range posts {
			check(17, len(p.body) <= int(c.BatchMaxSize), "within-size")
			check(18, len(p.body) > 0, "not-empty")
			if len(p.body) > 0 && p.body[len(p.body)-1] != '\n' && got != p.body && len(got) > len(p.body) {
				// a line is only split when it does not fit
				sym.Reach("split")
			}
		}
		if due {
			sym.Reach("due")
			check(18, got == want, "due")
			check(17, got == want || got == "", "content")
			check(19, got == want || got == "", "content")
			if got != want {
				return
			}
			pending = ""
			writes = 0
		} else {
			check(18, got == "", "not-due")
			check(17, got+pending == want, "content")
			check(19, got+pending == want, "content")
			sym.Reach("collecting")
		}
	}
	if age < time.Minute {
		time.Sleep(age + time.Second)
		sym.Settle()
		if len(pending) > 0 {
			for _, p := range posts {
				check(18, p.at.Before(since.Add(age+time.Second+time.Millisecond)), "not-late")
			}
		}
		check(18, sent() == want, "sent-at-last")
		check(17, sent() == want, "content-at-last")
		check(19, sent() == want, "content-at-last")
	}
	w.Stop()
}

// zzStat is the value of a counter in the statistics published last.
func zzStat(env *venv.Env, name string) int {
	v := -1
	for _, m := range env.NATS.On(zzMonitor) {
		for _, l := range strings.Split(string(m.Data), "\n") {
			if strings.HasPrefix(l, name+"{") {
				f := strings.Fields(l[strings.LastIndex(l, "}")+1:])
				if n, err := strconv.Atoi(f[0]); err == nil {
					v = n
				}
			}
		}
	}
	return v
}

// ZZ_Counters: messages, writes and retries of any outcome, and the counters
// published afterwards.
func ZZ_Counters() {
	c := zzConfig()
	c.BatchMaxCount = 1 + sym.Choose("count", 2)
	c.StatsInterval = config.NewDuration(time.Minute)
	if sym.Choose("retry", 2) == 1 {
		c.WriterRetryBatches = 2
		c.WriterRetryInterval = config.NewDuration(10 * time.Second)
		c.WriterRetryTimeout = config.NewDuration(25 * time.Second)
	}
	if sym.Choose("rules", 2) == 1 {
		c.Rule = []config.Rule{{Rtype: "basic", Match: "m"}}
	}
	c.BatchMaxSize = []datasize.ByteSize{1 << 20, 6}[sym.Choose("size", 2)]
	env := venv.New()
	posts, failed := 0, 0
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		posts++
		switch sym.Choose("outcome", sym.Param("outcomes", 4)) {
		case 1:
			failed++
			return 500, "", nil
		case 2:
			failed++
			return 400, "", nil
		case 3:
			failed++
			return 0, "", errSend
		}
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	n := sym.Choose("messages", sym.Param("messages", 2)+1)
	for i := 0; i < n; i++ {
		data := []byte("m a\nm b\n")
		data[0] = sym.Byte("first")
		if sym.Choose("empty", 2) == 1 {
			data = nil
		}
		env.NATS.Deliver(zzSubject, data)
		sym.Settle()
	}
	time.Sleep(61 * time.Second)
	sym.Settle()
	sym.Assert(zzStat(env, "received") == n, "received")
	sym.Assert(zzStat(env, "write_requests") == posts, "write-requests")
	sym.Assert(zzStat(env, "failed_writes") == failed, "failed-writes")
	if failed > 0 {
		sym.Reach("failed")
	}
	w.Stop()
}

// ZZ_Rules: messages of several lines, whose measurement, tags and fields vary
// independently, with rules of every type.
func ZZ_Rules() {
	c := zzConfig()
	c.BatchMaxCount = 1000
	c.BatchMaxAge = config.NewDuration(time.Second)
	sets := [][]config.Rule{
		{{Rtype: "regex", Match: "v=1"}},
		{{Rtype: "negregex", Match: "v=1"}},
		{{Rtype: "tags", Tags: [][]string{{"t", "a"}}}},
		{{Rtype: "tags", Tags: [][]string{{"t", "a"}, {"u", "b"}}}, {Rtype: "regex", Match: "^k|w="}},
		{{Rtype: "basic", Match: "n"}, {Rtype: "negregex", Match: "[tv]="}},
		{{Rtype: "basic", Match: "m"}},
	}
	c.Rule = sets[sym.Choose("rules", len(sets))]
	oracle, err := filter.RuleSetFromConfig(c) // what a rule matches is another property
	sym.Assert(err == nil, "rules")
	env := venv.New()
	got := ""
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		got += string(body)
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	want := ""
	for i := sym.Param("messages", 1); i > 0; i-- {
		data := ""
		for k := sym.Choose("lines", sym.Param("lines", 2)) + 1; k > 0; k-- {
			switch sym.Choose("kind", sym.Param("kinds", 4)) {
			case 0: // a field varies
				data += "m,t=a v=" + string(sym.Bytes("value", 1))
			case 1: // the measurement
				data += string(sym.Bytes("name", 1)) + " v=1"
			case 2: // a tag value or the next tag
				data += "m,t=" + string(sym.Bytes("tag", 1)) + ",u=b v=2"
			case 3: // the end of the tags
				data += "m,t=a" + string(sym.Bytes("end", 1)) + "w=1"
			}
			if k > 1 || sym.Choose("newline", 2) == 1 {
				data += "\n"
			}
		}
		sym.Assert(env.NATS.Deliver(zzSubject, []byte(data)) == 1, "subscribed")
		sym.Settle()
		for _, l := range zzLines(data) {
			if oracle.Lookup([]byte(l)) >= 0 {
				if len(want) > 0 && want[len(want)-1] != '\n' {
					want += "\n"
				}
				want += l
				sym.Reach("matched")
			} else {
				sym.Reach("left-out")
			}
		}
	}
	time.Sleep(5 * time.Second)
	sym.Settle()
	sym.Assert(got == want, "lines-matched")
	w.Stop()
}
