package venv

import (
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/prometheus"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// Word returns n arbitrary lower case letters.
func Word(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
	}
	return string(b)
}

// Stat is one published counter.
type Stat struct {
	At     time.Time
	Name   string
	Labels string
	Value  int64
	Millis int64
}

// Stats takes apart everything published on the monitor subject.
func (e *Env) Stats(subject string) []Stat {
	var out []Stat
	for _, m := range e.NATS.On(subject) {
		_, err := prometheus.ParseMetrics(append([]byte(nil), m.Data...))
		sym.Assert(err == nil, "stats-parse")
		for _, l := range strings.Split(string(m.Data), "\n") {
			if l == "" {
				continue
			}
			i := strings.Index(l, "{")
			j := strings.LastIndex(l, "}")
			if i <= 0 || j < i {
				sym.Fail("stats-form")
				return nil
			}
			f := strings.Fields(l[j+1:])
			if len(f) != 2 {
				sym.Fail("stats-form")
				return nil
			}
			v, err1 := strconv.ParseInt(f[0], 10, 64)
			ms, err2 := strconv.ParseInt(f[1], 10, 64)
			sym.Assert(err1 == nil && err2 == nil, "stats-numbers")
			out = append(out, Stat{m.At, l[:i], l[i+1 : j], v, ms})
		}
	}
	return out
}

// Expected is what a component's statistics have to look like.
type Expected struct {
	Subject   string
	Labels    []string // pairs of label and value, besides the host
	Start     time.Time
	Interval  time.Duration
	Rounds    int
	Counters  map[string]int // final values by name
	Each      string         // name of the counter published once per ...
	EachLabel string         // ... value of this label
	EachFinal map[string]int // final values
}

func labelText(pairs []string) string {
	var l []string
	for i := 0; i < len(pairs); i += 2 {
		l = append(l, pairs[i]+`="`+pairs[i+1]+`"`)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// CheckStats compares what was published with what has to be.
func (e *Env) CheckStats(x Expected) {
	host, _ := os.Hostname()
	common := append([]string{"host", host}, x.Labels...)
	type entry struct{ name, labels string }
	final := map[entry]int{}
	for n, v := range x.Counters {
		final[entry{n, labelText(common)}] = v
	}
	for s, v := range x.EachFinal {
		final[entry{x.Each, labelText(append(append([]string(nil), common...), x.EachLabel, s))}] = v
	}
	stats := e.Stats(x.Subject)
	at := x.Start
	last := map[entry]int64{}
	for r := 0; r < x.Rounds; r++ {
		seen := map[entry]bool{}
		for len(stats) > 0 && stats[0].At.Equal(at) {
			s := stats[0]
			stats = stats[1:]
			k := entry{s.Name, s.Labels}
			_, known := final[k]
			sym.Assert(known, "stats-entry")
			sym.Assert(!seen[k], "stats-once")
			seen[k] = true
			sym.Assert(s.Millis == at.UnixNano()/1000000, "stats-time")
			sym.Assert(s.Value >= last[k], "stats-monotone")
			last[k] = s.Value
			if r == 0 {
				sym.Assert(s.Value == 0, "stats-zero-at-first")
			}
		}
		sym.Assert(len(seen) == len(final), "stats-complete")
		at = at.Add(x.Interval)
	}
	sym.Assert(len(stats) == 0, "stats-nothing-else")
	for k, v := range final {
		sym.Assert(last[k] == int64(v), "stats-value")
	}
	sym.Reach("stats")
}
