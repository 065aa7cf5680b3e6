package monitor

import (
	"strconv"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/prometheus"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

const zzSubject = "monitor"

func zzConfig() *config.Config {
	return &config.Config{Name: "zz", NATSAddress: "nats", NATSSubjectMonitor: zzSubject, Port: 9331}
}

func zzPage(env *venv.Env) []byte {
	r := env.Request(":9331", "GET", "/metrics", nil)
	sym.Assert(r != nil && r.Status == 200, "served")
	return r.Body
}

type zzMetric struct {
	name   string
	labels [2]string // values of the labels k and l, empty when absent
	value  int64
	ts     int64
}

func (m zzMetric) labelText(swap bool) string {
	k, l := "", ""
	if m.labels[0] != "" {
		k = `k="` + m.labels[0] + `"`
	}
	if m.labels[1] != "" {
		l = `l="` + m.labels[1] + `"`
	}
	if k == "" || l == "" {
		if k+l == "" {
			return ""
		}
		return "{" + k + l + "}"
	}
	if swap {
		k, l = l, k
	}
	return "{" + k + "," + l + "}"
}

func (m zzMetric) text(swap bool) string {
	s := m.name + m.labelText(swap) + " " + strconv.FormatInt(m.value, 10)
	if m.ts > 0 {
		s += " " + strconv.FormatInt(m.ts, 10)
	}
	return s + "\n"
}

// zzAny is a metric: one of two names, label values and numbers arbitrary.
func zzAny() zzMetric {
	m := zzMetric{name: []string{"aa", "bb"}[sym.Choose("name", 2)]}
	for i := 0; i < 2; i++ {
		if sym.Choose("label", 2) == 1 {
			b := sym.Bytes("lv", 1)
			sym.Assume(sym.And(b[0] != '"', b[0] != '\n'))
			m.labels[i] = string(b)
		}
	}
	m.value = int64(sym.Byte("value") & 3)
	if sym.Choose("ts", 2) == 1 {
		m.ts = 1 + int64(sym.Byte("ms")&1)
	}
	return m
}

// zzExpect checks that a page lists exactly the metrics, ordered by name.
func zzExpect(page []byte, ms []zzMetric) {
	lines := 0
	rest := page
	last := ""
	seen := make([]bool, len(ms))
	for len(rest) > 0 {
		i := 0
		for i < len(rest) && rest[i] != '\n' {
			i++
		}
		sym.Assert(i < len(rest), "newline")
		if i == len(rest) {
			return
		}
		line := string(rest[:i+1])
		rest = rest[i+1:]
		lines++
		name := line[:2]
		sym.Assert(name >= last, "sorted")
		last = name
		hit := false
		for j, m := range ms {
			if !seen[j] && line == m.text(false) {
				seen[j] = true
				hit = true
				break
			}
		}
		sym.Assert(hit, "entry")
	}
	sym.Assert(lines == len(ms), "all-entries")
}

// ZZ_Latest: a sequence of messages with up to two metrics each, some of which
// cannot be parsed.
func ZZ_Latest() {
	if sym.Param("order", 0) == 1 {
		sym.MapOrder()
	}
	env := venv.New()
	m, err := Start(zzConfig())
	sym.Assert(err == nil, "starts")
	sym.Settle()
	sym.Assert(len(zzPage(env)) == 0, "empty-at-first")

	var want []zzMetric
	put := func(m zzMetric) {
		for i := range want {
			if want[i].name == m.name && want[i].labels == m.labels {
				want[i] = m
				sym.Reach("updated")
				return
			}
		}
		want = append(want, m)
	}
	steps := sym.Param("steps", 2)
	for i := 0; i < steps; i++ {
		var ms []zzMetric
		text := ""
		bad := sym.Choose("bad", 2) == 1
		if bad {
			text = "aa 7\nbb 7\n"
		} else {
			for k := 1 + sym.Choose("more", sym.Param("lines", 2)); k > 0; k-- {
				a := zzAny()
				ms = append(ms, a)
				text += a.text(sym.Choose("swap", 1+len(a.labels[0])*len(a.labels[1])) == 1)
			}
		}
		if bad {
			bad := []string{"cc{ 1\n", "cc 1x\n", `cc{k="1} 1` + "\n", "cc 1 2 3\n"}[sym.Choose("which", 4)]
			if sym.Choose("first", 2) == 1 {
				text = bad + text
			} else {
				text += bad
			}
			sym.Reach("bad")
		}
		data := []byte(text)
		sym.Assert(env.NATS.Deliver(zzSubject, data) == 1, "subscribed")
		sym.Settle()
		for _, a := range ms {
			put(a)
		}
		zzExpect(zzPage(env), want)
	}
	zzExpect(zzPage(env), want) // serving the page changes nothing
	m.Stop()
}

// ZZ_Garbage: arbitrary bytes after each of a few beginnings never disturb what
// is held already.
func ZZ_Garbage() {
	env := venv.New()
	m, err := Start(zzConfig())
	sym.Assert(err == nil, "starts")
	held := "aa 1\n" + `bb{k="v"} 2 3` + "\n"
	env.NATS.Deliver(zzSubject, []byte(held))
	sym.Settle()
	page := zzPage(env)
	sym.Assert(string(page) == held, "held")
	pre := []string{"", `{`, `{k="`, " 1", "\n"}[sym.Choose("prefix", 5)]
	data := append([]byte("zz"+pre), sym.Bytes("data", sym.Choose("len", sym.Param("n", 4)+1))...)
	for _, b := range data[2:] {
		sym.Assume(b != '\n')
	}
	data = append(data, '\n')
	if pre == "\n" {
		data = data[2:]
	}
	_, err = prometheus.ParseMetrics(append([]byte(nil), data...))
	env.NATS.Deliver(zzSubject, data)
	sym.Settle()
	after := string(zzPage(env))
	if err != nil {
		sym.Assert(after == held, "unchanged")
		sym.Reach("refused")
	} else {
		sym.Assert(len(after) >= len(held), "kept")
		sym.Reach("taken")
	}
	m.Stop()
}
