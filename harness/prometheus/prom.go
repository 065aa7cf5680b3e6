package prometheus

import (
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
)

// refMetric parses one line: name, optional {label="value",...}, a space, an
// integer, and optionally a space and another integer.
func refMetric(s []byte) (m Metric, ok bool) {
	i := 0
	for i < len(s) && s[i] != ' ' && s[i] != '{' {
		i++
	}
	if i == len(s) {
		return m, false
	}
	m.Name = s[:i]
	if s[i] == '{' {
		i++
		if i < len(s) && s[i] == '}' {
			i++
		} else {
			for {
				j := i
				for j+1 < len(s) && !(s[j] == '=' && s[j+1] == '"') {
					j++
				}
				if j+1 >= len(s) {
					return m, false
				}
				l := Label{Name: s[i:j]}
				i = j + 2
				for j = i; j < len(s) && s[j] != '"'; j++ {
				}
				if j == len(s) {
					return m, false
				}
				l.Value = s[i:j]
				m.Labels = append(m.Labels, l)
				i = j + 1
				if i == len(s) {
					return m, false
				}
				if s[i] == '}' {
					i++
					break
				}
				if s[i] != ',' {
					return m, false
				}
				i++
			}
		}
	}
	if i == len(s) || s[i] != ' ' {
		return m, false
	}
	i++
	j := i
	for j < len(s) && s[j] != ' ' {
		j++
	}
	m.Value, ok = ref.Int(s[i:j])
	if !ok {
		return m, false
	}
	if j < len(s) {
		m.Milliseconds, ok = ref.Int(s[j+1:])
	}
	return m, ok
}

func sameLabels(a, b Labels, id string) {
	sym.Assert(len(a) == len(b), id+"-count")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		sym.Assert(ref.Eq(a[i].Name, b[i].Name), id+"-name")
		sym.Assert(ref.Eq(a[i].Value, b[i].Value), id+"-value")
	}
}

// ZZ_ParseMetric: every text of up to n bytes behind each of a few beginnings.
func ZZ_ParseMetric() {
	pre := []string{"", "a{b", `a{b="c"`, `a{b="c",`, `a{b="c"} `, "a 1"}[sym.Choose("prefix", 6)]
	n := sym.Choose("len", sym.Param("n", 5)+1)
	s := append([]byte(pre), sym.Bytes("s", n)...)
	orig := append([]byte(nil), s...)
	m, err := ParseMetric(s)
	sym.Assert(ref.Eq(s, orig), "text-unchanged")
	r, ok := refMetric(orig)
	if len(r.Name) == 0 {
		return // only required not to crash
	}
	sym.Assert((err == nil) == ok, "accepts-exactly-well-formed")
	if err == nil && ok {
		sym.Assert(ref.Eq(m.Name, r.Name), "name")
		sameLabels(m.Labels, r.Labels, "label")
		sym.Assert(m.Value == r.Value, "value")
		sym.Assert(m.Milliseconds == r.Milliseconds, "timestamp")
		sym.Reach("accepted")
		sym.Observe("m", m.Name, len(m.Labels), m.Value, m.Milliseconds)
	} else {
		sym.Reach("rejected")
	}
}

// ZZ_ParseMetricValue: values and timestamps of up to 19 digits.
func ZZ_ParseMetricValue() {
	s := []byte("ab ")
	v := sym.Bytes("v", 1+sym.Choose("vlen", 2)*17)
	for i := range v {
		sym.Assume(sym.Or(sym.And(v[i] >= '0', v[i] <= '9'), sym.And(i == 0, v[i] == '-')))
	}
	s = append(s, v...)
	s = append(s, ' ')
	t := sym.Bytes("t", 13)
	for i := range t {
		sym.Assume(sym.And(t[i] >= '0', t[i] <= '9'))
	}
	s = append(s, t...)
	m, err := ParseMetric(s)
	rv, ok := ref.Int(v)
	rt, _ := ref.Int(t)
	sym.Assert((err == nil) == ok, "accepts-exactly-well-formed")
	if err == nil && ok {
		sym.Assert(m.Value == rv, "value")
		sym.Assert(m.Milliseconds == rt, "timestamp")
		sym.Observe("m", m.Value, m.Milliseconds)
	}
}

func word(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for i := range b {
		ok := b[i] != ' '
		for _, c := range []byte("{}=\",\n") {
			ok = sym.And(ok, b[i] != c)
		}
		sym.Assume(ok)
	}
	return b
}

// ZZ_MetricRoundTrip: any metric of up to l labels with names and values of up
// to n bytes, formatted twice and parsed back.
func ZZ_MetricRoundTrip() {
	n := sym.Param("n", 2)
	l := sym.Choose("labels", sym.Param("l", 2)+1)
	m := &Metric{Name: word("name", 1+sym.Choose("namelen", n))}
	// the name may be part of a longer text, as it is after parsing
	backing := append(append([]byte{}, m.Name...), "0123456789abcdefghijklmnopqrstuvwxyz"...)
	m.Name = backing[:len(m.Name)]
	for i := 0; i < l; i++ {
		ln, lv := word("ln", 1+sym.Choose("lnlen", n)), word("lv", sym.Choose("lvlen", n+1))
		// as are the labels
		at := len(backing)
		backing = append(append(backing, ln...), "0123456789"...)
		from := len(backing)
		backing = append(append(backing, lv...), "0123456789"...)
		m.Labels = append(m.Labels, Label{Name: backing[at : at+len(ln)], Value: backing[from : from+len(lv)]})
	}
	// everything is part of one text
	at := len(m.Name)
	m.Name = backing[:at]
	at += 36
	for i := range m.Labels {
		l := &m.Labels[i]
		n := len(l.Name)
		l.Name = backing[at : at+n]
		at += n + 10
		n = len(l.Value)
		l.Value = backing[at : at+n]
		at += n + 10
	}
	for i := 1; i < l; i++ {
		for j := 0; j < i; j++ {
			sym.Assume(!ref.Eq(m.Labels[i].Name, m.Labels[j].Name))
		}
	}
	m.Value = sym.Int64("value")
	m.Milliseconds = sym.Int64("ms")
	sym.Assume(m.Milliseconds >= 0)
	// the numbers of digits multiply the paths: one at a time
	which := 0
	if l == 0 {
		which = sym.Choose("which", 3)
	}
	if which != 1 {
		sym.Assume(sym.And(m.Value > -100, m.Value < 100))
	}
	if which != 2 {
		sym.Assume(m.Milliseconds < 10)
	}
	orig := *m
	orig.Name = append([]byte{}, m.Name...)
	orig.Labels = nil
	for _, l := range m.Labels {
		orig.Labels = append(orig.Labels, Label{Name: append([]byte{}, l.Name...), Value: append([]byte{}, l.Value...)})
	}
	sameBacking := append([]byte{}, backing...)

	text := m.ToBytes()
	first := append([]byte{}, text...)
	sym.Assert(ref.Eq(backing, sameBacking), "input-memory-unchanged")
	sym.Assert(ref.Eq(m.Name, orig.Name), "name-unchanged")
	again := m.ToBytes()
	sym.Assert(ref.Eq(again, first), "formatting-is-stable")
	p, err := ParseMetric(first)
	sym.Assert(err == nil, "parses")
	if err != nil {
		return
	}
	sym.Assert(ref.Eq(p.Name, orig.Name), "name")
	sym.Assert(p.Value == orig.Value, "value")
	sym.Assert(p.Milliseconds == orig.Milliseconds, "timestamp")
	sym.Assert(len(p.Labels) == l, "label-count")
	// same set of labels, in ascending name order
	for _, a := range orig.Labels {
		hit := false
		for _, b := range p.Labels {
			hit = sym.Or(hit, sym.And(ref.Eq(a.Name, b.Name), ref.Eq(a.Value, b.Value)))
		}
		sym.Assert(hit, "label-kept")
	}
	for i := 1; i < len(p.Labels); i++ {
		sym.Assert(string(p.Labels[i-1].Name) < string(p.Labels[i].Name), "labels-sorted")
	}
	sym.Reach("round")
	sym.Observe("text", first)
}
