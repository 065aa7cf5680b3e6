package filter

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/stats"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
)

type zzMsg struct {
	subject string
	data    []byte
}

type zzConn struct {
	natsConn
	sent   []zzMsg
	failed int
	fail   func(n int) bool
}

type zzErr string

func (e zzErr) Error() string { return string(e) }

func (c *zzConn) Publish(subject string, data []byte) error {
	c.sent = append(c.sent, zzMsg{subject, append([]byte(nil), data...)})
	if c.fail != nil && c.fail(len(c.sent)-1) {
		c.failed++
		return zzErr("publish failed")
	}
	return nil
}

func (c *zzConn) Close() {}

const zzJunk = "junk"

// zzMatches is what a rule means.
func zzMatches(r config.Rule, l ref.Line, line []byte, re func([]byte) bool) bool {
	switch r.Rtype {
	case "basic":
		return string(ref.Unescape(l.Measurement)) == r.Match
	case "tags":
		for _, want := range r.Tags {
			has := false
			for _, t := range l.Tags {
				if string(ref.Unescape(t.Key)) == want[0] && string(ref.Unescape(t.Value)) == want[1] {
					has = true
				}
			}
			if !has {
				return false
			}
		}
		return true
	case "regex":
		return re(ref.Unescape(line))
	case "negregex":
		return !re(ref.Unescape(line))
	}
	panic("rule type")
}

// zzSorted is the line with its tags in ascending key order.
func zzSorted(l ref.Line) []byte {
	tags := append([]ref.Tag(nil), l.Tags...)
	for i := 1; i < len(tags); i++ {
		for j := i; j > 0 && string(ref.Unescape(tags[j].Key)) < string(ref.Unescape(tags[j-1].Key)); j-- {
			tags[j], tags[j-1] = tags[j-1], tags[j]
		}
	}
	out := append([]byte(nil), l.Measurement...)
	for _, t := range tags {
		out = append(out, ',')
		out = append(out, t.Key...)
		out = append(out, '=')
		out = append(out, t.Value...)
	}
	if l.HasRest {
		out = append(out, ' ')
		out = append(out, l.Rest...)
	}
	return out
}

type zzExpect struct {
	out                                        map[string][]byte
	byRule                                     [][]byte
	processed, passed, rejected, invalid, junk uint64
	triggered                                  []uint64
}

func zzNewExpect(rules []config.Rule) *zzExpect {
	return &zzExpect{out: map[string][]byte{}, triggered: make([]uint64, len(rules)), byRule: make([][]byte, len(rules))}
}

// add accounts for one message.
func (e *zzExpect) add(msg []byte, rules []config.Rule, now, delta int64, re func([]byte) bool) {
	for len(msg) > 0 {
		n := len(msg)
		for i := range msg {
			if msg[i] == '\n' {
				n = i + 1
				break
			}
		}
		line := msg[:n]
		msg = msg[n:]
		e.processed++
		if ts, _, ok := ref.Timestamp(line); ok {
			if ts <= now-delta || ts >= now+delta {
				e.invalid++
				continue
			}
		} else if delta <= 0 {
			e.invalid++
			continue
		}
		body, eol := line, ""
		if line[len(line)-1] == '\n' {
			body, eol = line[:len(line)-1], "\n"
		}
		l, ok := ref.Parse(body)
		if !ok {
			continue
		}
		sorted := append(zzSorted(l), eol...)
		to := zzJunk
		hit := false
		for i, r := range rules {
			if zzMatches(r, l, sorted, re) {
				to = r.Subject
				e.triggered[i]++
				e.byRule[i] = append(e.byRule[i], sorted...)
				hit = true
				break
			}
		}
		if hit {
			e.passed++
		} else {
			e.rejected++
		}
		e.out[to] = append(e.out[to], sorted...)
	}
}

func (e *zzExpect) check(c *zzConn, st *stats.Stats, ruleSt *stats.AnonStats, rules []config.Rule) {
	got := map[string][]byte{}
	for _, m := range c.sent {
		sym.Assert(len(m.data) > 0, "no-empty-publish")
		got[m.subject] = append(got[m.subject], m.data...)
	}
	known := 0
	if _, ok := got[zzJunk]; ok {
		known++
	}
	sym.Assert(ref.Eq(got[zzJunk], e.out[zzJunk]), "routed:junk")
	for i, r := range rules {
		s := r.Subject
		want := e.out[s]
		for j, o := range rules {
			if j < i && o.Subject == s {
				want = nil // seen already
				break
			}
			if j > i && o.Subject == s {
				// two rules share the subject: only the order within each is kept
				want = append(append([]byte(nil), e.byRule[i]...), e.byRule[j]...)
				if !ref.Eq(got[s], want) {
					want = append(append([]byte(nil), e.byRule[j]...), e.byRule[i]...)
				}
			}
		}
		if want == nil && e.out[s] != nil {
			continue
		}
		if _, ok := got[s]; ok {
			known++
		}
		sym.Assert(ref.Eq(got[s], want), "routed:"+s)
	}
	sym.Assert(known == len(got), "no-other-subject")
	sym.Assert(st.Get(statProcessed) == e.processed, "processed")
	sym.Assert(st.Get(statPassed) == e.passed, "passed")
	sym.Assert(st.Get(statRejected) == e.rejected, "rejected")
	sym.Assert(st.Get(statInvalidTime) == e.invalid, "invalid_time")
	sym.Assert(st.Get(statFailedNATSPublish) == uint64(c.failed), "failed_nats_publish")
	for i := range e.triggered {
		sym.Assert(ruleSt.Get(i) == e.triggered[i], "triggered")
	}
	for _, m := range c.sent {
		sym.Observe(m.subject, m.data)
	}
}

// zzWorker makes a worker with the given rules.
func zzWorker(rules []config.Rule, delta time.Duration) (*worker, *zzConn, *stats.Stats, *stats.AnonStats) {
	rs, err := RuleSetFromConfig(&config.Config{Rule: rules})
	sym.Assert(err == nil, "rules-accepted")
	sym.Assert(rs.Count() == len(rules), "rule-count")
	subs := rs.Subjects()
	for i := range rules {
		sym.Assert(subs[i] == rules[i].Subject, "rule-subject")
	}
	st := initStats()
	ruleSt := stats.NewAnon(rs.Count())
	conn := new(zzConn)
	w, err := newWorker(delta, rs, st, ruleSt, false, func() (natsConn, error) { return conn, nil }, zzJunk)
	sym.Assert(err == nil, "worker")
	return w, conn, st, ruleSt
}

func zzBasic(name, subject string) config.Rule {
	return config.Rule{Rtype: "basic", Match: name, Subject: subject}
}

func zzTags(subject string, kv ...string) config.Rule {
	r := config.Rule{Rtype: "tags", Subject: subject}
	for i := 0; i < len(kv); i += 2 {
		r.Tags = append(r.Tags, []string{kv[i], kv[i+1]})
	}
	return r
}

// zzCopy keeps the message the harness compares with apart from the one the
// worker may change.
func zzCopy(b []byte) []byte { return append([]byte(nil), b...) }

// ZZ_FilterFree: any message of up to n bytes after a few different heads.
func ZZ_FilterFree() {
	rules := []config.Rule{zzBasic("a", "A"), zzTags("T", "b", "c"), zzBasic("b", "A")}
	w, conn, st, ruleSt := zzWorker(rules, time.Minute)
	heads := []string{"", "a,b", "x f=1\na,", "a,b=c,a=", "a"}
	h := sym.Choose("head", len(heads))
	n := sym.Param("n", 5)
	if h > 0 {
		n--
	}
	msg := append([]byte(heads[h]), sym.Bytes("msg", sym.Choose("len", n+1))...)
	if sym.Choose("tail", 2) == 1 {
		msg = append(msg, "\nb f=2\n"...)
	}
	e := zzNewExpect(rules)
	e.add(msg, rules, time.Now().UnixNano(), int64(time.Minute), nil)
	w.processBatch(zzCopy(msg))
	e.check(conn, st, ruleSt, rules)
	if e.passed > 0 {
		sym.Reach("passed")
	}
	if e.rejected > 0 {
		sym.Reach("rejected")
	}
	if e.passed+e.rejected < e.processed {
		sym.Reach("malformed")
	}
}

// ZZ_FilterLines: messages of several lines with arbitrary bytes in them, two
// messages in a row, publishes failing in any combination.
func ZZ_FilterLines() {
	rules := []config.Rule{zzBasic("a", "A"), zzTags("T", "k", "v"), zzBasic("b", "B")}
	w, conn, st, ruleSt := zzWorker(rules, time.Minute)
	failing := sym.Choose("fail", 4)
	conn.fail = func(n int) bool { return n == failing-1 || failing == 3 }
	e := zzNewExpect(rules)
	now := time.Now().UnixNano()
	for m := 0; m < 2; m++ {
		var msg []byte
		lines := 1
		if m == 0 {
			lines += sym.Choose("lines", sym.Param("lines", 2))
		}
		for i := 0; i < lines; i++ {
			switch sym.Choose("kind", sym.Param("kinds", 5)) {
			case 0:
				msg = append(msg, sym.Byte("m"))
				msg = append(msg, " f=1"...)
			case 1:
				msg = append(msg, "c,z=1,k="...)
				msg = append(msg, sym.Byte("v"))
				msg = append(msg, " f=2i"...)
			case 2:
				msg = append(msg, "a,"...)
				msg = append(msg, sym.Byte("k"))
				msg = append(msg, "=v f=3"...)
			case 3:
				msg = append(msg, "b f=1 5"...)
			case 4:
				msg = append(msg, "b,x f=1"...)
			}
			if i < lines-1 || sym.Choose("nl", 2) == 1 {
				msg = append(msg, '\n')
			}
		}
		e.add(msg, rules, now, int64(time.Minute), nil)
		w.processBatch(zzCopy(msg))
		e.check(conn, st, ruleSt, rules)
	}
	if conn.failed > 0 {
		sym.Reach("failed")
	}
	sym.Reach("two")
}

// zzContains is what the expression "v=1" matches.
func zzContains(b []byte) bool {
	for i := 0; i+3 <= len(b); i++ {
		if sym.And(b[i] == 'v', sym.And(b[i+1] == '=', b[i+2] == '1')) {
			return true
		}
	}
	return false
}

// ZZ_FilterRules: rules of every type, and lines which differ in their
// measurement, their tags or their fields only.
func ZZ_FilterRules() {
	sets := [][]config.Rule{
		{{Rtype: "regex", Match: "v=1", Subject: "A"}},
		{zzTags("T", "t", "a"), {Rtype: "negregex", Match: "v=1", Subject: "N"}},
		{{Rtype: "negregex", Match: "v=1", Subject: "N"}, zzTags("T", "t", "a", "u", "b"), zzBasic("m", "M")},
		{zzBasic("n", "B"), {Rtype: "regex", Match: "v=1", Subject: "A"}, zzTags("T", "t", "a")},
	}
	rules := sets[sym.Choose("rules", len(sets))]
	w, conn, st, ruleSt := zzWorker(rules, time.Minute)
	e := zzNewExpect(rules)
	now := time.Now().UnixNano()
	for m := sym.Param("messages", 1); m > 0; m-- {
		var msg []byte
		for k := 1 + sym.Choose("lines", sym.Param("lines", 2)); k > 0; k-- {
			switch sym.Choose("kind", 4) {
			case 0:
				msg = append(msg, "m,t=a v="...)
				msg = append(msg, sym.Byte("value"))
			case 1:
				msg = append(msg, sym.Byte("name"))
				msg = append(msg, " v=1"...)
			case 2:
				msg = append(msg, "m,u=b,t="...)
				msg = append(msg, sym.Byte("tag"))
				msg = append(msg, " v=2"...)
			case 3:
				msg = append(msg, "m,t=a"...)
				msg = append(msg, sym.Byte("end"))
				msg = append(msg, "v=1"...)
			}
			if k > 1 || sym.Choose("newline", 2) == 1 {
				msg = append(msg, '\n')
			}
		}
		e.add(msg, rules, now, int64(time.Minute), zzContains)
		w.processBatch(zzCopy(msg))
	}
	e.check(conn, st, ruleSt, rules)
	if e.passed > 0 {
		sym.Reach("passed")
	}
	if e.rejected > 0 {
		sym.Reach("rejected")
	}
}
