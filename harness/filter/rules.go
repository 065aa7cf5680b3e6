package filter

import (
	"strconv"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
)

func zzRuleSet(rules ...config.Rule) *RuleSet {
	rs, err := RuleSetFromConfig(&config.Config{Rule: rules})
	sym.Assert(err == nil, "rules-accepted")
	return rs
}

// zzLine is a line with arbitrary bytes in its measurement and tags.
func zzLine() []byte {
	var line []byte
	n := sym.Param("n", 4)
	switch sym.Choose("shape", 4) {
	case 0: // free measurement and whatever follows
		line = append(line, sym.Bytes("l", 1+sym.Choose("len", n+1))...)
	case 1: // free tags
		line = append(line, "ab,"...)
		line = append(line, sym.Bytes("t", sym.Choose("len", n+1))...)
		line = append(line, "=c,d="...)
		line = append(line, sym.Byte("v"))
	case 2:
		line = append(line, "ab,x=y,b="...)
		line = append(line, sym.Bytes("t", sym.Choose("len", n+1))...)
	case 3:
		line = append(line, 'a', sym.Byte("m"), ',', 'b', sym.Byte("k"), '=', 'c', sym.Byte("v"))
	}
	switch sym.Choose("end", 3) {
	case 1:
		line = append(line, " f=1"...)
	case 2:
		line = append(line, " f=1 1\n"...)
	}
	return line
}

func zzBody(line []byte) []byte {
	if len(line) > 0 && line[len(line)-1] == '\n' {
		return line[:len(line)-1]
	}
	return line
}

func zzCheckRules(rules []config.Rule, re func([]byte) bool) {
	rs := zzRuleSet(rules...)
	line := zzLine()
	got := rs.Lookup(zzCopy(line))
	want := -1
	if l, ok := ref.Parse(zzBody(line)); ok {
		for i, r := range rules {
			if zzMatches(r, l, line, re) {
				want = i
				break
			}
		}
		sym.Reach("wellformed")
	} else {
		sym.Reach("malformed")
	}
	if want >= 0 {
		sym.Reach("match")
	}
	sym.Observe("rule", got)
	sym.Assert(got == want, "rule")
}

// ZZ_RuleBasic: basic rules with arbitrary names.
func ZZ_RuleBasic() {
	name := sym.String("name", sym.Choose("namelen", sym.Param("name", 3)))
	zzCheckRules([]config.Rule{zzBasic(name, "A"), zzBasic("ab", "B")}, nil)
}

// ZZ_RuleTags: tags rules of no, one or two tags with arbitrary keys and values.
func ZZ_RuleTags() {
	var kv []string
	switch sym.Choose("tags", 5) {
	case 1:
		kv = []string{sym.String("key", 1), "c"}
	case 2:
		kv = []string{"b", sym.String("val", 1+sym.Choose("vlen", 2))}
	case 3:
		kv = []string{"d", sym.String("val", 1), "b", "c"}
	case 4:
		kv = []string{"b", "c", "b", sym.String("val", 1)}
	}
	zzCheckRules([]config.Rule{zzTags("T", kv...), zzTags("U", "b", "c,")}, nil)
}

// ZZ_RuleRegex: regular expressions against their meaning.
func ZZ_RuleRegex() {
	type pat struct {
		text string
		is   func([]byte) bool
	}
	has := func(s string) func([]byte) bool {
		return func(b []byte) bool {
			for i := 0; i+len(s) <= len(b); i++ {
				if string(b[i:i+len(s)]) == s {
					return true
				}
			}
			return false
		}
	}
	pats := []pat{
		{"a,b", has("a,b")},
		{"^b", func(b []byte) bool { return len(b) > 0 && b[0] == 'b' }},
		{"(^a b|=c)", func(b []byte) bool { return len(b) >= 3 && string(b[:3]) == "a b" || has("=c")(b) }},
		{`\\`, has(`\`)},
	}
	p := pats[sym.Choose("pattern", len(pats))]
	typ := []string{"regex", "negregex"}[sym.Choose("type", 2)]
	zzCheckRules([]config.Rule{{Rtype: typ, Match: p.text, Subject: "R"}}, p.is)
}

// ZZ_RuleCollision: measurement names close to ones with the same hash as the
// rule's name (32-bit FNV-1) do not match it.
func ZZ_RuleCollision() {
	pairs := [][2]string{{"cpu", "daj_p3g"}, {"a", "augc9zn"}}
	p := pairs[sym.Choose("pair", len(pairs))]
	rs := zzRuleSet(zzBasic(p[0], "A"))
	line := append([]byte(p[1]), " f=1"...)
	line[sym.Choose("at", len(p[1]))] = sym.Byte("m")
	l, ok := ref.Parse(line)
	if !ok {
		return
	}
	want := -1
	if string(ref.Unescape(l.Measurement)) == p[0] {
		want = 0
	}
	sym.Assert(rs.Lookup(zzCopy(line)) == want, "collision")
}

// ZZ_RuleWorker: rules see the line as received even when its tags are sorted.
func ZZ_RuleWorker() {
	rules := []config.Rule{zzTags("T", "m", "1", "b", "2"), zzBasic("q", "Q"), zzTags("U", "a", "v")}
	w, conn, st, ruleSt := zzWorker(rules, time.Minute)
	var msg []byte
	tags := []string{"m=1", "b=2", "a=", "bb=1"}
	k := sym.Param("tags", 3)
	msg = append(msg, "q"...)
	if sym.Choose("name", 2) == 1 {
		msg = append(msg, sym.Byte("q"))
	}
	for i := 0; i < k; i++ {
		msg = append(msg, ',')
		c := sym.Choose("tag", len(tags))
		msg = append(msg, tags[c]...)
		if c == 2 {
			msg = append(msg, sym.Byte("v"))
		}
	}
	msg = append(msg, " f=1\nother f=2\n"...)
	e := zzNewExpect(rules)
	e.add(msg, rules, time.Now().UnixNano(), int64(time.Minute), nil)
	w.processBatch(zzCopy(msg))
	e.check(conn, st, ruleSt, rules)
}

// ZZ_Window: the time window, at nanosecond resolution around both its ends.
func ZZ_Window() {
	rules := []config.Rule{zzBasic("m", "M")}
	deltas := []int64{int64(10 * time.Minute), 1, 0, 12345, 946684800000000000}
	delta := deltas[sym.Choose("delta", len(deltas))]
	w, conn, st, ruleSt := zzWorker(rules, time.Duration(delta))
	now := time.Now().UnixNano()
	base := now - delta
	if sym.Choose("upper", 2) == 1 {
		base = now + delta
	}
	// arbitrary low digits around the end of the window
	digits := sym.Param("digits", 3)
	scale := int64(1)
	for i := 0; i < digits; i++ {
		scale *= 10
	}
	hi := base/scale + int64(sym.Choose("carry", 3)) - 1
	neg := hi < 0 || hi == 0 && sym.Choose("neg", 2) == 1
	if hi < 0 {
		hi = -hi
	}
	var text []byte
	if neg {
		text = append(text, '-')
	}
	if hi > 0 {
		text = append(text, strconv.FormatInt(hi, 10)...)
	}
	for i := 0; i < digits; i++ {
		d := sym.Byte("d")
		sym.Assume(sym.And(d >= '0', d <= '9'))
		text = append(text, d)
	}
	heads := []string{"m f=1 ", "m,a=b f=1,g=\"some long text here\" ", "n f=1 "}
	msg := append([]byte(heads[sym.Choose("head", 3)]), text...)
	if sym.Choose("nl", 2) == 1 {
		msg = append(msg, "\nm f=1"...)
	}
	e := zzNewExpect(rules)
	e.add(msg, rules, now, delta, nil)
	w.processBatch(zzCopy(msg))
	e.check(conn, st, ruleSt, rules)
	if e.invalid > 0 {
		sym.Reach("invalid")
	}
	if e.passed > 0 {
		sym.Reach("valid")
	}
}

// ZZ_WindowDelta: any max_time_delta, some timestamps.
func ZZ_WindowDelta() {
	rules := []config.Rule{zzBasic("m", "M")}
	delta := sym.Int64("delta")
	now := time.Now().UnixNano()
	sym.Assume(sym.And(delta >= 0, delta < 1<<62))
	w, conn, st, ruleSt := zzWorker(rules, time.Duration(delta))
	times := []string{"0", "-1", "1", strconv.FormatInt(now, 10), strconv.FormatInt(now+600000000000, 10), strconv.FormatInt(now-5, 10),
		"9223372036854775807", "-9223372036854775808", "5000", "", "1x", "99999999999999999999"}
	msg := append([]byte("m f=1 "), times[sym.Choose("time", len(times))]...)
	e := zzNewExpect(rules)
	e.add(msg, rules, now, delta, nil)
	w.processBatch(zzCopy(msg))
	e.check(conn, st, ruleSt, rules)
}

// ZZ_Sort: sorting tags keeps every byte of the line.
func ZZ_Sort() {
	n := sym.Param("n", 5)
	heads := []string{"m,", "m,b=1,", `m\,x,b=1,`, "m,bb=1,a=2,"}
	tails := []string{"", " f=1", ",a=3 f=\"a,b=c d\" 5\n", ",a\\=b=3\n", "\n"}
	line := []byte(heads[sym.Choose("head", len(heads))])
	line = append(line, sym.Bytes("t", sym.Choose("len", n+1))...)
	line = append(line, tails[sym.Choose("tail", len(tails))]...)
	zzCheckSort(line)
}

// ZZ_SortMany: many tags with arbitrary one-byte keys.
func ZZ_SortMany() {
	k := 1 + sym.Choose("tags", sym.Param("tags", 4))
	line := []byte("m")
	for i := 0; i < k; i++ {
		line = append(line, ',', sym.Byte("key"), '=', byte('0'+i))
	}
	if sym.Choose("tail", 2) == 1 {
		line = append(line, " f=1 2\n"...)
	}
	zzCheckSort(line)
}

func zzCheckSort(line []byte) {
	for i, c := range line {
		if i < len(line)-1 {
			sym.Assume(c != '\n')
		}
	}
	body := zzBody(line)
	l, ok := ref.Parse(body)
	pl, err := newParsedLine(zzCopy(line))
	sym.Assert((err == nil) == ok, "accepts")
	if !ok {
		return
	}
	// a backslash at the very end of a line without fields would escape
	// whatever comes after it
	if !l.HasRest && len(body) > 0 && body[len(body)-1] == '\\' {
		return
	}
	pl.SortTags()
	out := pl.Escaped
	sym.Observe("out", out)
	sym.Assert(len(out) == len(line), "length")
	obody := zzBody(out)
	sym.Assert((len(obody) < len(out)) == (len(body) < len(line)), "line-ending")
	o, ok := ref.Parse(obody)
	sym.Assert(ok, "parses")
	sym.Assert(ref.Eq(o.Measurement, l.Measurement), "measurement")
	sym.Assert(o.HasRest == l.HasRest && ref.Eq(o.Rest, l.Rest), "rest")
	sym.Assert(len(o.Tags) == len(l.Tags), "tag-count")
	for i := range o.Tags {
		if i > 0 {
			sym.Assert(string(ref.Unescape(o.Tags[i-1].Key)) <= string(ref.Unescape(o.Tags[i].Key)), "ascending")
		}
	}
	used := make([]bool, len(o.Tags))
	for _, t := range l.Tags {
		found := false
		for i, u := range o.Tags {
			if !used[i] && ref.Eq(t.Key, u.Key) && ref.Eq(t.Value, u.Value) {
				used[i], found = true, true
				break
			}
		}
		sym.Assert(found, "tag-kept")
	}
	if !ref.Eq(out, line) {
		sym.Reach("moved")
	}
}

// ZZ_Isolation: a message with an arbitrary line X between two others is
// handled as the message without it, but for X itself.
func ZZ_Isolation() {
	rules := []config.Rule{zzBasic("a", "A"), zzTags("T", "b", "c"), zzBasic("b", "B")}
	heads := []string{"", "a,b", "x,y=", ","}
	x := append([]byte(heads[sym.Choose("head", len(heads))]), sym.Bytes("x", 1+sym.Choose("len", sym.Param("n", 4)))...)
	for _, c := range x {
		sym.Assume(c != '\n')
	}
	run := func(parts ...string) (*zzConn, []uint64) {
		w, conn, st, _ := zzWorker(rules, time.Minute)
		for _, p := range parts {
			w.processBatch([]byte(p))
		}
		var c []uint64
		for _, n := range []string{statProcessed, statPassed, statRejected, statInvalidTime, statFailedNATSPublish} {
			c = append(c, st.Get(n))
		}
		return conn, c
	}
	before, after := "a f=1\nz,b=c f=1\n", "b f=1\nq f=2\n"
	with, cw := run(before+string(x)+"\n"+after, after)
	alone, ca := run(string(x) + "\n")
	without, co := run(before+after, after)
	for i := range cw {
		sym.Assert(cw[i] == ca[i]+co[i], "counts-add-up")
	}
	for _, s := range []string{"A", "B", "T", zzJunk} {
		w, a, o := zzCat(with, s), zzCat(alone, s), zzCat(without, s)
		sym.Assert(len(w) == len(a)+len(o), "nothing-lost")
		if len(a) == 0 {
			sym.Assert(w == o, "others-untouched")
		}
	}
	if len(alone.sent) == 0 {
		sym.Reach("discarded")
	} else {
		sym.Reach("kept")
	}
}

func zzCat(c *zzConn, subject string) string {
	s := ""
	for _, m := range c.sent {
		if m.subject == subject {
			s += string(m.data)
		}
	}
	return s
}
