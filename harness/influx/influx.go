package influx

import (
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
)

func checkTimestamp(line []byte) {
	orig := append([]byte(nil), line...)
	ts, off := ExtractTimestamp(line)
	rts, roff, ok := ref.Timestamp(orig)
	if ok {
		sym.Assert(off == roff, "offset")
		sym.Assert(ts == rts, "value")
		sym.Reach("timestamp")
	} else {
		sym.Assert(off == -1, "no-timestamp")
		sym.Reach("none")
	}
	sym.Assert(ref.Eq(line, orig), "line-unchanged")
	sym.Observe("ts", ts, off)
}

// ZZ_TimestampShort: every line of up to n bytes.
func ZZ_TimestampShort() {
	n := sym.Choose("len", sym.Param("n", 8)+1)
	checkTimestamp(sym.Bytes("line", n))
}

// ZZ_TimestampLong: a line head, a space, lo..hi bytes that are digits except
// for up to two arbitrary bytes, and a tail.
func ZZ_TimestampLong() {
	head := sym.Bytes("head", 2+4*sym.Choose("headlen", 2))
	lo, hi := sym.Param("lo", 18), sym.Param("hi", 21)
	d := sym.Bytes("d", lo+sym.Choose("len", hi-lo+1))
	for i := range d {
		if i != 0 && i != len(d)/2 {
			sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		}
	}
	line := append(append([]byte{}, head...), ' ')
	line = append(line, d...)
	switch sym.Choose("tail", 3) {
	case 1:
		line = append(line, '\n')
	case 2:
		line = append(line, sym.Byte("end"))
	}
	checkTimestamp(line)
}

// ZZ_Nanos: the fast search agrees for a timestamp of 18 digits or more.
func ZZ_Nanos() {
	head := sym.Bytes("head", 6)
	d := sym.Bytes("d", 18+sym.Choose("len", 3))
	for i := range d {
		if i == 0 {
			sym.Assume(sym.Or(d[0] == '-', sym.And(d[0] >= '0', d[0] <= '9')))
		} else {
			sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		}
	}
	line := append(append([]byte{}, head...), ' ')
	line = append(line, d...)
	// before the separating space there is a field, not another space
	sym.Assume(sym.And(head[5] != ' ', sym.And(head[4] != ' ', head[3] != ' ')))
	if sym.Choose("tail", 2) == 1 {
		line = append(line, '\n')
	}
	ts, off := ExtractNanos(line)
	rts, roff, ok := ref.Timestamp(line)
	if ok {
		sym.Assert(off == roff, "offset")
		sym.Assert(ts == rts, "value")
		sym.Reach("timestamp")
	} else {
		sym.Assert(off == -1, "no-timestamp")
		sym.Reach("none")
	}
	sym.Observe("ts", ts, off)
}

// ZZ_SafeCalcTime: every 64-bit timestamp and precision.
func ZZ_SafeCalcTime() {
	precs := []string{"u", "ms", "s", "m", "h", "n", "", "x"}
	mults := []int64{1000, 1000000, 1000000000, 60 * 1000000000, 3600 * 1000000000, 1, 1, 1}
	k := sym.Choose("prec", len(precs))
	ts := sym.Int64("ts")
	v, err := SafeCalcTime(ts, precs[k])
	mult := mults[k]
	// ts*mult is within [minNano, maxNano] (the two lowest and the highest
	// value are reserved) iff ts is within the quotients
	const max = 1<<63 - 2
	const min = -1<<63 + 2
	in := sym.And(ts <= max/mult, ts >= min/mult)
	sym.Assert((err == nil) == in, "accepted-iff-representable")
	if err == nil {
		sym.Assert(v == ts*mult, "exact-product")
		sym.Reach("ok")
	} else {
		sym.Reach("range")
	}
	sym.Observe("v", v, err == nil)
}

// ZZ_ParseTags: every line of up to n bytes.
func ZZ_ParseTags() {
	n := sym.Choose("len", sym.Param("n", 6)+1)
	pre := []string{"", "m,", "m,a=b,"}[sym.Choose("prefix", 3)]
	line := append([]byte(pre), sym.Bytes("line", n)...)
	orig := append([]byte(nil), line...)
	m, tags, rest, err := ParseTags(line)
	r, ok := ref.Parse(orig)
	sym.Assert((err == nil) == ok, "accepts-well-formed-tags-only")
	sym.Assert(ref.Eq(line, orig), "line-unchanged")
	if ok && err == nil {
		sym.Assert(ref.Eq(m, ref.Unescape(r.Measurement)), "measurement")
		sym.Assert(len(tags) == len(r.Tags), "number-of-tags")
		for i := range r.Tags {
			sym.Assert(ref.Eq(tags[i].Key, ref.Unescape(r.Tags[i].Key)), "tag-key")
			sym.Assert(ref.Eq(tags[i].Value, ref.Unescape(r.Tags[i].Value)), "tag-value")
		}
		sym.Assert(ref.Eq(rest, r.Rest), "rest")
		sym.Observe("parsed", m, len(tags), rest)
		sym.Reach("parsed")
	} else {
		sym.Reach("rejected")
	}
}

// ZZ_Unescape: every string of up to n bytes.
func ZZ_Unescape() {
	s := sym.Bytes("s", sym.Choose("len", sym.Param("n", 7)+1))
	orig := append([]byte(nil), s...)
	u := Unescape(s)
	sym.Assert(ref.Eq(u, ref.Unescape(orig)), "unescape")
	sym.Assert(ref.Eq(s, orig), "input-unchanged")
	sym.Observe("u", u)
}

func noBackslash(b []byte) {
	for i := range b {
		sym.Assume(b[i] != '\\')
	}
}

// ZZ_RoundTrip: measurement, tag and rest survive escaping and parsing.
func ZZ_RoundTrip() {
	p := sym.Param("n", 3)
	m := sym.Bytes("m", 1+sym.Choose("mlen", p))
	k := sym.Bytes("k", 1+sym.Choose("klen", p))
	v := sym.Bytes("v", 1+sym.Choose("vlen", p))
	noBackslash(m)
	noBackslash(k)
	noBackslash(v)
	line := append([]byte{}, EscapeMeasurement(m)...)
	line = append(line, ',')
	line = append(line, TagSet{{Key: k, Value: v}, {Key: v, Value: m}}.Bytes()...)
	line = append(line, ' ')
	line = append(line, "f=1"...)
	m2, tags, rest, err := ParseTags(line)
	sym.Assert(err == nil, "parses")
	if err != nil {
		return
	}
	sym.Assert(ref.Eq(m2, m), "measurement")
	sym.Assert(len(tags) == 2, "two-tags")
	if len(tags) == 2 {
		sym.Assert(sym.And(ref.Eq(tags[0].Key, k), ref.Eq(tags[0].Value, v)), "first-tag")
		sym.Assert(sym.And(ref.Eq(tags[1].Key, v), ref.Eq(tags[1].Value, m)), "second-tag")
	}
	sym.Assert(string(rest) == "f=1", "rest")
	sym.Reach("round")
	sym.Observe("line", line)
}

// ZZ_Quoted: a quoted string ends at the first quote that no (unescaped)
// backslash precedes, its content is what was written, and writing it back
// gives the same text.
func ZZ_Quoted() {
	n := sym.Choose("len", sym.Param("n", 7)+1)
	s := append([]byte{'"'}, sym.Bytes("s", n)...)
	orig := append([]byte(nil), s...)
	content, rest, err := QuotedString(s)
	// reference
	end := -1
	var want []byte
	for i := 1; i < len(orig); i++ {
		if orig[i] == '"' {
			end = i
			break
		}
		if orig[i] == '\\' && i+1 < len(orig) && (orig[i+1] == '"' || orig[i+1] == '\\') {
			if orig[i+1] == '\\' {
				want = append(want, '\\')
			}
			want = append(want, orig[i+1])
			i++
			continue
		}
		want = append(want, orig[i])
	}
	if end < 0 {
		sym.Assert(err != nil, "unterminated-rejected")
		sym.Reach("unterminated")
		return
	}
	sym.Assert(err == nil, "terminated-accepted")
	if err != nil {
		return
	}
	sym.Assert(ref.Eq(content, want), "content")
	sym.Assert(ref.Eq(rest, orig[end+1:]), "rest")
	sym.Assert(ref.Eq(EscapeQuotedString(content), orig[:end+1]), "written-back-verbatim")
	sym.Assert(ref.Eq(s, orig), "input-unchanged")
	sym.Reach("string")
	sym.Observe("c", content, rest)
}

// ZZ_QuoteRoundTrip: any content without backslashes survives.
func ZZ_QuoteRoundTrip() {
	c := sym.Bytes("c", sym.Choose("len", sym.Param("n", 6)+1))
	noBackslash(c)
	orig := append([]byte(nil), c...)
	q := EscapeQuotedString(c)
	got, rest, err := QuotedString(append(append([]byte{}, q...), ",x=1"...))
	sym.Assert(err == nil, "parses")
	sym.Assert(ref.Eq(got, orig), "content")
	sym.Assert(string(rest) == ",x=1", "rest")
	sym.Observe("q", q)
}

// ZZ_Token: every string of up to n bytes against the first unescaped delimiter.
func ZZ_Token() {
	s := sym.Bytes("s", sym.Choose("len", sym.Param("n", 7)+1))
	until := []string{", ", "= ,", "=", ","}[sym.Choose("until", 4)]
	orig := append([]byte(nil), s...)
	tok, rest := Token(s, []byte(until))
	rtok, rrest, _ := ref.Cut(orig, until)
	sym.Assert(ref.Eq(tok, ref.Unescape(rtok)), "token")
	sym.Assert(ref.Eq(rest, rrest), "rest")
	raw, rest2 := TokenEscaped(s, []byte(until))
	sym.Assert(ref.Eq(raw, rtok), "raw-token")
	sym.Assert(ref.Eq(rest2, rrest), "raw-rest")
	sym.Assert(ref.Eq(s, orig), "input-unchanged")
	sym.Observe("t", tok, rest)
}
