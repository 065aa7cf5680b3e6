package downsampler

import (
	"strconv"
	"time"

	"github.com/jumptrading/influx-spout/v2/influx"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
)

type zzClock struct{ now time.Time }

func (c *zzClock) Now() time.Time { return c.now }

// zzBucket records its lines.
type zzBucket struct {
	end   time.Time
	lines []string
	err   bool
}

func (b *zzBucket) AddLine(l []byte) []error {
	b.lines = append(b.lines, string(l))
	return nil
}

func (b *zzBucket) Bytes() []byte {
	out := strconv.FormatInt(b.end.UnixNano(), 10) + ":"
	for _, l := range b.lines {
		out += l + ";"
	}
	return []byte(out)
}

func (b *zzBucket) EndTime() time.Time { return b.end }

// ZZ_Periods: a sequence of clock movements and lines.
func ZZ_Periods() {
	periods := []time.Duration{10 * time.Second, 7 * time.Second, time.Minute, 1500 * time.Millisecond}
	p := periods[sym.Choose("period", len(periods))]
	starts := []int64{1500000000e9, 1500000000e9 + 123456789, 1500000009999999999, -3e9}
	start := starts[sym.Choose("start", len(starts))]
	clk := &zzClock{time.Unix(0, start)}
	var made []*zzBucket
	a := newAssigner(p, func(t time.Time) bucket {
		b := &zzBucket{end: t}
		made = append(made, b)
		return b
	}, clk)

	floor := func(t time.Time) time.Time { return t.Truncate(p) }
	end := floor(clk.now).Add(p) // end of the current period
	want := map[int64]string{}   // by end of period
	sym.Assert(a.UntilNext() == end.Sub(clk.now), "until-next")

	steps := sym.Param("steps", 3)
	n := 0
	line := func(ts time.Time, text string, withTs bool) {
		l := "m" + strconv.Itoa(n) + " " + text
		n++
		full := l
		if withTs {
			full += " " + strconv.FormatInt(ts.UnixNano(), 10)
		}
		errs := a.Update([]byte(full))
		old := end.Add(-2 * p)
		switch {
		case ts.Before(old) || !ts.Before(end.Add(p)):
			sym.Assert(len(errs) == 1, "reported")
			sym.Assert(isTimestampError(errs[0]), "timestamp-error")
			sym.Reach("outside")
		default:
			sym.Assert(len(errs) == 0, "accepted")
			e := floor(ts).Add(p)
			want[e.UnixNano()] += l + ";"
			sym.Reach("inside")
		}
	}
	for i := 0; i < steps; i++ {
		switch sym.Choose("tick", 5) {
		case 0:
		case 1:
			clk.now = clk.now.Add(p / 2)
		case 2:
			if end.Add(-1).After(clk.now) {
				clk.now = end.Add(-1)
			}
		case 3:
			if end.After(clk.now) {
				clk.now = end
			}
		case 4:
			clk.now = clk.now.Add(2*p + 1)
		}
		k := sym.Choose("line", 9)
		cur := end.Add(-p)
		switch k {
		case 0:
		case 1:
			line(clk.now, "f=1", false)
		case 2:
			line(cur.Add(-p), "f=1", true) // start of the previous period
		case 3:
			line(cur.Add(-p-1), "f=1", true)
		case 4:
			line(cur, "f=1", true)
		case 5:
			line(cur.Add(-1), "f=1", true)
		case 6:
			line(end, "f=1", true)
		case 7:
			line(end.Add(p-1), "f=\"a 5\"", true)
		case 8:
			line(end.Add(p), "f=1", true)
		}
		out := string(a.Bytes())
		if clk.now.Before(end) {
			sym.Assert(out == "", "not-yet")
		} else {
			// the previous period is due
			e := end.Add(-p).UnixNano()
			sym.Assert(out == strconv.FormatInt(e, 10)+":"+want[e], "emitted")
			delete(want, e)
			end = end.Add(p)
			sym.Reach("emitted")
		}
		left := end.Sub(clk.now)
		if left < 0 {
			left = 0
		}
		sym.Assert(a.UntilNext() == left, "until-next")
	}
	// what is left comes out with the next three periods
	for i := 0; i < 3; i++ {
		if end.After(clk.now) {
			clk.now = end
		}
		e := end.Add(-p).UnixNano()
		sym.Assert(string(a.Bytes()) == strconv.FormatInt(e, 10)+":"+want[e], "emitted-at-end")
		delete(want, e)
		end = end.Add(p)
	}
	sym.Assert(len(want) == 0, "nothing-left")
}

// ZZ_PeriodDigits: any timestamp near the limits of the three periods.
func ZZ_PeriodDigits() {
	p := []time.Duration{10 * time.Second, 7 * time.Second}[sym.Choose("period", 2)]
	clk := &zzClock{time.Unix(0, 1500000003e9)}
	var made []*zzBucket
	a := newAssigner(p, func(t time.Time) bucket {
		b := &zzBucket{end: t}
		made = append(made, b)
		return b
	}, clk)
	end := clk.now.Truncate(p).Add(p)
	limit := end.Add(time.Duration(sym.Choose("limit", 4)-2) * p)
	// the limit with arbitrary low digits
	digits := sym.Param("digits", 2)
	scale := int64(1)
	for i := 0; i < digits; i++ {
		scale *= 10
	}
	hi := limit.UnixNano()/scale - int64(sym.Choose("below", 2))
	text := []byte(strconv.FormatInt(hi, 10))
	for i := 0; i < digits; i++ {
		d := sym.Byte("d")
		sym.Assume(sym.And(d >= '0', d <= '9'))
		text = append(text, d)
	}
	ts, ok := ref.Int(text)
	sym.Assert(ok, "ref")
	errs := a.Update([]byte("m f=1 " + string(text) + "\n"))
	inside := sym.And(ts >= end.Add(-2*p).UnixNano(), ts < end.Add(p).UnixNano())
	if len(errs) == 0 {
		sym.Assert(inside, "accepted-only-inside")
		found := 0
		for _, b := range made {
			for _, l := range b.lines {
				found++
				sym.Assert(l == "m f=1", "line")
				sym.Assert(sym.And(ts < b.end.UnixNano(), ts >= b.end.Add(-p).UnixNano()), "right-period")
			}
		}
		sym.Assert(found == 1, "once")
		sym.Reach("inside")
	} else {
		sym.Assert(sym.Not(inside), "discarded-only-outside")
		sym.Assert(isTimestampError(errs[0]), "timestamp-error")
		for _, b := range made {
			sym.Assert(len(b.lines) == 0, "discarded")
		}
		sym.Reach("outside")
	}
}

// zzMean is the mean of vs with its fraction dropped.
func zzMean(vs []int64) int64 {
	n := int64(len(vs))
	var hi, lo int64 // the sum is hi*2^32 + lo
	for _, v := range vs {
		hi += v >> 32
		lo += v & 0xffffffff
	}
	q := hi / n
	r := hi % n
	if r < 0 {
		r += n
		q--
	}
	t := r<<32 + lo
	q = q<<32 + t/n // rounded down
	if t%n != 0 && q < 0 {
		q++
	}
	return q
}

// ZZ_Mean: integer fields.
func ZZ_Mean() {
	b := newAvgBucket(time.Unix(0, 60e9))
	n := 1 + sym.Choose("values", sym.Param("values", 3))
	var vs []int64
	prefixes := []string{"", "1", "922337203685477580", "461168601842738790", "100000000000000000"}
	for i := 0; i < n; i++ {
		var text []byte
		neg := sym.Choose("neg", 2) == 1
		if neg {
			text = append(text, '-')
		}
		k := sym.Choose("prefix", sym.Param("prefixes", len(prefixes)))
		text = append(text, prefixes[k]...)
		d := byte('0' + sym.Choose("d", 10))
		if n > 1 && k > 1 {
			// the last digits of large numbers
			sym.Assume(d == '0' || d == '5' || d == '7' || d == '8')
		}
		text = append(text, d)
		v, ok := ref.Int(text)
		sym.Assume(ok)
		vs = append(vs, v)
		errs := b.AddLine([]byte("m,a=b f=" + string(text) + "i"))
		sym.Assert(len(errs) == 0, "accepted")
	}
	want := "m,a=b f=" + strconv.FormatInt(zzMean(vs), 10) + "i 60000000000\n"
	got := string(b.Bytes())
	sym.Observe("got", got)
	sym.Assert(got == want, "mean")
}

// ZZ_MeanSymbolic: the mean of small integers as a formula.
func ZZ_MeanSymbolic() {
	b := newAvgBucket(time.Unix(0, 60e9))
	n := 1 + sym.Choose("values", sym.Param("values", 3))
	var sum int64
	for i := 0; i < n; i++ {
		text := []byte("f=")
		neg := sym.Choose("neg", 2) == 1
		if neg {
			text = append(text, '-')
		}
		var v int64
		for k := 0; k < sym.Param("digits", 2); k++ {
			d := sym.Byte("d")
			sym.Assume(sym.And(d >= '0', d <= '9'))
			text = append(text, d)
			v = v*10 + int64(d-'0')
		}
		if neg {
			v = -v
		}
		sum += v
		errs := b.AddLine(append(append([]byte("m "), text...), 'i'))
		sym.Assert(len(errs) == 0, "accepted")
	}
	got := b.Bytes()
	const head, tail = "m f=", "i 60000000000\n"
	sym.Assert(len(got) > len(head)+len(tail) && string(got[:len(head)]) == head && string(got[len(got)-len(tail):]) == tail, "form")
	q, ok := ref.Int(got[len(head) : len(got)-len(tail)])
	sym.Assert(ok, "integer")
	m := int64(n)
	if sum >= 0 {
		sym.Assert(sym.And(q*m <= sum, sum < (q+1)*m), "mean")
	} else {
		sym.Assert(sym.And(q*m >= sum, sum > (q-1)*m), "mean")
	}
}

// ZZ_LastValue: strings and other values are emitted as last received.
func ZZ_LastValue() {
	b := newAvgBucket(time.Unix(0, 60e9))
	n := 1 + sym.Choose("values", 2)
	kind := sym.Choose("kind", 2)
	var last []byte
	for i := 0; i < n; i++ {
		max := sym.Param("n", 4)
		if i+1 < n {
			max = 2 // the values before the last one
		}
		v := sym.Bytes("v", sym.Choose("len", max))
		if kind == 0 {
			// quoted, with its quotes escaped
			text := []byte{'"'}
			for j, c := range v {
				sym.Assume(c != '\n')
				if c == '"' {
					text = append(text, '\\')
				} else if c == '\\' {
					// a backslash must not escape what follows it here
					sym.Assume(j+1 < len(v))
					sym.Assume(sym.And(v[j+1] != '"', v[j+1] != '\\'))
				}
				text = append(text, c)
			}
			last = append(text, '"')
		} else {
			// a boolean or something like it
			sym.Assume(len(v) > 0)
			for j, c := range v {
				if j == 0 {
					sym.Assume(sym.Or(c == 't', sym.Or(c == 'F', c == 'x')))
				} else {
					sym.Assume(sym.Or(sym.And(c >= 'a', c <= 'z'), c == '_'))
				}
			}
			last = v
		}
		errs := b.AddLine([]byte("m,a=b g=t,f=" + string(last) + ",h=1i"))
		sym.Assert(len(errs) == 0, "accepted")
	}
	got := b.Bytes()
	sym.Observe("got", got)
	sym.Assert(string(got) == "m,a=b f="+string(last)+",g=t,h=1i 60000000000\n", "last")
}

// ZZ_Types: lines of several series, fields and types.
func ZZ_Types() {
	b := newAvgBucket(time.Unix(0, 60e9))
	type field struct {
		typ  int // 1 integer, 2 string, 3 other, 4 float
		vals []int64
		text string
	}
	series := []string{"m", "m,a=b", "m,a=c"}
	names := []string{"f", "g"}
	state := map[string]map[string]*field{}
	steps := sym.Param("steps", 3)
	for i := 0; i < steps; i++ {
		s := series[sym.Choose("series", sym.Param("series", len(series)))]
		nf := 1 + sym.Choose("fields", sym.Param("fields", 2))
		line := s + " "
		fresh := state[s] == nil
		fs := map[string]*field{}
		for k, f := range state[s] {
			c := *f
			c.vals = append([]int64(nil), f.vals...)
			fs[k] = &c
		}
		wantErrs := 0
		first := sym.Choose("field", 2)
		for k := 0; k < nf; k++ {
			name := names[(first+k)%2]
			if k > 0 {
				line += ","
			}
			typ := 1 + sym.Choose("type", 5)
			var f field
			var text string
			switch typ {
			case 1:
				f = field{1, []int64{int64(i + 2)}, ""}
				text = strconv.Itoa(i+2) + "i"
			case 2:
				text = []string{"\"x y\"", "\"\"", "\"a,f=1\""}[sym.Choose("string", sym.Param("variants", 3))]
				f = field{2, nil, text}
			case 3:
				text = []string{"t", "F", "99999999999999999999i"}[sym.Choose("other", sym.Param("variants", 3))]
				f = field{3, nil, text}
			case 4:
				text = "2.5"
				f = field{4, nil, text}
			case 5: // a string that looks like a number
				text = []string{"\"5i\"", "\"2.5\"", "\"t\""}[sym.Choose("str", sym.Param("variants", 3))]
				f = field{2, nil, text}
			}
			line += name + "=" + text
			old := fs[name]
			switch {
			case old == nil:
				fs[name] = &f
			case old.typ != f.typ:
				wantErrs++
			default:
				old.vals = append(old.vals, f.vals...)
				old.text = f.text
			}
		}
		errs := b.AddLine([]byte(line))
		sym.Assert(len(errs) == wantErrs, "type-errors")
		if wantErrs > 0 && fresh {
			return // not reachable: the names differ
		}
		state[s] = fs
		if wantErrs > 0 {
			sym.Reach("type-error")
		}
	}
	// every series once, with exactly its fields
	out := string(b.Bytes())
	sym.Observe("size", len(out))
	total := 0
	for s, fs := range state {
		l := s + " "
		for i, name := range names {
			f := fs[name]
			if f == nil {
				continue
			}
			if i == 1 && fs["f"] != nil {
				l += ","
			}
			l += name + "="
			if f.typ == 1 {
				l += strconv.FormatInt(zzMean(f.vals), 10) + "i"
			} else {
				l += f.text
			}
		}
		l += " 60000000000\n"
		total += len(l)
		sym.Assert(zzCount(out, l) == 1, "series-once")
	}
	sym.Assert(len(out) == total, "nothing-else")
	sym.Reach("done")
}

// zzCount counts the lines of out equal to l (which ends in a newline).
func zzCount(out, l string) int {
	n := 0
	start := 0
	for i := 0; i < len(out); i++ {
		if out[i] == '\n' {
			if out[start:i+1] == l {
				n++
			}
			start = i + 1
		}
	}
	return n
}

// zzUsable tells whether the fields of a line without a timestamp are names and
// values with an equals sign in between and commas after the others, and how
// many there are. A line without any is usable (an existing test pins that).
func zzUsable(x []byte) (bool, int) {
	// until the first of the given characters that no backslash precedes
	find := func(from int, c byte) int {
		i := from
		for i < len(x) && (x[i] != c || i > from && x[i-1] == '\\') {
			i++
		}
		return i
	}
	n := 0
	i := find(0, ' ')
	for i < len(x) {
		i++ // space or comma
		eq := find(i, '=')
		if eq == i || eq >= len(x)-1 {
			return false, n
		}
		n++
		i = eq + 1
		if x[i] != '"' {
			end := find(i, ',')
			if end == i {
				return false, n
			}
			i = end
			continue
		}
		for i++; i < len(x) && x[i] != '"'; i++ {
			if x[i] == '\\' {
				i++
			}
		}
		if i >= len(x) || i+1 < len(x) && x[i+1] != ',' {
			return false, n
		}
		i++
	}
	return true, n
}

// ZZ_Malformed: an arbitrary line among others.
func ZZ_Malformed() {
	clk := &zzClock{time.Unix(0, 1500000003e9)}
	a := newAssigner(10*time.Second, newAvgBucket, clk)
	heads := []string{"", "x ", "x,a=b", "x f=", "x f=\"a\"", "x,a=b f=1,g=\"", "x f=z,g=", "pair,tag=1 f=t,g="}
	h := sym.Choose("head", len(heads))
	n := sym.Param("n", 4)
	if h == 0 {
		n++
	}
	x := append([]byte(heads[h]), sym.Bytes("x", sym.Choose("len", n+1))...)
	for _, c := range x {
		sym.Assume(c != '\n')
	}
	zzMalformed(a, clk, x, h == 7)
}

// ZZ_MalformedFields: lines of two or three fields whose parts may be missing
// or broken.
func ZZ_MalformedFields() {
	clk := &zzClock{time.Unix(0, 1500000003e9)}
	a := newAssigner(10*time.Second, newAvgBucket, clk)
	pair := sym.Choose("pair", 2) == 1
	x := []byte("x ")
	if pair {
		x = []byte("pair,tag=1 ")
	}
	values := []string{"", "1i", "\"a\"", "\"a", "\"a\"z", "t", "\"a\\\"", "\""}
	for i, n := 0, 2+sym.Choose("fields", sym.Param("more", 1)); i < n; i++ {
		if i > 0 {
			b := sym.Byte("between")
			sym.Assume(b != '\n')
			x = append(x, b)
		}
		x = append(x, []string{"h", "g", "k"}[i][sym.Choose("name", 2):]...)
		x = append(x, "="[sym.Choose("equals", 2):]...)
		x = append(x, values[sym.Choose("value", sym.Param("values", 5))]...)
	}
	zzMalformed(a, clk, x, pair)
}

// zzMalformed: x among other lines. With paired, it is of a series that had
// a line before.
func zzMalformed(a *assigner, clk *zzClock, x []byte, paired bool) {
	pair := 0
	if paired {
		pair = 1
		errs := a.Update([]byte("pair,tag=1 f=1i,g=2i"))
		sym.Assert(len(errs) == 0, "good-accepted")
	}
	good := "series,tag=1 f=2i,g=\"s\""
	before := a.Update([]byte("older,tag=1 f=1i\n" + good))
	sym.Assert(len(before) == 0, "good-accepted")
	errs := a.Update([]byte("series,tag=1 f=4i\n" + string(x) + "\nseries,tag=1 f=6i\nlate,tag=1 f=t\n"))
	again := a.Update([]byte("z9,tag=1 f=3i"))
	sym.Assert(len(again) == 0, "later-accepted")
	clk.now = clk.now.Add(10 * time.Second)
	sym.Assert(len(a.Bytes()) == 0, "previous-period-empty")
	clk.now = clk.now.Add(10 * time.Second)
	out := string(a.Bytes())
	const ts = " 1500000010000000000\n"
	sym.Assert(zzCount(out, "series,tag=1 f=4i,g=\"s\""+ts) == 1, "others-untouched")
	sym.Assert(zzCount(out, "older,tag=1 f=1i"+ts) == 1, "others-untouched")
	sym.Assert(zzCount(out, "late,tag=1 f=t"+ts) == 1, "later-lines")
	sym.Assert(zzCount(out, "z9,tag=1 f=3i"+ts) == 1, "later-lines")
	lines, start := 0, 0
	for i := 0; i < len(out); i++ {
		if out[i] == '\n' {
			lines++
			i0 := i - len(ts) + 1
			sym.Assert(i0 >= start && out[i0:i+1] == ts, "time")
			ok, fields := zzUsable([]byte(out[start:i0]))
			if !ok || fields == 0 {
				sym.Assert(len(x) > 0 && errs == nil && fields == 0, "output-well-formed")
			}
			start = i + 1
		}
	}
	if _, offset := influx.ExtractTimestamp(x); offset == -1 {
		if ok, fields := zzUsable(x); !ok {
			sym.Assert(len(errs) > 0, "unusable-reported")
			sym.Reach("unusable")
		} else if fields <= 1 && !paired {
			sym.Assert(len(errs) == 0, "usable-accepted")
			sym.Reach("usable")
		}
	}
	if len(x) == 0 {
		sym.Assert(len(errs) == 0 && lines == 4+pair, "empty-line-ignored")
		sym.Reach("empty")
	} else if len(errs) == 0 {
		sym.Assert(lines == 5, "used-or-reported")
		sym.Reach("used")
	} else {
		sym.Assert(lines == 4+pair, "reported")
		sym.Reach("reported")
	}
	sym.Observe("errors", len(errs))
}

// ZZ_TypeText: a field of each type, and then any short text.
func ZZ_TypeText() {
	b := newAvgBucket(time.Unix(0, 60e9))
	firsts := []string{"20i", "2.5", "tru", "\"s\""}
	kind := sym.Choose("first", len(firsts))
	errs := b.AddLine([]byte("m f=" + firsts[kind]))
	sym.Assert(len(errs) == 0, "accepted")
	text := sym.Bytes("text", 1+sym.Choose("len", sym.Param("n", 3)))
	for _, c := range text {
		if sym.Param("few", 0) == 1 {
			sym.Assume(sym.Or(c == 'i', sym.Or(sym.Or(c == '0', c == '7'), sym.Or(c == '-', sym.Or(c == '.', c == 't')))))
		} else {
			sym.Assume(sym.And(sym.And(c > ' ', c < 0x7f), sym.And(c != ',', sym.And(c != '"', c != '\\'))))
		}
	}
	v, digits := ref.Int(text[:len(text)-1])
	typ := 2
	if digits && text[len(text)-1] == 'i' {
		typ = 0
	} else if _, err := strconv.ParseFloat(string(text), 64); err == nil {
		typ = 1
	}
	errs = b.AddLine(append([]byte("m f="), text...))
	got := string(b.Bytes())
	value := firsts[kind]
	if typ != kind {
		sym.Assert(len(errs) == 1, "type-error")
		sym.Reach("type-error")
	} else {
		sym.Assert(len(errs) == 0, "accepted")
		switch kind {
		case 0:
			value = strconv.FormatInt(int64(sym.Concrete(int((20+v)/2))), 10) + "i"
		case 1:
			return // see the averages of floating point fields
		case 2:
			value = string(text)
		}
		sym.Reach("accepted")
	}
	sym.Assert(got == "m f="+value+" 60000000000\n", "value")
}

// ZZ_Lengths: strings and other values of any length replace each other, in
// messages of one or two lines, and no other value changes with them.
func ZZ_Lengths() {
	clk := &zzClock{time.Unix(0, 1500000003e9)}
	a := newAssigner(10*time.Second, newAvgBucket, clk)
	series := []string{"m", "m,a=b"}
	state := map[string]map[string]string{}
	quoted := sym.Choose("quoted", 2) == 1
	for i := 0; i < sym.Param("messages", 2); i++ {
		var msg []byte
		lines := 1
		if i == 0 {
			lines += sym.Choose("lines", 2)
		}
		for ; lines > 0; lines-- {
			s := series[sym.Choose("series", 2)]
			if state[s] == nil {
				state[s] = map[string]string{}
			}
			which := 1 + sym.Choose("fields", 3)
			msg = append(msg, s...)
			sep := byte(' ')
			for k, name := range []string{"f", "g"} {
				if which>>uint(k)&1 == 0 {
					continue
				}
				v := []byte("x")
				v = append(v, sym.Bytes("v", []int{1, sym.Param("long", 20)}[sym.Choose("len", 2)])...)
				for _, c := range v {
					sym.Assume(sym.And(c > 'i', c <= 'z'))
				}
				if quoted {
					v = append(append([]byte{'"'}, v...), '"')
				}
				msg = append(msg, sep)
				sep = ','
				msg = append(append(msg, name+"="...), v...)
				state[s][name] = string(v)
			}
			msg = append(msg, '\n')
		}
		errs := a.Update(msg)
		sym.Assert(len(errs) == 0, "accepted")
	}
	clk.now = clk.now.Add(10 * time.Second)
	sym.Assert(len(a.Bytes()) == 0, "not-yet")
	clk.now = clk.now.Add(10 * time.Second)
	out := string(a.Bytes())
	total := 0
	for _, s := range series {
		fs := state[s]
		if fs == nil {
			continue
		}
		l, sep := s, " "
		for _, name := range []string{"f", "g"} {
			if v, ok := fs[name]; ok {
				l += sep + name + "=" + v
				sep = ","
			}
		}
		l += " 1500000010000000000\n"
		total += len(l)
		sym.Assert(zzCount(out, l) == 1, "series-once")
	}
	sym.Assert(len(out) == total, "nothing-else")
	sym.Reach("done")
}
