package listener

import (
	"strconv"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/ref"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Precision: a line of arbitrary bytes or with a number of any length
// between two fixed ones, for each precision.
func ZZ_Precision() {
	precs := []string{"u", "ms", "s", "m", "h", "n"}
	mults := []int64{1000, 1000000, 1000000000, 60 * 1000000000, 3600 * 1000000000, 1}
	k := sym.Choose("prec", sym.Param("precs", len(precs)))
	mult := mults[k]

	c := zzConfig()
	c.BatchMaxCount = 1
	env := venv.New()
	l, err := StartHTTPListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()

	var line []byte
	if lo := sym.Param("lo", 0); lo > 0 {
		line = append(line, sym.Bytes("head", 2)...)
		line = append(line, ' ')
		if sym.Choose("negative", 2) == 1 {
			line = append(line, '-')
		}
		d := sym.Bytes("d", lo+sym.Choose("digits", sym.Param("hi", lo)-lo+1))
		for i := range d {
			sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
		}
		if sym.Param("edge", 0) == 1 {
			// The digits of the largest timestamp which can be scaled, the
			// last ones replaced.
			max := strconv.FormatInt((1<<63-1)/mult, 10)
			d = append([]byte(max)[:len(max)-len(d)], d...)
		}
		line = append(line, d...)
	} else {
		line = append([]byte("m "), sym.Bytes("line", sym.Choose("len", sym.Param("n", 4)+1))...)
	}
	for _, b := range line {
		sym.Assume(b != '\n')
	}
	last := sym.Choose("last", 3)
	line = append(line, '\n')
	body := append([]byte("a b=1 5\n"), line...)
	switch last {
	case 1:
		body = body[:len(body)-1]
	case 2:
		body = append(body, "c d=2 7\n"...)
	}
	r := env.Request(zzAddr, "POST", "/write?precision="+precs[k], &venv.Body{Pieces: [][]byte{append([]byte(nil), body...)}})
	sym.Assert(r != nil && r.Status == 204, "status")
	sym.Settle()
	out := []byte(zzTried(env))

	next := func() []byte {
		for i, b := range out {
			if b == '\n' {
				l := out[:i+1]
				out = out[i+1:]
				return l
			}
		}
		l := out
		out = nil
		return l
	}
	check := func(in []byte, final bool) {
		got := next()
		ts, off, ok := ref.Timestamp(in)
		if len(in) > 0 && in[len(in)-1] == '\n' {
			in = in[:len(in)-1]
		}
		if len(got) > 0 && got[len(got)-1] == '\n' {
			got = got[:len(got)-1]
		} else {
			sym.Assert(final, "newline")
		}
		const max = 1<<63 - 2
		const min = -1<<63 + 2
		if !ok || !(ts <= max/mult) || !(ts >= min/mult) {
			sym.Assert(ref.Eq(got, in), "left-alone")
			sym.Reach("alone")
			return
		}
		sym.Assert(len(got) > off, "rest-of-line")
		if len(got) <= off {
			return
		}
		sym.Assert(ref.Eq(got[:off], in[:off]), "rest-of-line")
		v, ok := ref.Int(got[off:])
		sym.Assert(ok && v == ts*mult, "exactly-scaled")
		sym.Reach("scaled")
	}
	check([]byte("a b=1 5\n"), false)
	if last == 1 {
		line = line[:len(line)-1]
	}
	check(line, last == 1)
	if last == 2 {
		check([]byte("c d=2 7\n"), false)
	}
	sym.Assert(len(out) == 0, "nothing-else")
	l.Stop()
}

// ZZ_PrecisionLines: a body of arbitrary bytes between two lines, with a
// precision: every line is published once and in order.
func ZZ_PrecisionLines() {
	c := zzConfig()
	c.BatchMaxCount = []int{1, 100}[sym.Choose("count", 2)]
	env := venv.New()
	l, err := StartHTTPListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()

	data := sym.Bytes("data", sym.Choose("len", sym.Param("n", 3)+1))
	head := []string{"", "a b=1 5\n"}[sym.Choose("head", 2)]
	tail := []string{"", "\nc d=2 7\n", "\nc d=2"}[sym.Choose("tail", 3)]
	body := append(append([]byte(head), data...), tail...)
	var pieces [][]byte
	if cut := sym.Choose("cut", 3); cut == 0 || len(data) < cut {
		pieces = [][]byte{append([]byte(nil), body...)}
	} else {
		cut += len(head)
		pieces = [][]byte{append([]byte(nil), body[:cut]...), append([]byte(nil), body[cut:]...)}
	}
	b := &venv.Body{Pieces: pieces, Early: sym.Choose("early", 2) == 1}
	if sym.Choose("broken", 2) == 1 {
		b.Err = errRead
	}
	r := env.Request(zzAddr, "POST", "/write?precision=s", b)
	sym.Assert(r != nil && r.Status == 204, "status")
	sym.Settle()
	l.Stop()
	if c.BatchMaxCount > 1 {
		// not due yet, and dropped by Stop
		sym.Assert(zzTried(env) == "", "not-due")
		return
	}
	want := ""
	for len(body) > 0 {
		end := 0
		for end < len(body) && body[end] != '\n' {
			end++
		}
		line := string(body[:end])
		whole := end < len(body)
		if whole {
			end++
		}
		body = body[end:]
		if len(line) == 0 || (len(line) == 1 && !whole) {
			continue // a single byte is no line
		}
		switch line {
		case "a b=1 5":
			line = "a b=1 5000000000"
		case "c d=2 7":
			line = "c d=2 7000000000"
		}
		want += line + "\n"
	}
	if want == "" {
		return
	}
	sym.Assert(zzSame(zzTried(env), want[:len(want)-1]), "every-line-once-in-order")
	sym.Reach("compared")
}

// ZZ_LongLine: a line longer than what is read at once does not affect the
// others.
func ZZ_LongLine() {
	c := zzConfig()
	c.BatchMaxCount = 1
	env := venv.New()
	l, err := StartHTTPListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()

	body := []byte("a b=1 5\nm s=\"")
	for i := []int{4080, 65520, 70000}[sym.Choose("length", sym.Param("lengths", 3))]; i > 0; i-- {
		body = append(body, 'x')
	}
	body = append(body, sym.Bytes("data", sym.Param("n", 1))...)
	body = append(body, "\" 6\nc d=2 7\n"...)
	prec := sym.Choose("precision", 2)
	r := env.Request(zzAddr, "POST", "/write"+[]string{"", "?precision=s"}[prec], &venv.Body{Pieces: [][]byte{append([]byte(nil), body...)}})
	sym.Assert(r != nil && r.Status == 204, "status")
	sym.Settle()
	l.Stop()
	out := zzTried(env)
	sym.Assert(len(out) >= len(body)-1, "nothing-lost")
	want := []string{"\nc d=2 7\n", "\nc d=2 7000000000\n"}[prec]
	sym.Assert(out[len(out)-len(want):] == want, "last-line")
	sym.Reach("compared")
}
