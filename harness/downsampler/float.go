package downsampler

import (
	"bytes"
	"time"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// zzFloat makes a decimal number of arbitrary digits; its value is n/1e6.
func zzFloat() (text []byte, n int64) {
	forms := []string{"d", "-d.d", "dd.d", "d.dd", "de2", "d.de-1", "+d", ".d", "d.", "-ddd", "d.ddd", "ddE+1", "-.dd"}
	scale := []int64{1e6, 1e5, 1e5, 1e4, 1e8, 1e4, 1e6, 1e5, 1e6, 1e6, 1e3, 1e7, 1e4}
	k := sym.Choose("form", sym.Param("forms", len(forms)))
	exponent := false
	for i := 0; i < len(forms[k]); i++ {
		c := forms[k][i]
		if c == 'd' && !exponent {
			c = sym.Byte("d")
			sym.Assume(sym.And(c >= '0', c <= '9'))
			n = n*10 + int64(c-'0')
		} else if c == 'e' || c == 'E' {
			exponent = true
		}
		text = append(text, c)
	}
	if forms[k][0] == '-' {
		n = -n
	}
	return text, n * scale[k]
}

// ZZ_FloatMean: floating point fields are emitted as their means.
func ZZ_FloatMean() {
	sym.Rationals()
	b := newAvgBucket(time.Unix(0, 60e9))
	series := []string{"m,a=b", "m,a=c"}
	fields := []string{"f", "g"}
	var sum, count [2][2]int64
	values := 1 + sym.Choose("values", sym.Param("values", 3))
	for i := 0; i < values; i++ {
		s := 0
		if i > 0 {
			s = sym.Choose("series", sym.Param("series", 2))
		}
		line := []byte(series[s] + " ")
		// one field, the other or both
		which := 1
		if i > 0 {
			which = 1 + sym.Choose("fields", sym.Param("fields", 3))
		}
		first := true
		for f := 0; f < 2; f++ {
			if which&(1<<uint(f)) == 0 {
				continue
			}
			if !first {
				line = append(line, ',')
			}
			first = false
			text, n := zzFloat()
			line = append(append(append(line, fields[f]...), '='), text...)
			sum[s][f] += n
			count[s][f]++
		}
		errs := b.AddLine(line)
		sym.Assert(len(errs) == 0, "accepted")
		if sym.Param("others", 1) == 1 && i+1 < values {
			// values of other types are not part of the mean
			if other := []string{"", "1i", "\"1\"", "true", "1.5x"}[sym.Choose("other", 5)]; other != "" {
				errs := b.AddLine([]byte(series[0] + " f=" + other))
				sym.Assert(len(errs) == 1, "refused")
				sym.Reach("refused")
			}
		}
	}
	lines := bytes.Split(b.Bytes(), []byte("\n"))
	sym.Assert(len(lines[len(lines)-1]) == 0, "newline-at-end")
	seen := [2]bool{}
	for _, line := range lines[:len(lines)-1] {
		parts := bytes.Split(line, []byte(" "))
		sym.Assert(len(parts) == 3 && string(parts[2]) == "60000000000", "form")
		s := 0
		if string(parts[0]) == series[1] {
			s = 1
		} else {
			sym.Assert(string(parts[0]) == series[0], "series")
		}
		sym.Assert(!seen[s], "series-once")
		seen[s] = true
		got := bytes.Split(parts[1], []byte(","))
		j := 0
		for f := 0; f < 2; f++ {
			if count[s][f] == 0 {
				continue
			}
			sym.Assert(j < len(got) && len(got[j]) > 2 && string(got[j][:2]) == fields[f]+"=", "field")
			sym.Assert(sym.Near(got[j][2:], sum[s][f], count[s][f]*1e6), "mean")
			if count[s][f] > 1 {
				sym.Reach("mean")
			} else {
				sym.Reach("value")
			}
			j++
		}
		sym.Assert(j == len(got), "no-other-fields")
	}
	for s := range seen {
		sym.Assert(seen[s] == (count[s][0]+count[s][1] > 0), "every-series")
	}
}
