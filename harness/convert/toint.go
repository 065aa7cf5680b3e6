package convert

import (
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// refInt is the reference: optional '-', one or more digits, value in int64.
func refInt(s []byte) (v int64, ok bool) {
	neg := false
	i := 0
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i = 1
	}
	if i >= len(s) {
		return 0, false
	}
	for j := i; j < len(s); j++ {
		if s[j] < '0' || s[j] > '9' {
			return 0, false
		}
	}
	var n uint64
	over := false
	for ; i < len(s); i++ {
		// beyond (2^63-1)/10 one more digit does not fit; below it n cannot wrap
		over = sym.Or(over, n > (1<<63-1)/10)
		n = n*10 + uint64(s[i]-'0')
	}
	if neg {
		over = sym.Or(over, n > 1<<63)
	} else {
		over = sym.Or(over, n >= 1<<63)
	}
	if over {
		return 0, false
	}
	if neg {
		return int64(-n), true
	}
	return int64(n), true
}

// ZZ_ToInt: every byte string up to n bytes.
func ZZ_ToInt() {
	n := sym.Choose("len", sym.Param("n", 6)+1)
	s := sym.Bytes("s", n)
	orig := append([]byte(nil), s...)
	v, err := ToInt(s)
	rv, ok := refInt(orig)
	sym.Assert((err == nil) == ok, "accepts-exactly-int64-decimals")
	if ok {
		sym.Assert(v == rv, "exact-value")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	sym.Assert(string(s) == string(orig), "input-unchanged")
	sym.Observe("r", v, err == nil)
}

// ZZ_ToIntLong: digit strings around and beyond the 64-bit limits.
func ZZ_ToIntLong() {
	lo := sym.Param("lo", 17)
	n := lo + sym.Choose("len", sym.Param("hi", 22)-lo+1)
	neg := sym.Choose("neg", 2) == 1
	d := sym.Bytes("d", n)
	for i := range d {
		sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
	}
	s := d
	if neg {
		s = append([]byte{'-'}, d...)
	}
	v, err := ToInt(s)
	rv, ok := refInt(s)
	sym.Assert((err == nil) == ok, "accepts-exactly-int64-decimals")
	if ok {
		sym.Assert(v == rv, "exact-value")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	sym.Observe("r", v, err == nil)
}
