package filter

import (
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

func zzNum(prefix string, i int) string {
	s := strconv.Itoa(i)
	return prefix + strings.Repeat("0", 3-len(s)) + s
}

// ZZ_Large: many rules, many tags, many lines and a very long line.
func ZZ_Large() {
	n := sym.Param("n", 70)
	var rules []config.Rule
	for i := 0; i < n; i++ {
		rules = append(rules, zzBasic(zzNum("m", i), zzNum("s", i)))
	}
	var kv []string
	for i := 0; i < n; i++ {
		kv = append(kv, zzNum("k", i), "v")
	}
	rules = append(rules, zzTags("tags", kv...))
	w, conn, _, ruleSt := zzWorker(rules, time.Minute)

	want := map[string]string{}
	hits := map[string]int{}
	put := func(subject, line string) {
		want[subject] += line
		hits[subject]++
	}
	msg := ""
	switch shape := sym.Param("from", 0) + sym.Choose("shape", sym.Param("shapes", 3)); shape {
	case 0: // many lines for all rules
		at := []int{0, 1, n - 1, n, 3*n - 1}[sym.Choose("at", 5)]
		for i := 0; i < 3*n; i++ {
			name := zzNum("m", i*7%n)
			to := zzNum("s", i*7%n)
			if i == at {
				b := sym.Byte("b")
				sym.Assume(sym.And(b >= '0', b <= '9'))
				// the last digit of the name
				digit := i * 7 % n % 10
				rest := name[:len(name)-1]
				name = rest + string([]byte{b})
				to = zzJunk
				for d := 0; d < 10; d++ {
					if k := i*7%n - digit + d; k < n && b == byte('0'+d) {
						to = zzNum("s", k)
					}
				}
			}
			line := name + " x=" + strconv.Itoa(i) + "\n"
			msg += line
			put(to, line)
		}
		sym.Reach("lines")
	case 1: // many tags the other way round, one of them with another value
		at := []int{0, 1, 31, 32, 63, 64, n - 1}[sym.Choose("at", 7)]
		b := sym.Byte("b")
		sym.Assume(sym.And(b >= 'a', b <= 'z'))
		tags := make([]string, n)
		for i := range tags {
			v := "v"
			if i == at {
				v = string([]byte{b})
			}
			tags[i] = "," + zzNum("k", i) + "=" + v
		}
		line, sorted := "m", "m"
		for i := range tags {
			line += tags[(n-1-i)*3%n]
			sorted += tags[i]
		}
		msg = line + " x=1\nmore x=2\n"
		to := zzJunk
		if b == 'v' {
			to = "tags"
		}
		put(to, sorted+" x=1\n")
		put(zzJunk, "more x=2\n")
		sym.Reach("tags")
	case 2: // a field longer than any buffer was made for
		b := sym.Byte("b")
		sym.Assume(sym.And(b != '\n', b != '\\'))
		long := strings.Repeat("y", sym.Param("long", 66000))
		line := "m001,b=1,a=2 x=\"" + long + string([]byte{b}) + "\"\n"
		msg = "m002 x=1\n" + line + "m001 x=2\n"
		put("s002", "m002 x=1\n")
		put("s001", "m001,a=2,b=1"+line[len("m001,b=1,a=2"):])
		put("s001", "m001 x=2\n")
		sym.Reach("long")
	}
	w.processBatch([]byte(msg))
	got := map[string]string{}
	for _, m := range conn.sent {
		sym.Assert(len(m.data) > 0, "no-empty-publish")
		got[m.subject] += string(m.data)
	}
	sym.Assert(len(got) == len(want), "subjects")
	for i, r := range rules {
		sym.Assert(got[r.Subject] == want[r.Subject], "routed")
		sym.Assert(ruleSt.Get(i) == uint64(hits[r.Subject]), "triggered")
	}
	sym.Assert(got[zzJunk] == want[zzJunk], "junk")
}
