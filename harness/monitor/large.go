package monitor

import (
	"sort"
	"strconv"
	"strings"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

func zzNum(prefix string, i int) string {
	s := strconv.Itoa(i)
	return prefix + strings.Repeat("0", 3-len(s)) + s
}

// ZZ_Many: many metrics and many labels.
func ZZ_Many() {
	env := venv.New()
	m, err := Start(zzConfig())
	sym.Assert(err == nil, "starts")
	sym.Settle()
	n := sym.Param("n", 100)
	b := sym.Byte("b")
	sym.Assume(sym.And(b >= '0', b <= '9'))
	digit := string([]byte{b})
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	var want []string
	if sym.Choose("shape", 2) == 0 {
		// the same metric of many components, twice
		for round := 0; round < 2; round++ {
			want = nil
			for i := 0; i < n; i++ {
				v := strconv.Itoa(i + round)
				if i == at {
					v = digit
				}
				line := zzNum("z", i%3) + `{component="filter",name="` + zzNum("c", i) + `"} ` + v
				want = append(want, line+"\n")
				env.NATS.Deliver(zzSubject, []byte(line+"\n"))
			}
			sym.Settle()
		}
		sym.Reach("metrics")
	} else {
		// many labels in another order
		var labels, sent []string
		for i := 0; i < n; i++ {
			v := strconv.Itoa(i)
			if i == at {
				v = digit
			}
			labels = append(labels, zzNum("l", i)+`="`+v+`"`)
		}
		for i := range labels {
			sent = append(sent, labels[(n-1-i)*3%n])
		}
		for i := 0; i < 2; i++ {
			env.NATS.Deliver(zzSubject, []byte("z{"+strings.Join(sent, ",")+"} "+strconv.Itoa(i)+"\n"))
			sym.Settle()
			sent[0], sent[n-1] = sent[n-1], sent[0]
		}
		want = []string{"z{" + strings.Join(labels, ",") + "} 1\n"}
		sym.Reach("labels")
	}
	got := strings.SplitAfter(string(zzPage(env)), "\n")
	sym.Assert(len(got) == len(want)+1 && got[len(want)] == "", "entries")
	sort.SliceStable(want, func(i, j int) bool { return want[i][:4] < want[j][:4] })
	for i, w := range want {
		if len(want) == 1 {
			sym.Assert(got[0] == w, "entry")
			break
		}
		found := 0
		for _, g := range got {
			if len(g) == len(w) && g == w {
				found++
			}
		}
		sym.Assert(found == 1, "entry")
		sym.Assert(got[i][:4] == w[:4], "sorted")
	}
	m.Stop()
}
