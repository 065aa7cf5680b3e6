package downsampler

import (
	"strconv"
	"strings"
	"time"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

func zzNum(prefix string, i int) string {
	s := strconv.Itoa(i)
	return prefix + strings.Repeat("0", 3-len(s)) + s
}

// ZZ_Many: many values of a field, many fields of a series, many series.
func ZZ_Many() {
	clk := &zzClock{time.Unix(0, 1500000003e9)}
	a := newAssigner(10*time.Second, newAvgBucket, clk)
	n := sym.Param("n", 300)
	b := sym.Byte("b")
	sym.Assume(sym.And(b >= '0', b <= '9'))
	digit := string([]byte{b})
	at := []int{0, n/2 + 1, n - 1}[sym.Choose("at", 3)]
	var want []string
	var msg []byte
	switch shape := sym.Choose("shape", 3); shape {
	case 0: // values
		n = sym.Param("values", n)
		if at > 0 {
			at = n - 1
		}
		sum := 0
		for i := 0; i < n; i++ {
			v, s := i%7, ""
			if i == at {
				s = "f=" + digit + "i"
				v = int(b - '0')
			} else {
				s = "f=" + strconv.Itoa(v) + "i"
			}
			sum += v
			msg = append(msg, "m "+s+",g=2i,h=\""+strconv.Itoa(i)+"\"\n"...)
		}
		want = []string{"m f=" + strconv.Itoa(int(sym.Concrete(sum/n))) + "i,g=2i,h=\"" + strconv.Itoa(n-1) + "\""}
		sym.Reach("values")
	case 1: // fields
		line := "m"
		sep := " "
		for i := 0; i < n; i++ {
			line += sep + zzNum("f", i) + "="
			sep = ","
			if i == at {
				line += digit + "i"
			} else {
				line += strconv.Itoa(i) + "i"
			}
		}
		msg = []byte(line + "\n" + line + "\n")
		want = []string{line}
		sym.Reach("fields")
	case 2: // series
		for i := 0; i < n; i++ {
			line := "m,a=" + zzNum("", i) + " f=" + strconv.Itoa(i) + "i"
			if i == at {
				line = "m,a=x" + digit + " f=1i"
			}
			want = append(want, line)
			msg = append(msg, line+"\n"...)
		}
		sym.Reach("series")
	}
	errs := a.Update(msg)
	sym.Assert(len(errs) == 0, "accepted")
	clk.now = clk.now.Add(10 * time.Second)
	sym.Assert(len(a.Bytes()) == 0, "not-yet")
	clk.now = clk.now.Add(10 * time.Second)
	out := string(a.Bytes())
	lines := strings.Split(out, "\n")
	sym.Assert(len(lines) == len(want)+1, "lines")
	seen := map[string]int{}
	for _, l := range lines {
		if !strings.Contains(l, "a=x") {
			seen[l]++
		}
	}
	for i, l := range want {
		l += " 1500000010000000000"
		if len(want) > 1 && i == at {
			found := 0
			for _, g := range lines {
				if g == l {
					found++
				}
			}
			sym.Assert(found == 1, "series-once")
			continue
		}
		if len(want) == 1 {
			sym.Assert(lines[0] == l, "line")
		} else {
			sym.Assert(seen[l] == 1, "series-once")
		}
	}
}
