package writer

import (
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Large: many rules, many lines, many messages in one batch.
func ZZ_Large() {
	n := sym.Param("n", 100)
	c := zzConfig()
	c.BatchMaxCount = 1000
	c.BatchMaxSize = datasize.MB
	c.BatchMaxAge = config.NewDuration(time.Second)
	for i := 0; i < n; i++ {
		c.Rule = append(c.Rule, config.Rule{Rtype: "basic", Match: "m" + strconv.Itoa(i)})
	}
	env := venv.New()
	got := ""
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		got += string(body)
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	want, data := "", ""
	perMessage := []int{1, 7, 2 * n}[sym.Choose("per", 3)]
	for i := 0; i < 2*n; i++ {
		name := "m" + strconv.Itoa(i)
		matches := i < n
		if i == at {
			b := sym.Byte("b")
			sym.Assume(sym.And(b > ' ', sym.And(b != '\\', b != ',')))
			name = string([]byte{b}) + strconv.Itoa(i)
			matches = b == 'm'
		}
		line := name + " x=\"" + strings.Repeat("y", i) + "\"\n"
		data += line
		if matches {
			want += line
		}
		if (i+1)%perMessage == 0 || i == 2*n-1 {
			sym.Assert(env.NATS.Deliver(zzSubject, []byte(data)) == 1, "subscribed")
			data = ""
		}
	}
	sym.Settle()
	time.Sleep(5 * time.Second)
	sym.Settle()
	sym.Assert(got == want, "lines-matched")
	sym.Reach("written")
	w.Stop()
}
