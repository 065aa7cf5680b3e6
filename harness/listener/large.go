package listener

import (
	"strconv"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// zzLarge checks what was published of want.
func zzLarge(env *venv.Env, want string, max int) {
	got := ""
	sent := 0
	for _, m := range env.NATS.Published() {
		if m.Subject == zzSubject {
			got += string(m.Data)
			sym.Assert(len(m.Data) <= max, "message-size")
			sent++
		}
	}
	sym.Assert(got == want, "content")
	sym.Assert(sent > 1, "several-batches")
	sym.Reach("sent")
}

// ZZ_UDPLarge: many datagrams, short, long and of the largest size.
func ZZ_UDPLarge() {
	n := sym.Param("n", 60)
	c := zzConfig()
	c.BatchMaxCount = []int{7, 100000}[sym.Choose("count", 2)]
	c.BatchMaxAge = config.NewDuration(time.Hour)
	c.BatchMaxSize = []datasize.ByteSize{200 * datasize.KB, datasize.MB}[sym.Choose("size", 2)]
	env := venv.New()
	l, err := StartListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	want := ""
	symbolic := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	for i := 0; i < n; i++ {
		size := []int{1, 50, 1472, 9000, 65000, 65507}[i%6]
		data := []byte(strconv.Itoa(i) + strings.Repeat("x", size))[:size]
		if i%4 == 0 {
			data[size-1] = '\n'
		}
		if i == symbolic {
			data[size/2] = sym.Byte("middle")
			data[size-1] = sym.Byte("last")
		}
		want += string(data)
		if data[size-1] != '\n' {
			want += "\n"
		}
		env.UDP.Send(data, nil)
		sym.Settle()
	}
	c.BatchMaxAge = config.NewDuration(time.Hour)
	time.Sleep(time.Hour + 2*time.Second)
	sym.Settle()
	zzLarge(env, want, int(c.BatchMaxSize))
	_ = l
}

// ZZ_HTTPLarge: big bodies in many fragments, as they are and rewritten to
// nanoseconds.
func ZZ_HTTPLarge() {
	n := sym.Param("n", 300)
	c := zzConfig()
	c.BatchMaxCount = 3
	c.BatchMaxAge = config.NewDuration(time.Hour)
	c.BatchMaxSize = datasize.MB
	env := venv.New()
	_, err := StartHTTPListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	fragment := []int{1, 1000, 65536, 1 << 30}[sym.Choose("fragment", 4)]
	precise := sym.Choose("precise", 2) == 1
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	want := ""
	for k := 0; k < 5; k++ {
		data := ""
		for i := 0; i < n; i++ {
			name := "m" + strconv.Itoa(k) + "-" + strconv.Itoa(i)
			if i == at {
				b := sym.Byte("b")
				sym.Assume(sym.And(b > ' ', b != '\\'))
				name = string([]byte{b}) + name
			}
			line := name + " x=" + strings.Repeat("1", i%200) + "0 "
			data += line + "15" + strconv.Itoa(i) + "\n"
			if precise {
				want += line + "15" + strconv.Itoa(i) + "000000000\n"
			} else {
				want += line + "15" + strconv.Itoa(i) + "\n"
			}
		}
		body := &venv.Body{}
		step := fragment
		if step == 1 {
			step = 1 + len(data)/500
		}
		for left := []byte(data); len(left) > 0; {
			m := step
			if m > len(left) {
				m = len(left)
			}
			body.Pieces = append(body.Pieces, left[:m])
			left = left[m:]
		}
		url := "/write"
		if precise {
			url = "/write?precision=s"
		}
		r := env.Request(zzAddr, "POST", url, body)
		sym.Assert(r.Status == 204, "status")
		sym.Settle()
	}
	time.Sleep(time.Hour + 2*time.Second)
	sym.Settle()
	zzLarge(env, want, 1<<30)
}
