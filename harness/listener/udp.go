package listener

import (
	"errors"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

const (
	zzSubject = "lines"
	zzMonitor = "monitor"
)

var errRead = errors.New("read failed")

func zzConfig() *config.Config {
	return &config.Config{
		Name:               "zz",
		NATSAddress:        "nats",
		NATSSubject:        []string{zzSubject},
		NATSSubjectMonitor: zzMonitor,
		Port:               10001,
		ReadBufferSize:     4 * datasize.MB,
		BatchMaxCount:      2,
		BatchMaxAge:        config.NewDuration(2500 * time.Millisecond),
		BatchMaxSize:       datasize.MB,
		StatsInterval:      config.NewDuration(24 * time.Hour),
	}
}

// zzTried is everything the listener tried to publish on the subject.
func zzTried(env *venv.Env) string {
	s := ""
	for _, m := range env.NATS.Published() {
		if m.Subject == zzSubject {
			s += string(m.Data)
		}
	}
	return s
}

func zzSettings(c *config.Config) (margin int) {
	c.BatchMaxCount = []int{1, 2, 3, 100}[sym.Choose("count", sym.Param("counts", 4))]
	ages := []time.Duration{150 << 24, 20 << 24, time.Hour} // 2.5 s, 0.34 s
	c.BatchMaxAge = config.NewDuration(ages[sym.Choose("age", sym.Param("ages", 3))])
	margin = 1 << 30 // bytes that fit before the size trigger
	switch sym.Choose("size", sym.Param("sizes", 3)) {
	case 1:
		c.BatchMaxSize = 65536 + 4
		margin = 4
	case 2:
		c.BatchMaxSize = 1024
		margin = 0
	}
	return margin
}

// ZZ_UDP: a sequence of datagrams, pauses, read errors and publish failures
// under several settings. what=1 checks the content, what=4 the triggers.
func ZZ_UDP() {
	what := sym.Param("what", 1)
	check := func(p int, ok bool, id string) {
		if p == what {
			sym.Assert(ok, id)
		}
	}
	c := zzConfig()
	margin := zzSettings(c)
	age := c.BatchMaxAge.Duration
	env := venv.New()
	env.NATS.Fail = func(op string, n int, subject string) error {
		if what == 1 && op == "publish" && subject == zzSubject && sym.Choose("publish-fails", 2) == 1 {
			sym.Reach("failed")
			return errRead
		}
		return nil
	}
	l, err := StartListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	sym.Assert(env.UDP.Port == c.Port, "port")

	want := ""    // all data so far which was not published at the last step
	pending := "" // not published yet
	writes := 0
	var since time.Time
	steps := sym.Param("steps", 3)
	n := sym.Param("n", 3)
	for i := 0; i < steps; i++ {
		var gap time.Duration
		if sym.Param("any", 0) == 1 {
			gap = time.Duration(sym.Byte("gap")) << 24 // up to 4.3 s
		} else {
			gap = []time.Duration{0, 2600 * time.Millisecond, 350 * time.Millisecond}[sym.Choose("gap", sym.Param("gaps", 3))]
		}
		if gap > 0 {
			time.Sleep(gap)
			sym.Settle()
		}
		now := time.Now()
		// the listener wakes up at least once every second
		sent := zzTried(env)
		check(4, len(pending) == 0 || now.Sub(since) < age+time.Second || sent == want, "held-back")
		if len(pending) > 0 && sent == want {
			// sent in the meantime: only age can be the reason
			for _, m := range env.NATS.Published() {
				if m.Subject == zzSubject {
					check(4, !m.At.Before(since.Add(age)), "not-before-age")
				}
			}
			sym.Reach("aged")
			pending = ""
			writes = 0
		}
		check(1, sent+pending == want, "content")
		env.NATS.Forget()
		want = pending

		var data []byte
		var err error
		if k := sym.Choose("len", n+2); k <= n {
			data = sym.Bytes("data", k)
			if sym.Choose("error", sym.Param("errors", 2)) == 1 {
				err = errRead
			}
		} else {
			data = []byte{'\n'}
		}
		due := now.Sub(since) >= age
		env.UDP.Send(data, err)
		sym.Settle()
		if len(data) > 0 {
			if writes == 0 {
				since = now
				due = false
			}
			writes++
			text := string(data)
			if text[len(text)-1] != '\n' {
				text += "\n"
			}
			want += text
			pending += text
		}
		due = len(pending) > 0 && (due || writes >= c.BatchMaxCount || len(pending) >= margin)
		sent = zzTried(env)
		if due {
			sym.Reach("due")
			check(4, sent == want, "due")
			check(1, sent == want || sent == "", "content")
			if sent != want {
				return
			}
			pending = ""
			writes = 0
		} else {
			check(4, sent == "", "not-due")
			check(1, sent+pending == want, "content")
			sym.Reach("collecting")
		}
	}
	for _, m := range env.NATS.Published() {
		check(1, m.Subject == zzSubject || m.Subject == zzMonitor, "nothing-else")
		check(4, m.Subject != zzSubject || len(m.Data) > 0, "no-empty-batch")
	}
	if age < time.Minute {
		time.Sleep(age + time.Second)
		sym.Settle()
		if len(pending) > 0 {
			for _, m := range env.NATS.Published() {
				check(4, m.Subject != zzSubject || m.At.Before(since.Add(age+time.Second+time.Millisecond)), "not-late")
			}
		}
		check(4, zzTried(env) == want, "sent-at-last")
		check(1, zzTried(env) == want, "content-at-last")
	}
	l.Stop()
}

// ZZ_UDPBig: datagrams up to the largest possible under several batch sizes.
func ZZ_UDPBig() {
	c := zzConfig()
	c.BatchMaxCount = 100
	c.BatchMaxAge = config.NewDuration(150 << 24)
	c.BatchMaxSize = []datasize.ByteSize{65540, 50000, 1000, 100000, 131072, 150000}[sym.Choose("size", sym.Param("sizes", 6))]
	env := venv.New()
	l, err := StartListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	want := ""
	for i := sym.Param("steps", 3); i > 0; i-- {
		size := []int{3, 20000, 33000, 50000, 65507}[sym.Choose("bytes", sym.Param("lengths", 5))]
		data := make([]byte, size)
		for k := range data {
			data[k] = byte('a' + i)
			if k%500 == 499 {
				data[k] = '\n'
			}
		}
		data[0] = sym.Byte("first")
		data[size-2] = sym.Byte("butlast")
		data[size-1] = sym.Byte("last")
		text := string(data)
		if text[len(text)-1] != '\n' {
			text += "\n"
		}
		want += text
		env.UDP.Send(data, nil)
		sym.Settle()
	}
	time.Sleep(4 * time.Second)
	sym.Settle()
	out := zzTried(env)
	sym.Assert(len(out) == len(want), "nothing-lost")
	sym.Assert(out == want, "content")
	sym.Reach("compared")
	l.Stop()
}
