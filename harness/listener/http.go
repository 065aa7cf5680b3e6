package listener

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

const zzAddr = ":10001"

// zzBody is a body which is read piece by piece as the gate opens.
type zzGate struct {
	gate chan struct{}
	left int
}

func (g *zzGate) open() {
	if g.left > 0 {
		g.left--
		g.gate <- struct{}{}
	}
}

// ZZ_HTTPOverlap: requests whose bodies arrive in pieces, in any order.
func ZZ_HTTPOverlap() {
	c := zzConfig()
	c.BatchMaxCount = []int{1, 100}[sym.Choose("count", 2)]
	c.BatchMaxAge = config.NewDuration(150 << 24)
	env := venv.New()
	fails := false
	env.NATS.Fail = func(op string, n int, subject string) error {
		if op == "publish" && subject == zzSubject && fails {
			return errRead
		}
		return nil
	}
	l, err := StartHTTPListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()

	reqs := sym.Param("requests", 2)
	n := sym.Param("n", 3)
	bodies := make([]string, reqs)
	precise := make([]bool, reqs)
	gates := make([]*zzGate, reqs)
	replies := make([]*venv.Reply, reqs)
	done := make(chan int, reqs)
	for i := range bodies {
		data := sym.Bytes("body", sym.Choose("len", n)+1)
		for _, b := range data {
			// the bytes tell which request they belong to
			sym.Assume(sym.Or(b == '\n', b>>4 == byte(4+i)))
		}
		bodies[i] = string(data)
		g := &zzGate{gate: make(chan struct{}, 8)}
		gates[i] = g
		body := &venv.Body{Wait: func() { <-g.gate }}
		if len(data) > 1 && sym.Choose("pieces", 2) == 1 {
			body.Pieces = [][]byte{data[:1], data[1:]}
		} else {
			body.Pieces = [][]byte{data}
		}
		if sym.Choose("broken", 2) == 1 {
			body.Err = errRead
		}
		body.Early = i < sym.Param("early", 2) && sym.Choose("early", 2) == 1
		g.left = len(body.Pieces)
		if !body.Early {
			g.left++
		}
		url := "/write"
		switch sym.Choose("precision", sym.Param("precisions", 2)) {
		case 1:
			url = "/write?precision=s"
			precise[i] = true
		case 2:
			url = "/write?db=x&precision=ns"
		}
		i := i
		go func() {
			replies[i] = env.Request(zzAddr, "POST", url, body)
			done <- i
		}()
	}
	sym.Settle()
	for left := true; left; {
		var open []*zzGate
		for _, g := range gates {
			if g.left > 0 {
				open = append(open, g)
			}
		}
		if len(open) == 0 {
			break
		}
		open[sym.Choose("next", len(open))].open()
		sym.Settle()
	}
	for range bodies {
		<-done
	}
	for _, r := range replies {
		sym.Assert(r != nil && r.Status == 204, "status")
	}
	time.Sleep(c.BatchMaxAge.Duration + time.Second)
	sym.Settle()

	got := make([]string, reqs)
	for _, m := range env.NATS.Published() {
		sym.Assert(m.Subject == zzSubject || m.Subject == zzMonitor, "nothing-else")
		if m.Subject != zzSubject {
			continue
		}
		data := string(m.Data)
		for len(data) > 0 {
			end := 0
			for end < len(data) && data[end] != '\n' {
				end++
			}
			line := data[:end]
			if end < len(data) {
				end++
			}
			data = data[end:]
			if len(line) == 0 {
				continue
			}
			owner := int(line[0]>>4) - 4
			sym.Assert(owner >= 0 && owner < reqs, "foreign-line")
			for k := range line {
				sym.Assert(int(line[k]>>4)-4 == owner, "run-together")
			}
			got[owner] += line + "\n"
		}
	}
	for i, text := range bodies {
		want := ""
		for len(text) > 0 {
			end := 0
			for end < len(text) && text[end] != '\n' {
				end++
			}
			line := text[:end]
			last := end == len(text)
			if !last {
				end++
			}
			text = text[end:]
			if len(line) == 0 || (precise[i] && last && len(line) == 1) {
				continue // a single byte is no line
			}
			want += line + "\n"
		}
		if precise[i] && len(got[i]) == len(want)+2 {
			continue
		}
		sym.Assert(got[i] == want, "every-line-once-in-order")
		sym.Reach("compared")
	}
	l.Stop()
	sym.Assert(env.OpenListeners() == 0, "closed")
}

// ZZ_HTTPSequence: requests with arbitrary bytes, one after the other.
// what=2 checks the content, what=4 the triggers.
func ZZ_HTTPSequence() {
	what := sym.Param("what", 2)
	check := func(p int, ok bool, id string) {
		if p == what {
			sym.Assert(ok, id)
		}
	}
	c := zzConfig()
	margin := zzSettings(c)
	age := c.BatchMaxAge.Duration
	env := venv.New()
	env.NATS.Fail = func(op string, n int, subject string) error {
		if what == 2 && op == "publish" && subject == zzSubject && sym.Choose("publish-fails", sym.Param("fails", 2)) == 1 {
			sym.Reach("failed")
			return errRead
		}
		return nil
	}
	l, err := StartHTTPListener(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()

	slow := &zzGate{gate: make(chan struct{}, 8), left: 3}
	if what == 4 && sym.Choose("slow", 2) == 1 {
		// another client which is slow to send its body
		go func() {
			env.Request(zzAddr, "POST", "/write", &venv.Body{Pieces: [][]byte{{'\n'}, {'\n'}}, Wait: func() { <-slow.gate }})
		}()
		slow.open()
		sym.Settle()
	}

	pending := "" // not published yet
	writes := 0
	var since time.Time
	n := sym.Param("n", 3)
	for i := 0; i < sym.Param("steps", 3); i++ {
		var gap time.Duration
		if sym.Param("any", 0) == 1 {
			gap = time.Duration(sym.Byte("gap")) << 24 // up to 4.3 s
		} else {
			gap = []time.Duration{0, 2600 * time.Millisecond, 350 * time.Millisecond}[sym.Choose("gap", sym.Param("gaps", 3))]
		}
		if gap > 0 {
			time.Sleep(gap)
			sym.Settle()
		}
		now := time.Now()
		sent := zzTried(env)
		check(4, len(pending) == 0 || now.Sub(since) <= age || sent == pending, "held-back")
		if len(pending) > 0 && sent == pending {
			// sent in the meantime: only age can be the reason
			for _, m := range env.NATS.Published() {
				if m.Subject == zzSubject {
					check(4, !m.At.Before(since.Add(age)), "not-before-age")
				}
			}
			sym.Reach("aged")
			pending = ""
			writes = 0
		} else {
			check(2, sent == "", "content")
		}
		env.NATS.Forget()

		body := &venv.Body{Early: true}
		data := sym.Bytes("data", sym.Choose("len", n+1))
		if len(data) > 0 {
			body.Pieces = [][]byte{data}
		} else {
			body.Early = false
		}
		if sym.Param("errors", 2) == 2 && sym.Choose("error", 2) == 1 {
			body.Err = errRead
		}
		due := now.Sub(since) >= age
		r := env.Request(zzAddr, "POST", "/write", body)
		check(2, r != nil && r.Status == 204, "status")
		sym.Settle()
		sep := false // a newline may have been added in between
		if len(data) > 0 {
			if writes == 0 {
				since = now
				due = false
			}
			writes++
			if len(pending) > 0 && pending[len(pending)-1] != '\n' {
				pending += "\n"
			}
			pending += string(data)
		}
		_ = sep
		due = len(pending) > 0 && len(data) > 0 && (due || writes >= c.BatchMaxCount || len(pending) >= margin)
		sent = zzTried(env)
		if due {
			sym.Reach("due")
			check(4, zzSame(sent, pending), "due")
			check(2, zzSame(sent, pending) || sent == "", "content")
			if sent == "" {
				return
			}
			pending = ""
			writes = 0
		} else if sent != "" {
			// the age may be reached at this very moment
			check(4, len(pending) > 0 && now.Sub(since) >= age, "not-due")
			check(2, zzSame(sent, pending), "content")
			pending = ""
			writes = 0
		} else {
			sym.Reach("collecting")
		}
		env.NATS.Forget()
	}
	for _, m := range env.NATS.Published() {
		check(2, m.Subject == zzSubject || m.Subject == zzMonitor, "nothing-else")
	}
	if age < time.Minute {
		time.Sleep(age)
		time.Sleep(1)
		sym.Settle()
		check(4, zzSame(zzTried(env), pending), "sent-at-last")
		check(2, zzSame(zzTried(env), pending), "content-at-last")
	}
	for slow.left > 0 {
		slow.open()
	}
	sym.Settle()
	l.Stop()
	for _, m := range env.NATS.Published() {
		check(4, m.Subject != zzSubject || len(m.Data) > 0, "no-empty-batch")
	}
}

// zzSame compares up to a final newline.
func zzSame(a, b string) bool {
	return a == b || (len(b) > 0 && b[len(b)-1] != '\n' && a == b+"\n")
}
