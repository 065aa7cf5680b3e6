package writer

import (
	"encoding/base64"
	"net/http"
	"strconv"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Outcome: one batch, any status InfluxDB may answer with, failures to send
// and servers which never answer.
func ZZ_Outcome() {
	c := zzConfig()
	c.BatchMaxCount = 1
	c.WriterRetryBatches = 1
	c.WriterRetryInterval = config.NewDuration(10 * time.Second)
	c.WriterRetryTimeout = config.NewDuration(time.Hour)
	c.Debug = sym.Choose("debug", 2) == 1
	env := venv.New()
	posts := 0
	good := true
	permanent := false
	what := 0
	data := sym.Bytes("data", sym.Choose("len", sym.Param("n", 3))+1)
	orig := string(data)
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		posts++
		sym.Assert(r.Method == "POST", "post")
		sym.Assert(string(body) == orig, "body")
		if posts > 1 {
			return 204, "", nil
		}
		what = sym.Choose("what", 5)
		switch what {
		case 0:
			status := int(sym.Uint16("status"))
			// the others below 200 never reach the client
			sym.Assume(sym.Or(status == 101, sym.And(status >= 200, status <= 999)))
			good = sym.And(status >= 200, status < 300)
			permanent = sym.And(status >= 400, status < 500)
			return status, "reply", nil
		case 1: // a redirection somewhere else
			codes := []int{301, 302, 303, 307, 308}
			env.Location = []string{"http://elsewhere/write", "/ping", "%zz"}[sym.Choose("location", 3)]
			good = false
			return codes[sym.Choose("code", len(codes))], "", nil
		case 2:
			good = false
			return 0, "", errSend
		case 3: // no answer
			good = false
			<-r.Context().Done()
			sym.Reach("timeout")
			return 0, "", r.Context().Err()
		}
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	env.NATS.Deliver(zzSubject, data)
	sym.Settle()
	if what == 3 {
		time.Sleep(c.WriteTimeout.Duration)
		sym.Settle()
	}
	before := posts
	time.Sleep(12 * time.Second)
	sym.Settle()
	retried := posts > before
	time.Sleep(30 * time.Second)
	sym.Settle()
	if what == 1 {
		// InfluxDB never answered with a 2xx status to a request which carried
		// the batch: it has to be sent again.
		sym.Assert(posts > 1, "redirected-is-not-written")
		sym.Assert(env.OpenReplies() == 0, "answers-released")
		return
	}
	sym.Assert(before == 1, "one-post")
	sym.Assert(env.OpenReplies() == 0, "answers-released")
	if good {
		sym.Assert(!retried, "success-not-retried")
		sym.Reach("success")
	} else if permanent {
		sym.Assert(!retried, "permanent-not-retried")
		sym.Reach("permanent")
	} else {
		sym.Assert(retried, "temporary-is-retried")
		sym.Reach("temporary")
		sym.Assert(posts == 2, "retried-once")
	}
	w.Stop()
}

// ZZ_Destination: the request goes where the settings say.
func ZZ_Destination() {
	c := zzConfig()
	c.BatchMaxCount = 1
	c.InfluxDBProtocol = []string{"http", "https"}[sym.Choose("protocol", 2)]
	c.InfluxDBAddress = []string{"localhost", "10.0.0.1", "[::1]", "no host"}[sym.Choose("address", 4)]
	ports := []int{1, 8086, 65535}
	c.InfluxDBPort = ports[sym.Choose("port", len(ports))]
	c.DBName = "d" + string(sym.Bytes("db", sym.Choose("dblen", sym.Param("n", 1)+1)))
	if sym.Choose("auth", 2) == 1 {
		c.InfluxDBUser = "u" + string(sym.Bytes("user", sym.Choose("userlen", sym.Param("n", 1)+1)))
		c.InfluxDBPass = string(sym.Bytes("pass", sym.Choose("passlen", sym.Param("n", 1)+1)))
	}
	env := venv.New()
	posts := 0
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		posts++
		sym.Assert(r.Method == "POST", "post")
		sym.Assert(r.URL.Scheme == c.InfluxDBProtocol, "protocol")
		sym.Assert(r.URL.Host == c.InfluxDBAddress+":"+strconv.Itoa(c.InfluxDBPort), "address")
		sym.Assert(r.URL.Path == "/write", "path")
		q := r.URL.Query()
		sym.Assert(len(q) == 1 && len(q["db"]) == 1 && q["db"][0] == c.DBName, "database")
		auth := r.Header["Authorization"]
		if c.InfluxDBUser == "" {
			sym.Assert(len(auth) == 0, "no-credentials")
		} else {
			sym.Reach("credentials")
			want := "Basic " + base64.StdEncoding.EncodeToString([]byte(c.InfluxDBUser+":"+c.InfluxDBPass))
			sym.Assert(len(auth) == 1 && auth[0] == want, "credentials")
		}
		return 204, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	env.NATS.Deliver(zzSubject, []byte("x y=1\n"))
	sym.Settle()
	if c.InfluxDBAddress == "no host" {
		// no request can be made, which must not bring the writer down
		sym.Assert(posts == 0, "not-sent")
		env.NATS.Deliver(zzSubject, []byte("x y=1\n"))
		sym.Settle()
		sym.Reach("no-request")
	} else {
		sym.Assert(posts == 1, "sent")
	}
	w.Stop()
}

// ZZ_RetryBytes: messages arrive while earlier writes fail and are retried;
// every request carries the bytes of its batch.
func ZZ_RetryBytes() {
	c := zzConfig()
	c.BatchMaxCount = 1 + sym.Choose("count", 2)
	c.BatchMaxAge = config.NewDuration(time.Hour)
	c.WriterRetryBatches = 2
	c.WriterRetryInterval = config.NewDuration(10 * time.Second)
	c.WriterRetryTimeout = config.NewDuration(time.Hour)
	env := venv.New()
	const (
		fresh = iota
		waiting
		over
	)
	state := map[byte]int{} // by the first byte of the first message of the batch
	bodies := map[byte]string{}
	queue := 0
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		sym.Assert(len(body) > 0, "not-empty")
		id := body[0]
		switch state[id] {
		case fresh:
			bodies[id] = string(body)
		case waiting:
			sym.Assert(bodies[id] == string(body), "same-bytes")
			sym.Reach("retried")
		case over:
			sym.Fail("sent-again")
		}
		switch sym.Choose("outcome", 3) {
		case 0:
			if state[id] == waiting {
				queue--
			}
			state[id] = over
			return 204, "", nil
		case 1:
			if state[id] == waiting {
				queue--
			}
			state[id] = over
			return 404, "", nil
		}
		if state[id] == fresh {
			queue++
		}
		state[id] = waiting
		return 503, "", nil
	}
	w, err := StartWriter(c)
	sym.Assert(err == nil, "starts")
	sym.Settle()
	expect := map[byte]string{}
	cur := ""
	n := sym.Param("messages", 3)
	for i := 0; i < n; i++ {
		if sym.Choose("gap", 2) == 1 {
			time.Sleep(11 * time.Second)
			sym.Settle()
		}
		if queue >= 2 {
			return // displaced batches are another property
		}
		data := "0 1\n"
		data = string([]byte{"abcdefgh"[i]}) + string(sym.Bytes("data", 2)) + "\n"
		cur += data
		if (i+1)%c.BatchMaxCount == 0 {
			expect[cur[0]] = cur
			cur = ""
		}
		env.NATS.Deliver(zzSubject, []byte(data))
		sym.Settle()
	}
	time.Sleep(25 * time.Second)
	sym.Settle()
	for i := 0; i < n; i++ {
		id := "abcdefgh"[i]
		sym.Assert(bodies[id] == expect[id], "batch")
	}
	w.Stop()
}
