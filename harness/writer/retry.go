package writer

import (
	"errors"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

type zzWrite struct {
	at   time.Time
	data string
}

type zzDB struct {
	writes   []zzWrite
	outcomes []int
	slow     time.Duration
}

const (
	zzOK = iota
	zzTemporary
	zzPermanent
	zzOther // an error of another kind is temporary
)

func (d *zzDB) Write(b []byte) error {
	d.writes = append(d.writes, zzWrite{time.Now(), string(b)})
	o := sym.Choose("outcome", sym.Param("outcomes", 4))
	d.outcomes = append(d.outcomes, o)
	if d.slow > 0 {
		time.Sleep(d.slow)
	}
	switch o {
	case zzTemporary:
		return newClientError("temporary", false)
	case zzPermanent:
		return newClientError("permanent", true)
	case zzOther:
		return errors.New("other")
	}
	return nil
}

// ZZ_Retry: failed batches arrive at any of a number of times while the
// retries have any outcomes.
func ZZ_Retry() {
	// any is the variant with arbitrary gaps between arrivals; it uses a smaller
	// unit of time, which keeps the formulas small.
	any := sym.Param("any", 0) == 1
	sec := time.Second
	if any {
		sec = 10 * time.Nanosecond
	}
	interval := 10 * sec
	timeouts := []time.Duration{25 * sec, 60 * sec, 9 * sec, 20 * sec}
	timeout := timeouts[sym.Choose("timeout", sym.Param("timeouts", 4))]
	max := 1 + sym.Choose("batches", sym.Param("batches", 3))
	c := &config.Config{
		WriterRetryBatches:  max,
		WriterRetryInterval: config.NewDuration(interval),
		WriterRetryTimeout:  config.NewDuration(timeout),
	}
	db := &zzDB{}
	if sym.Param("slow", 0) == 1 {
		db.slow = 7 * sec
	}
	in := make(chan []byte, 16)
	w := newRetryWorker(in, db, c)

	// what should happen
	type pending struct {
		data    string
		expires time.Time
	}
	var queue []pending
	var tick time.Time // zero while nothing is scheduled
	var busy time.Time // a write goes on until then
	var want []zzWrite
	used := 0
	errs := 0
	var waiting []pending // arrived during a write
	add := func(p pending) {
		if len(queue) >= max {
			oldest := 0
			for i := range queue {
				if queue[i].expires.Before(queue[oldest].expires) {
					oldest = i
				}
			}
			queue = append(queue[:oldest:oldest], queue[oldest+1:]...)
			sym.Reach("displaced")
		}
		queue = append(queue, p)
	}
	// advance works out everything up to now
	advance := func(now time.Time) {
		for {
			if !busy.IsZero() {
				sym.Assume(!now.Equal(busy))
				if now.Before(busy) {
					return
				}
				at := busy
				busy = time.Time{}
				if len(queue) > 0 {
					tick = at.Add(interval)
				}
				for _, p := range waiting {
					p.expires = at.Add(timeout)
					add(p)
					if tick.IsZero() {
						tick = at.Add(interval)
					}
				}
				waiting = nil
			}
			if tick.IsZero() {
				return
			}
			// which comes first when both are at the same time is open
			sym.Assume(!now.Equal(tick))
			if now.Before(tick) {
				return
			}
			at := tick
			tick = time.Time{}
			for len(queue) > 0 && at.After(queue[0].expires) {
				queue = queue[1:]
				sym.Reach("expired")
			}
			if len(queue) == 0 {
				continue
			}
			p := queue[0]
			queue = queue[1:]
			want = append(want, zzWrite{at, p.data})
			sym.Assert(used < len(db.outcomes), "retried-in-time")
			o := db.outcomes[used]
			used++
			switch o {
			case zzTemporary, zzOther:
				queue = append(queue, p)
				errs++
				sym.Reach("again")
			case zzPermanent:
				errs++
			}
			if db.slow > 0 {
				busy = at.Add(db.slow)
			} else if len(queue) > 0 {
				tick = at.Add(interval)
			}
		}
	}

	steps := sym.Param("steps", 6)
	ids := "abcdefghijklmnop"
	n := 0
	for i := 0; i < steps+sym.Param("tail", 6); i++ {
		if any && i < steps {
			gap := sym.Uint16("gap")
			sym.Assume(gap <= 350)
			time.Sleep(time.Duration(gap))
		} else {
			time.Sleep(4*sec + sec/10)
		}
		sym.Settle()
		now := time.Now()
		advance(now)
		if i < steps && (any || sym.Choose("arrives", 2) == 1) {
			data := []byte{ids[n], sym.Byte("data")}
			n++
			p := pending{string(data), now.Add(timeout)}
			in <- data
			sym.Settle()
			if busy.IsZero() {
				add(p)
				if tick.IsZero() {
					tick = now.Add(interval)
				}
			} else {
				waiting = append(waiting, p)
			}
		}
		sym.Assert(len(db.writes) == len(want), "retries")
		for k := range want {
			sym.Assert(db.writes[k].at.Equal(want[k].at), "retry-time")
			sym.Assert(db.writes[k].data == want[k].data, "retry-data")
		}
	}
	time.Sleep(db.slow)
	sym.Settle()
	for i := 0; i < errs; i++ {
		select {
		case err := <-w.WriteErrors():
			sym.Assert(err != nil, "error-reported")
		default:
			sym.Assert(i >= 4*max, "error-reported")
		}
	}
	w.Stop()
	before := len(db.writes)
	time.Sleep(30 * sec)
	sym.Settle()
	sym.Assert(len(db.writes) == before, "nothing-after-stop")
}
