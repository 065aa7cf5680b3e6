package cmdmain

import (
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
	"github.com/jumptrading/influx-spout/v2/writer"
)

// ZZ_SideBySide: several filters of one subject and several writers, some of
// them in queue groups, work side by side. NATS gives each message to any one
// member of a group. One of the components may be stopped in between.
func ZZ_SideBySide() {
	env := venv.New()
	env.NATS.Route = true
	env.NATS.Pick = func(group string, n int) int { return sym.Choose("member", n) }
	got := map[string]string{}
	env.Answer = func(r *http.Request, body []byte) (int, string, error) {
		got[r.URL.Query().Get("db")] += string(body)
		return 204, "", nil
	}
	var parts []stoppable
	// The database of a writer says which lines it should get: all of its
	// subjects, shared with the other members of its group.
	ruled := sym.Choose("rules", sym.Param("rules", 2)) == 1
	for i := 0; i < sym.Param("members", 2); i++ {
		c := zzBase("g"+strconv.Itoa(i), "s1", "s2")
		c.QueueGroup = "group"
		c.DBName = "group" + strconv.Itoa(i)
		if ruled {
			c.Rule = []config.Rule{{Rtype: "regex", Match: "^m"}}
		}
		w, err := writer.StartWriter(c)
		parts = append(parts, zzStarted(w, err))
	}
	other := zzBase("o", "s2", "junk")
	other.QueueGroup = "other"
	other.DBName = "other"
	w, err := writer.StartWriter(other)
	parts = append(parts, zzStarted(w, err))
	for i := 0; i < sym.Param("alone", 2); i++ {
		c := zzBase("a"+strconv.Itoa(i), "s1")
		c.DBName = "alone" + strconv.Itoa(i)
		w, err := writer.StartWriter(c)
		parts = append(parts, zzStarted(w, err))
	}
	nfilters := sym.Param("filters", 2)
	for i := 0; i < nfilters; i++ {
		c := zzBase("f"+strconv.Itoa(i), "lines")
		c.Rule = []config.Rule{{Rtype: "basic", Match: "ma", Subject: "s1"}, {Rtype: "basic", Match: "mb", Subject: "s2"}}
		f, err := filter.StartFilter(c)
		parts = append(parts, zzStarted(f, err))
	}

	subjects := []string{}
	stop := -1
	messages := sym.Param("messages", 2)
	if k := sym.Choose("stop", 3); k > 0 && messages > 1 {
		stop = 0 // a member of the group
		if k == 2 {
			stop = len(parts) - nfilters // a filter
		}
	}
	for i := 0; i < messages; i++ {
		if i == 1 && stop >= 0 {
			parts[stop].Stop()
			parts = append(parts[:stop:stop], parts[stop+1:]...)
			sym.Settle()
		}
		b := sym.Byte("b")
		sym.Assume(sym.And(b >= 'a', b <= 'z'))
		msg := []byte("m")
		msg = append(msg, b)
		msg = append(msg, " x="+strconv.Itoa(i)+"i\n"...)
		s := "junk"
		if b == 'a' {
			s = "s1"
		} else if b == 'b' {
			s = "s2"
		}
		subjects = append(subjects, s)
		env.NATS.Deliver("lines", msg)
		sym.Settle()
	}
	time.Sleep(3 * time.Second)
	sym.Settle()
	count := func(prefix string, i int) int {
		n := 0
		for db, text := range got {
			if strings.HasPrefix(db, prefix) {
				n += strings.Count(text, " x="+strconv.Itoa(i)+"i\n")
			}
		}
		return n
	}
	for i, s := range subjects {
		// s1: shared by the group, and once for each of the writers alone
		want := map[string]int{"group": 0, "other": 0, "alone0": 0, "alone1": 0}
		switch s {
		case "s1":
			want["group"], want["alone0"] = 1, 1
			if sym.Param("alone", 2) == 2 {
				want["alone1"] = 1
			}
		case "s2":
			want["group"], want["other"] = 1, 1
		default:
			want["other"] = 1
		}
		for _, db := range []string{"group", "other", "alone0", "alone1"} {
			sym.Assert(count(db, i) == want[db], "exactly-once")
		}
		sym.Reach(s)
	}
	total := 0
	for _, text := range got {
		total += strings.Count(text, "\n")
	}
	n := 0
	for _, s := range subjects {
		n += map[string]int{"s1": 1 + sym.Param("alone", 2), "s2": 2, "junk": 1}[s]
	}
	sym.Assert(total == n, "nothing-else")
	for _, p := range parts {
		p.Stop()
	}
	sym.Settle()
	sym.Assert(env.NATS.Open() == 0, "connections-closed")
}
