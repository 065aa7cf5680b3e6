package cmdmain

import (
	"os"
	"strings"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
	"github.com/jumptrading/influx-spout/v2/verifsym/venv"
)

// ZZ_Tap: everything on the subject is printed, or the lines that match.
func ZZ_Tap() {
	env := venv.New()
	os.Args = []string{"influx-spout-tap", "-h", "nats://somewhere", "-s", "lines"}
	match := func(line string) bool { return true }
	switch sym.Choose("expression", 4) {
	case 1:
		os.Args = append(os.Args, "-e", "^a")
		match = func(line string) bool { return strings.HasPrefix(line, "a") }
	case 2:
		os.Args = append(os.Args, "-e", "b")
		match = func(line string) bool { return strings.Contains(line, "b") }
	case 3:
		os.Args = append(os.Args, "-e", "b\n$")
		match = func(line string) bool { return strings.HasSuffix(line, "b\n") }
	}
	sym.CaptureStdout()
	go main()
	sym.Settle()
	conns := env.NATS.Conns()
	sym.Assert(len(conns) == 1 && conns[0].Opts.Url == "nats://somewhere", "server")
	want := ""
	for i := 1 + sym.Choose("messages", sym.Param("messages", 2)); i > 0; i-- {
		data := append(sym.Bytes("data", sym.Choose("len", sym.Param("n", 3)+1)), []string{"", "\n", "\nab%d\n"}[sym.Choose("tail", sym.Param("tails", 3))]...)
		sym.Assert(env.NATS.Deliver("lines", data) == 1, "subscribed")
		sym.Assert(env.NATS.Deliver("other", []byte("b\n")) == 0, "subject")
		sym.Settle()
		text := string(data)
		for len(text) > 0 {
			n := strings.IndexByte(text, '\n') + 1
			if n == 0 {
				n = len(text)
			}
			if match(text[:n]) {
				want += text[:n]
				sym.Reach("printed")
			} else {
				sym.Reach("skipped")
			}
			text = text[n:]
		}
	}
	sym.Assert(sym.Stdout() == want, "printed-as-received")
}
