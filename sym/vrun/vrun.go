// Package vrun replays one case natively.
package vrun

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

type stop struct{}

// RunCase runs the harness named by the case file and writes the result.
func RunCase(t *testing.T, table map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_CASE"))
	if err != nil {
		t.Fatal(err)
	}
	var c sym.Case
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	log.SetOutput(ioutil.Discard)
	f := table[c.Harness]
	if f == nil {
		t.Fatal("no harness " + c.Harness)
	}
	sym.SetCase(c)
	sym.OnFail = func() {
		write()
		os.Exit(0)
	}
	run := func() {
		defer func() {
			if r := recover(); r != nil {
				sym.GetResult().Panic = fmt.Sprint(r)
				write()
				os.Exit(0)
			}
		}()
		f()
		sym.GetResult().Done = true
		write()
	}
	if c.Mode == "sync" {
		synctest.Test(t, func(t *testing.T) {
			sym.SettleHook = synctest.Wait
			sym.GoroutinesHook = func() int {
				buf := make([]byte, 1<<20)
				all := strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n")
				n := 0
				for i, g := range all {
					first := strings.SplitN(g, "\n", 2)[0]
					if i > 0 && strings.Contains(first, "synctest bubble") && !strings.Contains(g, "testing/synctest.testingSynctestTest") && !strings.Contains(g, "internal/synctest.Run") {
						n++
					}
				}
				return n
			}
			run()
			os.Exit(0)
		})
		return
	}
	run()
}

func write() {
	b, _ := json.Marshal(sym.GetResult())
	ioutil.WriteFile(os.Getenv("VERIF_RESULT"), b, 0644)
}
