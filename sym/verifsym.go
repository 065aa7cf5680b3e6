// Package verifsym is the interface between a harness and the checker. The
// symbolic executor replaces these functions; the bodies here replay one
// concrete assignment against the natively compiled code.
package verifsym

import (
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"strconv"
	"sync"
)

// Case is one concrete assignment.
type Case struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Params  map[string]int    `json:"params"`
	Mode    string            `json:"mode"`
}

// Result is what a native run did.
type Result struct {
	Done     bool     `json:"done"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Observed []string `json:"observed"`
	Assumed  bool     `json:"assume_failed"`
	Missing  []string `json:"missing"`
}

var (
	mu     sync.Mutex
	cur    Case
	res    Result
	counts = map[string]int{}

	// OnFail is called after a failed assertion or assumption; it does not return.
	OnFail = func() {}
	// SettleHook waits for quiescence.
	SettleHook = func() {}
)

// SetCase installs the assignment to replay.
func SetCase(c Case) { cur = c }

// GetResult returns the result so far.
func GetResult() *Result { return &res }

func fresh(n string) string {
	k := counts[n]
	counts[n] = k + 1
	if k == 0 {
		return n
	}
	return n + "#" + strconv.Itoa(k)
}

func lookup(n string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n = fresh(n)
	s, ok := cur.Inputs[n]
	if !ok {
		res.Missing = append(res.Missing, n)
		return 0
	}
	if len(s) > 0 && s[0] == '-' {
		i, _ := strconv.ParseInt(s, 10, 64)
		return uint64(i)
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	return u
}

// Bool, Byte, ... return arbitrary values.
func Bool(name string) bool     { return lookup(name) != 0 }
func Byte(name string) byte     { return byte(lookup(name)) }
func Uint16(name string) uint16 { return uint16(lookup(name)) }
func Uint32(name string) uint32 { return uint32(lookup(name)) }
func Uint64(name string) uint64 { return lookup(name) }
func Int64(name string) int64   { return int64(lookup(name)) }
func Int(name string) int       { return int(int64(lookup(name))) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	mu.Lock()
	full := fresh("bytes:" + name)[6:]
	mu.Unlock()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(lookup(full + "[" + strconv.Itoa(i) + "]"))
	}
	return b
}

// String returns an arbitrary string of n bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose returns an arbitrary value in [0, n); the paths are explored separately.
func Choose(name string, n int) int { return int(lookup(name)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		mu.Lock()
		res.Assumed = true
		mu.Unlock()
		OnFail()
	}
}

// Assert states a property.
func Assert(c bool, id string) {
	if !c {
		Fail(id)
	}
}

// Fail is a failed assertion.
func Fail(id string) {
	mu.Lock()
	res.Failed = append(res.Failed, id)
	mu.Unlock()
	OnFail()
}

// Reach marks a point some path must reach.
func Reach(id string) {}

// Observe records values that the native run has to reproduce.
func Observe(tag string, vals ...interface{}) {
	s := tag + "="
	for i, v := range vals {
		if i > 0 {
			s += ","
		}
		switch x := v.(type) {
		case nil:
			s += "nil"
		case bool:
			if x {
				s += "1"
			} else {
				s += "0"
			}
		case []byte:
			s += fmt.Sprintf("%q", x)
		case string:
			s += fmt.Sprintf("%q", x)
		default:
			s += fmt.Sprint(x)
		}
	}
	mu.Lock()
	res.Observed = append(res.Observed, s)
	mu.Unlock()
}

// Param returns a bound set by the tier.
func Param(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	return def
}

// Symbolic reports whether the symbolic executor is running the harness.
func Symbolic() bool { return false }

// And, Or, Not and Implies combine conditions without forking the path.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

// IteByte selects a value without forking the path.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// IteInt selects a value without forking the path.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteInt64 selects a value without forking the path.
func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Sched explores schedules with up to n delays.
func Sched(n int) {}

// Select explores n choices between ready select cases.
func Select(n int) {}

// Rationals makes floating point arithmetic on symbolic decimals exact.
func Rationals() {}

// Near tells whether text is a number next to num/den.
func Near(text []byte, num, den int64) bool {
	f, err := strconv.ParseFloat(string(text), 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return false
	}
	want := float64(num) / float64(den)
	return math.Abs(f-want) <= 1e-9*math.Max(1, math.Abs(want))
}

// Race turns data race detection on.
func Race() {}

// MapOrder explores map iteration orders.
func MapOrder() { lookup("maporder") }

// Steps sets the instruction limit of a path.
func Steps(n int) {}

// Concrete makes a value concrete, one path per value.
func Concrete(v int) int { return v }

// Settle waits until every other goroutine is blocked.
func Settle() { SettleHook() }

// Debug prints symbolic values.
func Debug(v ...interface{}) {}

// Goroutines counts the other goroutines which are still alive.
func Goroutines() int { return GoroutinesHook() }

// GoroutinesHook counts them natively.
var GoroutinesHook = func() int { return 0 }

var stdout *os.File

// CaptureStdout starts to record what is written to standard output.
func CaptureStdout() {
	f, err := ioutil.TempFile("", "verif-stdout")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	stdout = f
	os.Stdout = f
}

// Stdout is what was written to standard output.
func Stdout() string {
	n, err := stdout.Seek(0, 1)
	if err != nil {
		panic(err)
	}
	b := make([]byte, n)
	stdout.ReadAt(b, 0)
	return string(b)
}
