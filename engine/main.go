package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg describes one harness of a property in checks.json.
type HarnessCfg struct {
	Pkg     string             `json:"pkg"`
	Fn      string             `json:"fn"`
	Files   []string           `json:"files"` // harness sources, relative to /verif/harness
	Mode    string             `json:"mode"`  // "", "sync" (synctest), "race"
	Quick   TierCfg            `json:"quick"`
	Deep    TierCfg            `json:"thorough"`
	Reach   []string           `json:"reach"`
	Bounds  string             `json:"bounds"`
	Ignore  []string           `json:"ignore"`
	NoTrace bool               `json:"no_native"`
	Net     bool               `json:"net"` // needs the socket and HTTP stand-ins
	Only    map[string]float64 `json:"-"`
}

type TierCfg struct {
	Params  map[string]int `json:"params"`
	Seconds int            `json:"seconds"`
	Paths   int64          `json:"paths"`
	Steps   int            `json:"steps"`
	Skip    bool           `json:"skip"`
}

type PropCfg struct {
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
}

type harnessReport struct {
	Harness      string           `json:"harness"`
	Bounds       string           `json:"bounds"`
	Params       map[string]int   `json:"params"`
	Paths        int64            `json:"paths"`
	Asserted     int64            `json:"paths_with_assertions"`
	SchedPaths   int64            `json:"paths_with_nondefault_schedule"`
	Transitions  int64            `json:"instructions"`
	Exhaustive   bool             `json:"exhaustive_within_bounds"`
	TimedOut     bool             `json:"stopped_by_time"`
	Unexplored   int              `json:"unexplored_branches"`
	Ends         map[string]int64 `json:"path_ends"`
	Aborts       map[string]int64 `json:"aborted_paths,omitempty"`
	Obligations  int64            `json:"assertions_checked"`
	Folded       int64            `json:"assertions_constant_folded"`
	Solved       int64            `json:"assertions_decided_by_solver"`
	Undecided    int64            `json:"assertions_undecided"`
	UnknownBr    int64            `json:"branches_undecided"`
	Builtin      int64            `json:"verdicts_by_byte_domain_or_interval"`
	Audited      int64            `json:"of_these_rechecked_by_solver"`
	AuditBad     int64            `json:"recheck_disagreements"`
	Reached      map[string]int64 `json:"coverage_marks"`
	MaxDepth     int32            `json:"max_decisions"`
	Seconds      float64          `json:"seconds"`
	NativeOK     int              `json:"native_runs_agreeing"`
	NativeBad    []string         `json:"native_disagreements,omitempty"`
	MissingMarks []string         `json:"missing_marks,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("property", "", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("only", "", "run only this harness")
	evDir := flag.String("evidence", "", "")
	workers := flag.Int("workers", runtime.NumCPU(), "")
	noNative := flag.Bool("nonative", false, "")
	verbose := flag.Bool("v", false, "")
	list := flag.String("dump", "", "dump the SSA of this function")
	paramOv := flag.String("params", "", "k=v,... overrides")
	secs := flag.Int("seconds", 0, "")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, err := os.Create(f)
		check(err)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}

	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	var cfg map[string]PropCfg
	raw, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	check(err)
	if err := json.Unmarshal(raw, &cfg); err != nil {
		fatal("checks.json: %v", err)
	}
	pc, ok := cfg[*prop]
	if !ok {
		fatal("unknown property %q", *prop)
	}
	if *evDir == "" {
		*evDir = filepath.Join(*verif, "evidence")
	}
	os.MkdirAll(*evDir, 0o755)

	tmp, err := os.MkdirTemp("", "gosym")
	check(err)
	defer os.RemoveAll(tmp)

	var hs []HarnessCfg
	for _, h := range pc.Harnesses {
		if *only != "" && h.Fn != *only && h.Pkg+"."+h.Fn != *only {
			continue
		}
		hs = append(hs, h)
	}
	ws, err := prepare(*repo, *verif, tmp, hs)
	check(err)

	// the native test binary is built while the engine works
	type built struct {
		bin map[string]string
		err error
	}
	nativeCh := make(chan built, 1)
	if !*noNative {
		go func() {
			b, err := ws.buildNative(hs)
			nativeCh <- built{b, err}
		}()
	}

	prog, err := ws.load(hs)
	if err != nil {
		os.RemoveAll(tmp)
		fatal("cannot load the code: %v", err)
	}
	loadTime := time.Since(start)
	if *list != "" {
		for f, fn := range prog.fns {
			_ = fn
			_ = f
		}
		dumpFn(prog, *list)
		return
	}

	var reports []harnessReport
	type found struct {
		v  *Violation
		h  HarnessCfg
		tc TierCfg
	}
	var finds []found
	type sampleSet struct {
		h    HarnessCfg
		tc   TierCfg
		runs []sampleRun
		rep  int
	}
	var sets []sampleSet
	var totalStates, totalSteps int64
	exhaustive := true
	broken := ""
	for _, h := range hs {
		tc := h.Quick
		if *tier == "thorough" {
			tc = mergeTier(h.Quick, h.Deep)
		}
		if tc.Skip {
			continue
		}
		for _, kv := range strings.Split(*paramOv, ",") {
			if p := strings.SplitN(kv, "=", 2); len(p) == 2 {
				if tc.Params == nil {
					tc.Params = map[string]int{}
				}
				tc.Params[p[0]], _ = strconv.Atoi(p[1])
			}
		}
		if tc.Seconds == 0 {
			tc.Seconds = 60
		}
		if *secs > 0 {
			tc.Seconds = *secs
		}
		// the whole check has to end well within 900 s
		if left := 760 - int(time.Since(start).Seconds()); tc.Seconds > left {
			tc.Seconds = max(left, 5)
		}
		if tc.Steps == 0 {
			tc.Steps = 3000000
		}
		fn := prog.harness(h)
		if fn == nil {
			os.RemoveAll(tmp)
			fatal("no harness %s in %s", h.Fn, h.Pkg)
		}
		o := Options{workers: *workers, maxPaths: tc.Paths, deadline: time.Now().Add(time.Duration(tc.Seconds) * time.Second),
			steps: tc.Steps, solverMs: 10000, hardTimeout: 20 * time.Second, maxViol: 40, seed: seed, samples: 5, audits: 1500}
		ex := newExplorer(prog, h.Fn, tc.Params, o)
		ex.explore(prog.fn(fn))
		r := harnessReport{Harness: h.Pkg + "." + h.Fn, Bounds: h.Bounds, Params: tc.Params, Paths: ex.paths, Asserted: ex.assertedPaths, SchedPaths: ex.schedPaths,
			Transitions: ex.steps, Exhaustive: ex.complete(), TimedOut: ex.timedOut, Unexplored: ex.pendingLeft, Ends: ex.endReasons, Aborts: ex.aborts,
			Obligations: ex.obligations.Load(), Folded: ex.folded.Load(), Solved: ex.solved.Load(), Undecided: ex.undecided.Load(),
			UnknownBr: ex.unknownBranches.Load(), Builtin: ex.builtin.Load(), Audited: ex.audited.Load(), AuditBad: ex.auditBad.Load(), Reached: ex.reached, MaxDepth: ex.maxDepth, Seconds: ex.elapsed.Seconds()}
		for _, want := range h.Reach {
			if ex.reached[want] == 0 {
				r.MissingMarks = append(r.MissingMarks, want)
			}
		}
		if !r.Exhaustive {
			exhaustive = false
		}
		totalStates += ex.paths
		totalSteps += ex.steps
		fmt.Printf("%-34s paths=%d asserts=%d (solver %d, undecided %d) exhaustive=%v aborted=%v %.1fs\n", r.Harness, r.Paths, r.Obligations, r.Solved, r.Undecided, r.Exhaustive, ex.endReasons["abort"], r.Seconds)
		if *verbose || ex.endReasons["done"] == 0 {
			for _, k := range sortedKeys(ex.aborts) {
				fmt.Printf("    abort %d x %s\n", ex.aborts[k], k)
				for _, t := range ex.firstAbortTrace[k] {
					fmt.Printf("        %s\n", t)
				}
			}
			fmt.Printf("    ends %v marks %v missing %v left %d\n", ex.endReasons, ex.reached, r.MissingMarks, ex.pendingLeft)
		}
		for _, v := range ex.violations {
			finds = append(finds, found{v, h, tc})
		}
		if ex.assertedPaths == 0 && len(ex.violations) == 0 {
			broken = fmt.Sprintf("harness %s checked no assertion", h.Fn)
		}
		if r.AuditBad > 0 {
			broken = fmt.Sprintf("harness %s: the solver disagrees with built-in verdicts", h.Fn)
		}
		sets = append(sets, sampleSet{h, tc, ex.samples, len(reports)})
		reports = append(reports, r)
	}

	// native replay of counterexamples and cross-validation of passing paths
	var nb built
	if !*noNative {
		nb = <-nativeCh
		if nb.err != nil {
			fmt.Println("native build failed:", nb.err)
		}
	}
	validated := 0
	var jobs []*nativeJob
	if nb.bin != nil {
		for si := range sets {
			s := sets[si]
			if s.h.NoTrace {
				continue
			}
			for _, run := range s.runs {
				if run.Sched {
					continue
				}
				run := run
				jobs = append(jobs, &nativeJob{h: s.h, params: s.tc.Params, inputs: run.Inputs, sample: &run, rep: s.rep})
			}
		}
		ws.runJobs(nb.bin, jobs, *workers)
		for _, j := range jobs {
			r := &reports[j.rep]
			if why := j.compare(); why != "" {
				r.NativeBad = append(r.NativeBad, why)
				fmt.Printf("    native run differs (%s): %s\n", r.Harness, why)
			} else {
				r.NativeOK++
				validated++
			}
		}
	}

	known, err := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	check(err)
	violations := 0
	unconfirmed := 0
	replayDir := filepath.Join(*evDir, "replay")
	os.MkdirAll(replayDir, 0o755)
	if old, _ := filepath.Glob(filepath.Join(replayDir, *prop+"-*.json")); old != nil {
		for _, f := range old {
			os.Remove(f)
		}
	}
	var samples []any
	printed := map[string]bool{}
	var vjobs []*nativeJob
	for _, f := range finds {
		j := &nativeJob{h: f.h, params: f.tc.Params, inputs: f.v.Inputs, viol: f.v}
		vjobs = append(vjobs, j)
	}
	if nb.bin != nil {
		ws.runJobs(nb.bin, vjobs, *workers)
	}
	reported := map[string]int{}
	for i, f := range finds {
		j := vjobs[i]
		confirmed, why := false, "native replay unavailable"
		if nb.bin != nil {
			confirmed, why = j.confirms()
			if !confirmed && (f.v.Sched || f.v.ID == "race") && !suspectCrash(f.v) {
				// a schedule found by the engine need not come up by itself
				why = "schedule-dependent: " + why
				confirmed = true
			}
		} else {
			confirmed = true
		}
		if !confirmed {
			unconfirmed++
			fmt.Printf("    not reproduced natively: %s %s %s (%s) inputs %v\n", f.h.Fn, f.v.ID, f.v.Detail, why, f.v.Inputs)
			reports[0].NativeBad = append(reports[0].NativeBad, fmt.Sprintf("counterexample %s %s not reproduced: %s", f.v.ID, f.v.Detail, why))
			continue
		}
		if k := known.match(*prop, f.h.Fn, f.v); k != "" {
			if !printed[k] {
				printed[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			}
			continue
		}
		key := f.h.Fn + "/" + f.v.ID
		reported[key]++
		if reported[key] > 2 {
			continue
		}
		violations++
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", *prop, violations))
		out := map[string]any{"property": *prop, "harness": f.h.Pkg + "." + f.h.Fn, "assertion": f.v.ID, "detail": f.v.Detail,
			"inputs": f.v.Inputs, "params": f.tc.Params, "trace": f.v.Trace, "schedule_dependent": f.v.Sched, "native": why, "text": renderInputs(f.v.Inputs)}
		b, _ := json.MarshalIndent(out, "", "  ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("    %s: assertion %q %s\n    inputs: %s\n    native: %s\n", f.h.Fn, f.v.ID, f.v.Detail, renderInputs(f.v.Inputs), why)
		for _, t := range f.v.Trace {
			fmt.Printf("      at %s\n", t)
		}
	}
	for _, s := range sets {
		for i, r := range s.runs {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.h.Fn, "inputs": renderInputs(r.Inputs), "observed": r.Observed})
			}
		}
	}
	type fnHit struct {
		n string
		h int64
	}
	var fns []fnHit
	for _, fn := range prog.fns {
		if fn.inRepo && fn.hits.Load() > 0 && !strings.Contains(fn.name, "ZZ_") {
			pos := fn.ssa.Prog.Fset.Position(fn.ssa.Pos())
			if strings.Contains(pos.Filename, "zz_verif") || pos.Filename == "" {
				continue
			}
			fns = append(fns, fnHit{fn.name, fn.hits.Load()})
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].n < fns[j].n })
	var fnNames []string
	for _, f := range fns {
		fnNames = append(fnNames, strings.ReplaceAll(f.n, "github.com/jumptrading/influx-spout/v2/", ""))
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": pc.Assumptions,
		"coverage": map[string]any{
			"states": totalStates, "transitions": totalSteps, "traces_validated_against_impl": validated,
			"samples":    samples,
			"exhaustive": exhaustive,
			"explanation": "states = symbolic execution paths, each covering every input that takes it; transitions = SSA instructions executed symbolically; " +
				"traces = solver models of passing paths re-run in the natively compiled code with the same observations",
			"functions_encoded":         fnNames,
			"harnesses":                 reports,
			"solver":                    map[string]any{"binary": solverBin, "queries": solverStats.queries.Load(), "sat": solverStats.sat.Load(), "unsat": solverStats.unsat.Load(), "unknown": solverStats.unknown.Load(), "seconds": float64(solverStats.nanos.Load()) / 1e9},
			"load_seconds":              loadTime.Seconds(),
			"unconfirmed_by_native":     unconfirmed,
			"known_findings_reproduced": sortedKeys(printed),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	check(os.WriteFile(filepath.Join(*evDir, *prop+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s %s: %d paths, %d solver queries (%.1fs), %d native traces agree, %d violations, %.1fs\n", *prop, *tier, totalStates, solverStats.queries.Load(),
		float64(solverStats.nanos.Load())/1e9, validated, violations, time.Since(start).Seconds())
	os.RemoveAll(tmp)
	if violations > 0 {
		os.Exit(1)
	}
	if broken != "" {
		fmt.Println("BROKEN:", broken)
		os.Exit(3)
	}
}

func mergeTier(q, d TierCfg) TierCfg {
	r := q
	r.Params = map[string]int{}
	for k, v := range q.Params {
		r.Params[k] = v
	}
	for k, v := range d.Params {
		r.Params[k] = v
	}
	if d.Seconds > 0 {
		r.Seconds = d.Seconds
	}
	if d.Paths > 0 {
		r.Paths = d.Paths
	}
	if d.Steps > 0 {
		r.Steps = d.Steps
	}
	r.Skip = d.Skip
	return r
}

func check(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

// renderInputs shows byte arrays as strings.
func renderInputs(in map[string]string) string {
	groups := map[string]map[int]byte{}
	var rest []string
	for k, v := range in {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			idx, err := strconv.Atoi(k[i+1 : len(k)-1])
			if err == nil {
				g := groups[k[:i]]
				if g == nil {
					g = map[int]byte{}
					groups[k[:i]] = g
				}
				n, _ := strconv.Atoi(v)
				g[idx] = byte(n)
				continue
			}
		}
		rest = append(rest, k+"="+v)
	}
	for k, g := range groups {
		bs := make([]byte, len(g))
		for i := range bs {
			bs[i] = g[i]
		}
		rest = append(rest, fmt.Sprintf("%s=%q", k, bs))
	}
	sort.Strings(rest)
	return strings.Join(rest, " ")
}

// ---- known findings -------------------------------------------------------

type knownFindings struct {
	list []knownEntry
}

type knownEntry struct {
	prop, harness, assertion, detail, text string
}

// loadKnown reads lines "known: property=P harness=H assertion=A [detail=S] | text".
func loadKnown(path string) (*knownFindings, error) {
	k := &knownFindings{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return k, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known:"), "|", 2)
		if len(parts) != 2 {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		e := knownEntry{text: strings.TrimSpace(parts[1])}
		for _, kv := range strings.Fields(parts[0]) {
			p := strings.SplitN(kv, "=", 2)
			if len(p) != 2 {
				return nil, fmt.Errorf("bad known-findings line %q", l)
			}
			switch p[0] {
			case "property":
				e.prop = p[1]
			case "harness":
				e.harness = p[1]
			case "assertion":
				e.assertion = p[1]
			case "detail":
				e.detail = p[1]
			}
		}
		k.list = append(k.list, e)
	}
	return k, nil
}

func (k *knownFindings) match(prop, harness string, v *Violation) string {
	for _, e := range k.list {
		if e.prop == prop && e.harness == harness && e.assertion == v.ID && (e.detail == "" || strings.Contains(strings.ReplaceAll(v.Detail, " ", "_"), e.detail)) {
			return e.text
		}
	}
	return ""
}

func dumpFn(p *Program, name string) {
	for _, pkg := range p.prog.AllPackages() {
		for _, mem := range pkg.Members {
			if f, ok := mem.(*ssa.Function); ok && f.String() == name {
				f.WriteTo(os.Stdout)
			}
		}
	}
}

// suspectCrash says that a panic, which does not come up in the real program,
// was raised in a part of the standard library that depends on what the engine
// does not represent (reflection, the runtime, the operating system).
func suspectCrash(v *Violation) bool {
	if v.ID != "crash" || len(v.Trace) == 0 {
		return false
	}
	top := strings.TrimLeft(v.Trace[0], "(*")
	for _, p := range []string{"internal/", "reflect.", "runtime", "syscall.", "os.", "os/", "net.", "net/", "crypto", "encoding", "errors.",
		"log.", "log/", "fmt.", "context.", "math/rand", "mime", "compress", "io/fs.", "text/", "unique.", "vendor/", "html", "hash", "go/"} {
		if strings.HasPrefix(top, p) {
			return true
		}
	}
	return false
}
