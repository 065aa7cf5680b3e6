package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var packageMain = regexp.MustCompile(`(?m)^package main\b`)

// workspace is the overlay view of the repository used for one check.
type workspace struct {
	repo, verif, tmp string
	overlay          map[string]string // path in the build -> file on disk
	overlayFile      string
	modfile          string
	mod              string
}

// prepare builds the overlay: harnesses and the verifsym packages on top of the
// repository, patched network entry points on top of GOROOT.
func prepare(repo, verif, tmp string, hs []HarnessCfg) (*workspace, error) {
	ws := &workspace{repo: repo, verif: verif, tmp: tmp, overlay: map[string]string{}}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	ws.mod = strings.Fields(strings.SplitN(string(gomod), "\n", 2)[0])[1]
	symPkg = ws.mod + "/verifsym"
	// plain Go support packages
	err = filepath.Walk(filepath.Join(verif, "sym"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(filepath.Join(verif, "sym"), p)
		ws.overlay[filepath.Join(repo, "verifsym", rel)] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, h := range hs {
		for _, f := range h.Files {
			src := filepath.Join(verif, "harness", f)
			dst := filepath.Join(repo, filepath.Dir(f), "zz_verif_"+filepath.Base(f))
			ws.overlay[dst] = src
		}
	}
	// A command is made importable under another package name.
	for _, p := range pkgsOf(hs) {
		if !strings.HasPrefix(p, "cmd/") {
			continue
		}
		srcs, _ := filepath.Glob(filepath.Join(repo, p, "*.go"))
		for i, f := range srcs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			c := filepath.Join(tmp, fmt.Sprintf("%s_%d.go", strings.ReplaceAll(p, "/", "_"), i))
			if err := os.WriteFile(c, packageMain.ReplaceAll(b, []byte("package cmdmain")), 0o644); err != nil {
				return nil, err
			}
			ws.overlay[f] = c
		}
	}
	for _, h := range hs {
		if h.Net {
			if err := ws.patchGoroot(); err != nil {
				return nil, err
			}
			break
		}
	}
	ws.overlayFile = filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": ws.overlay})
	if err := os.WriteFile(ws.overlayFile, b, 0o644); err != nil {
		return nil, err
	}
	// module file with the stubs
	ws.modfile = filepath.Join(tmp, "go.mod")
	var mod bytes.Buffer
	mod.Write(gomod)
	stubs, _ := filepath.Glob(filepath.Join(verif, "stub", "*", "MODULE"))
	for _, s := range stubs {
		name, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		fmt.Fprintf(&mod, "\nreplace %s => %s\n", strings.TrimSpace(string(name)), filepath.Dir(s))
	}
	if err := os.WriteFile(ws.modfile, mod.Bytes(), 0o644); err != nil {
		return nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
	}
	return ws, nil
}

// patchGoroot applies the textual patches listed in goroot/patches.json.
func (ws *workspace) patchGoroot() error {
	raw, err := os.ReadFile(filepath.Join(ws.verif, "goroot", "patches.json"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	var ps []struct {
		File string      `json:"file"`
		Subs [][2]string `json:"subs"`
		Add  string      `json:"add"`
	}
	if err := json.Unmarshal(raw, &ps); err != nil {
		return err
	}
	root := runtime.GOROOT()
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		root = strings.TrimSpace(string(out))
	}
	for i, p := range ps {
		target := filepath.Join(root, "src", p.File)
		if p.Add != "" {
			ws.overlay[target] = filepath.Join(ws.verif, "goroot", p.Add)
			continue
		}
		b, err := os.ReadFile(target)
		if err != nil {
			return err
		}
		s := string(b)
		for _, sub := range p.Subs {
			if !strings.Contains(s, sub[0]) {
				return fmt.Errorf("goroot patch: %q not found in %s", sub[0], p.File)
			}
			s = strings.Replace(s, sub[0], sub[1], 1)
		}
		f := filepath.Join(ws.tmp, fmt.Sprintf("goroot%d.go", i))
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			return err
		}
		ws.overlay[target] = f
	}
	return nil
}

func pkgsOf(hs []HarnessCfg) []string {
	seen := map[string]bool{}
	var out []string
	for _, h := range hs {
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			out = append(out, h.Pkg)
		}
	}
	sort.Strings(out)
	return out
}

func (ws *workspace) load(hs []HarnessCfg) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range ws.overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	pats := []string{symPkg + "/vrt", symPkg + "/vfmt", symPkg}
	for _, p := range pkgsOf(hs) {
		pats = append(pats, ws.mod+"/"+p)
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        ws.repo,
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + ws.modfile},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	prog := newProgram(sp, ws.mod)
	prog.registerGlobals()
	if p := sp.ImportedPackage(symPkg + "/vrt"); p != nil {
		prog.runtErr = canon(p.Type("RuntimeError").Type())
	}
	return prog, nil
}

func (p *Program) harness(h HarnessCfg) *ssa.Function {
	pkg := p.prog.ImportedPackage(p.repoMod + "/" + h.Pkg)
	if pkg == nil {
		return nil
	}
	return pkg.Func(h.Fn)
}

// ---- native side ----------------------------------------------------------

func (ws *workspace) goCmd(args ...string) *exec.Cmd {
	cmd := exec.Command("go", args...)
	cmd.Dir = ws.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	return cmd
}

// buildNative compiles the harnesses natively, with the race detector where a
// harness asks for it.
func (ws *workspace) buildNative(hs []HarnessCfg) (map[string]string, error) {
	var sb strings.Builder
	sb.WriteString("package verifreplay\n\nimport (\n\t\"testing\"\n\tverifsym \"" + symPkg + "/vrun\"\n")
	for i, p := range pkgsOf(hs) {
		fmt.Fprintf(&sb, "\tp%d \"%s/%s\"\n", i, ws.mod, p)
	}
	sb.WriteString(")\n\nvar table = map[string]func(){\n")
	listed := map[string]bool{}
	for i, p := range pkgsOf(hs) {
		for _, h := range hs {
			if h.Pkg == p && !listed[h.Pkg+"."+h.Fn] {
				listed[h.Pkg+"."+h.Fn] = true
				fmt.Fprintf(&sb, "\t%q: p%d.%s,\n", h.Pkg+"."+h.Fn, i, h.Fn)
			}
		}
	}
	sb.WriteString("}\n\nfunc TestReplay(t *testing.T) { verifsym.RunCase(t, table) }\n")
	f := filepath.Join(ws.tmp, "replay_test.go")
	if err := os.WriteFile(f, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	ov := map[string]string{}
	for k, v := range ws.overlay {
		ov[k] = v
	}
	ov[filepath.Join(ws.repo, "verifreplay", "replay_test.go")] = f
	of := filepath.Join(ws.tmp, "overlay_native.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return nil, err
	}
	modes := map[string]bool{}
	for _, h := range hs {
		if h.Mode == "race" {
			modes["race"] = true
		} else {
			modes["plain"] = true
		}
	}
	out := map[string]string{}
	for mode := range modes {
		bin := filepath.Join(ws.tmp, "replay_"+mode)
		args := []string{"test", "-vet=off", "-c", "-overlay", of, "-modfile", ws.modfile, "-o", bin}
		if mode == "race" {
			args = append(args, "-race")
		}
		args = append(args, "./verifreplay")
		cmd := ws.goCmd(args...)
		if mode == "race" {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		if o, err := cmd.CombinedOutput(); err != nil {
			if len(o) > 3000 {
				o = o[:3000]
			}
			return out, fmt.Errorf("%v: %s", err, o)
		}
		out[mode] = bin
	}
	return out, nil
}

type nativeResult struct {
	Done     bool     `json:"done"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Observed []string `json:"observed"`
	Assumed  bool     `json:"assume_failed"`
	Missing  []string `json:"missing"`
}

type nativeJob struct {
	h      HarnessCfg
	params map[string]int
	inputs map[string]string
	sample *sampleRun
	viol   *Violation
	rep    int

	res    nativeResult
	output string
	hung   bool
	err    error
}

func (ws *workspace) runJobs(bins map[string]string, jobs []*nativeJob, par int) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				ws.runJob(bins, jobs[i], i)
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (ws *workspace) runJob(bins map[string]string, j *nativeJob, i int) {
	mode := "plain"
	if j.h.Mode == "race" {
		mode = "race"
	}
	bin := bins[mode]
	if bin == "" {
		j.err = fmt.Errorf("no native binary")
		return
	}
	dir, err := os.MkdirTemp(ws.tmp, "case")
	if err != nil {
		j.err = err
		return
	}
	cf := filepath.Join(dir, "case.json")
	rf := filepath.Join(dir, "result.json")
	attempts := 1
	if j.viol != nil && (j.viol.Sched || j.viol.ID == "race") {
		attempts = 40
	}
	caseMode := j.h.Mode
	if caseMode == "race" && j.h.Net {
		caseMode = "sync" // component harnesses need the fake clock
	}
	b, _ := json.Marshal(map[string]any{"harness": j.h.Pkg + "." + j.h.Fn, "inputs": j.inputs, "params": j.params, "mode": caseMode})
	os.WriteFile(cf, b, 0o644)
	limit := time.Now().Add(25 * time.Second)
	for a := 0; a < attempts; a++ {
		os.Remove(rf)
		argv := []string{bin, "-test.run", "TestReplay", "-test.timeout", "15s"}
		if mode == "plain" {
			// a run that never ends must not use up the machine's memory
			argv = append([]string{"/bin/sh", "-c", `ulimit -v 6000000; exec "$@"`, "sh"}, argv...)
		}
		cmd := exec.Command(argv[0], argv[1:]...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_CASE="+cf, "VERIF_RESULT="+rf, "GORACE=halt_on_error=1")
		out, err := cmd.CombinedOutput()
		j.output = string(out)
		j.res = nativeResult{}
		if rb, e := os.ReadFile(rf); e == nil {
			json.Unmarshal(rb, &j.res)
		}
		j.hung = strings.Contains(j.output, "test timed out") || strings.Contains(j.output, "all goroutines are asleep") || strings.Contains(j.output, "deadlock:")
		_ = err
		if attempts > 1 {
			if ok, _ := j.confirms(); ok || time.Now().After(limit) {
				break
			}
		}
	}
}

// confirms reports whether the native run shows the violation.
func (j *nativeJob) confirms() (bool, string) {
	if j.err != nil {
		return false, j.err.Error()
	}
	switch j.viol.ID {
	case "crash":
		if strings.Contains(j.output, "panic:") || strings.Contains(j.output, "fatal error:") || j.res.Panic != "" || (!j.res.Done && !j.hung) {
			return true, "native run crashes: " + firstLine(j.output, j.res.Panic)
		}
	case "deadlock", "hang":
		if !j.res.Done && j.hung {
			return true, "native run does not terminate"
		}
	case "no-termination":
		if !j.res.Done && (strings.Contains(j.output, "test timed out") || strings.Contains(j.output, "out of memory")) {
			return true, "native run does not terminate"
		}
		return false, "native run ends"
	case "race":
		if strings.Contains(j.output, "DATA RACE") {
			return true, "race detector reports the race"
		}
	default:
		for _, f := range j.res.Failed {
			if f == j.viol.ID {
				return true, "native run fails the same assertion"
			}
		}
		if len(j.res.Failed) > 0 {
			return true, fmt.Sprintf("native run fails assertion %q", j.res.Failed[0])
		}
		if j.res.Panic != "" {
			return true, "native run panics: " + j.res.Panic
		}
		if !j.res.Done && strings.Contains(j.output, "test timed out") {
			// Where the engine goes on and finds what did not happen, the
			// native run waits for everything to settle, which does not
			// include goroutines which wait for a mutex.
			for _, l := range strings.Split(j.output, "\n") {
				if strings.HasPrefix(l, "goroutine ") && strings.Contains(l, "synctest bubble") &&
					(strings.Contains(l, "sync.Mutex.Lock") || strings.Contains(l, "sync.RWMutex.")) {
					return true, "native run waits for a lock which is not released"
				}
			}
		}
	}
	return false, fmt.Sprintf("native run: done=%v failed=%v panic=%q %s", j.res.Done, j.res.Failed, j.res.Panic, firstLine(j.output, ""))
}

func firstLine(out, pan string) string {
	if pan != "" {
		return pan
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") || strings.Contains(l, "deadlock") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

// compare checks a passing path against the native run.
func (j *nativeJob) compare() string {
	if j.err != nil {
		return j.err.Error()
	}
	in := renderInputs(j.inputs)
	if len(j.res.Failed) > 0 {
		return fmt.Sprintf("assertion %v fails natively on %s", j.res.Failed, in)
	}
	if !j.res.Done {
		o := j.output
		if len(o) > 600 {
			o = o[:600]
		}
		return fmt.Sprintf("native run did not finish on %s: panic=%q %s", in, j.res.Panic, o)
	}
	if j.res.Assumed {
		return "assumption fails natively on " + in
	}
	a, b := strings.Join(j.sample.Observed, ";"), strings.Join(j.res.Observed, ";")
	if a != b {
		return fmt.Sprintf("observed %s, natively %s, on %s", a, b, in)
	}
	return ""
}

var _ types.Type
