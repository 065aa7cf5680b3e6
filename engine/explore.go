package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Options bound the exploration of one harness.
type Options struct {
	workers     int
	maxPaths    int64
	deadline    time.Time
	steps       int
	solverMs    int
	hardTimeout time.Duration
	maxViol     int
	seed        int64
	audits      int64
	samples     int
}

type sampleRun struct {
	Inputs   map[string]string `json:"inputs"`
	Observed []string          `json:"observed"`
	Asserts  int               `json:"asserts"`
	Sched    bool              `json:"schedule_dependent"`
}

// Explorer explores all paths of one harness.
type Explorer struct {
	prog    *Program
	harness string
	opts    Options
	params  map[string]int

	mu      sync.Mutex
	cond    *sync.Cond
	queues  [][]*pending
	active  int
	stopped bool

	unknownBranches            atomic.Int64
	builtin, audited, auditBad atomic.Int64 // verdicts without the solver
	obligations                atomic.Int64
	folded                     atomic.Int64
	solved                     atomic.Int64
	undecided                  atomic.Int64

	paths, steps, forks         int64
	endReasons                  map[string]int64
	aborts                      map[string]int64
	reached                     map[string]int64
	violations                  []*Violation
	violKeys                    map[string]int
	samples                     []sampleRun
	sampleSeen                  int64
	rng                         *rand.Rand
	pendingLeft                 int
	maxDepth                    int32
	assertsOnPaths              int64
	firstAbortTrace             map[string][]string
	assertedPaths, schedPaths   int64
	elapsed                     time.Duration
	timedOut, pathLimited, done bool
}

func newExplorer(prog *Program, harness string, params map[string]int, o Options) *Explorer {
	ex := &Explorer{prog: prog, harness: harness, opts: o, params: params}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queues = make([][]*pending, o.workers)
	ex.endReasons = map[string]int64{}
	ex.aborts = map[string]int64{}
	ex.reached = map[string]int64{}
	ex.violKeys = map[string]int{}
	ex.firstAbortTrace = map[string][]string{}
	ex.rng = rand.New(rand.NewSource(o.seed))
	return ex
}

func (ex *Explorer) push(wid int, p *pending) {
	ex.mu.Lock()
	ex.queues[wid] = append(ex.queues[wid], p)
	ex.mu.Unlock()
	ex.cond.Signal()
}

// next pops work for worker wid; nil when everything is explored.
func (ex *Explorer) next(wid int) *pending {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return nil
		}
		if time.Now().After(ex.opts.deadline) {
			ex.timedOut = true
			ex.stopped = true
			ex.cond.Broadcast()
			return nil
		}
		if ex.opts.maxPaths > 0 && ex.paths >= ex.opts.maxPaths {
			ex.pathLimited = true
			ex.stopped = true
			ex.cond.Broadcast()
			return nil
		}
		q := ex.queues[wid]
		if n := len(q); n > 0 {
			p := q[n-1]
			ex.queues[wid] = q[:n-1]
			ex.active++
			return p
		}
		best := -1
		for i := range ex.queues {
			if len(ex.queues[i]) > 0 && (best < 0 || len(ex.queues[i]) > len(ex.queues[best])) {
				best = i
			}
		}
		if best >= 0 {
			p := ex.queues[best][0]
			ex.queues[best] = ex.queues[best][1:]
			ex.active++
			return p
		}
		if ex.active == 0 {
			ex.stopped = true
			ex.done = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) addViolation(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := v.ID
	if v.ID == "crash" || v.ID == "race" || v.ID == "deadlock" {
		key += v.Detail
	}
	ex.violKeys[key]++
	if ex.violKeys[key] <= 3 && len(ex.violations) < ex.opts.maxViol {
		ex.violations = append(ex.violations, v)
	}
}

// explore runs the harness to completion or to a limit.
func (ex *Explorer) explore(entry *Fn) {
	start := time.Now()
	ex.queues[0] = []*pending{{}}
	var wg sync.WaitGroup
	for i := 0; i < ex.opts.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i, entry)
		}(i)
	}
	// wake the waiters up at the deadline
	t := time.AfterFunc(time.Until(ex.opts.deadline)+50*time.Millisecond, func() {
		ex.mu.Lock()
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	wg.Wait()
	t.Stop()
	for _, q := range ex.queues {
		ex.pendingLeft += len(q)
	}
	ex.elapsed = time.Since(start)
}

func (ex *Explorer) worker(id int, entry *Fn) {
	var m *M
	for {
		p := ex.next(id)
		if p == nil {
			break
		}
		if m == nil {
			m = &M{prog: ex.prog, ex: ex, wid: id}
			m.ctx = newCtx()
			m.solver = newSolver(m.ctx, ex.opts.solverMs)
			m.globals = make([]Value, len(ex.prog.globals))
			m.pkgInit = map[ssaPkg]int{}
		}
		ex.runPath(m, p, entry)
		ex.mu.Lock()
		ex.active--
		if ex.active == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
	}
	if m != nil {
		m.solver.close()
	}
}

func (ex *Explorer) runPath(m *M, p *pending, entry *Fn) {
	m.resetPath()
	m.prefix = materialise(p.node)
	m.node = p.node
	m.stepLimit = ex.opts.steps
	// translate the model when the work comes from another worker
	if p.owner == m.ctx {
		m.setModel(p.model)
	} else {
		var mod Model
		for i, v := range p.model {
			if i >= len(p.names) {
				break
			}
			e := m.ctx.varByKey(p.names[i])
			for len(mod) <= e.varIdx {
				mod = append(mod, 0)
			}
			mod[e.varIdx] = v
		}
		m.setModel(mod)
	}
	reason, detail := "", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					reason = x.why
				case abortErr:
					reason, detail = "abort", x.why
				default:
					reason, detail = "abort", fmt.Sprintf("engine: %v", r)
					if os.Getenv("GOSYM_TRACE") != "" {
						fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
					}
				}
			}
		}()
		m.run(entry)
	}()
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.paths++
	ex.steps += int64(m.steps)
	ex.forks += int64(m.nForks)
	m.nForks = 0
	ex.endReasons[reason]++
	if reason == "abort" {
		if i := strings.Index(detail, "0x"); i > 0 {
			detail = detail[:i]
		}
		if ex.aborts[detail] == 0 {
			ex.firstAbortTrace[detail] = m.stackTrace()
		}
		ex.aborts[detail]++
	}
	if m.nodeDepth() > ex.maxDepth {
		ex.maxDepth = m.nodeDepth()
	}
	for k := range m.reached {
		ex.reached[k]++
	}
	if m.asserted > 0 {
		ex.assertedPaths++
	}
	if m.schedUsed {
		ex.schedPaths++
	}
	ex.assertsOnPaths += int64(m.asserted)
	if reason == "done" && len(m.failed) == 0 && (m.asserted > 0 || len(m.observes) > 0) {
		k := -1
		if !m.schedUsed {
			ex.sampleSeen++
		}
		if m.schedUsed {
			// the schedule cannot be repeated natively: only a stopgap sample
			if len(ex.samples) == 0 && ex.opts.samples > 0 {
				ex.samples = append(ex.samples, sampleRun{})
				k = 0
			}
		} else if len(ex.samples) > 0 && ex.samples[0].Sched {
			k = 0
		} else if len(ex.samples) < ex.opts.samples {
			ex.samples = append(ex.samples, sampleRun{})
			k = len(ex.samples) - 1
		} else if ex.opts.samples > 0 {
			if j := ex.rng.Int63n(ex.sampleSeen); j < int64(ex.opts.samples) {
				k = int(j)
			}
		}
		if k >= 0 {
			s := sampleRun{Inputs: m.inputMap(), Asserts: m.asserted, Sched: m.schedUsed}
			for _, o := range m.observes {
				var vs []string
				for _, v := range o.vals {
					if iv, ok := v.(Iface); ok {
						if iv.t == nil {
							vs = append(vs, "nil")
							continue
						}
						if isSigned(iv.t) {
							switch x := iv.v.(type) {
							case Int:
								vs = append(vs, fmt.Sprint(sext(uint64(x), widthOf(iv.t))))
								continue
							case *Expr:
								vs = append(vs, fmt.Sprint(sext(m.evalNow(x), widthOf(iv.t))))
								continue
							}
						}
						v = iv.v
					}
					vs = append(vs, m.concreteVal(v))
				}
				s.Observed = append(s.Observed, o.tag+"="+strings.Join(vs, ","))
			}
			ex.samples[k] = s
		}
	}
}

// complete reports whether every path within the bounds was covered.
func (ex *Explorer) complete() bool {
	return ex.done && len(ex.aborts) == 0 && ex.unknownBranches.Load() == 0 && ex.undecided.Load() == 0 && ex.endReasons["steplimit"] == 0 && ex.endReasons["deadline"] == 0
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
