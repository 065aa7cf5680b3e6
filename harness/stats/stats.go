package stats

import (
	"sync"

	sym "github.com/jumptrading/influx-spout/v2/verifsym"
)

// ZZ_Counters: two goroutines update the same counters in every interleaving
// while the main goroutine reads.
func ZZ_Counters() {
	sym.Sched(sym.Param("delays", 3))
	sym.Race()
	s := New("a", "b")
	init := sym.Uint64("init")
	s.Max("a", init)
	m1 := sym.Uint64("m1")
	m2 := sym.Uint64("m2")
	incs := sym.Choose("incs", 2) == 1 // mix increments into the maximum counter
	var wg sync.WaitGroup
	work := func(m uint64) {
		s.Max("a", m)
		s.Inc("b")
		if incs {
			s.Inc("a")
		}
		wg.Done()
	}
	if incs {
		// no wrap-around
		sym.Assume(sym.And(init < 1<<62, sym.And(m1 < 1<<62, m2 < 1<<62)))
	}
	wg.Add(2)
	go work(m1)
	go work(m2)
	a1 := s.Get("a")
	snap := s.Snapshot()
	a2 := s.Get("a")
	sym.Assert(a1 <= a2, "never-down")
	sym.Assert(a1 >= init, "at-least-initial")
	sym.Assert(len(snap) == 2, "snapshot-complete")
	seen := map[string]uint64{}
	for _, p := range snap {
		_, dup := seen[p.Name]
		sym.Assert(!dup, "snapshot-once")
		seen[p.Name] = p.Value
	}
	sym.Assert(sym.And(a1 <= seen["a"], seen["a"] <= a2), "snapshot-real-value")
	sym.Assert(seen["b"] <= 2, "snapshot-count")
	wg.Wait()
	max := init
	if m1 > max {
		max = m1
	}
	if m2 > max {
		max = m2
	}
	sym.Assert(s.Get("b") == 2, "every-increment-once")
	if !incs {
		sym.Assert(s.Get("a") == max, "largest-value")
		sym.Reach("max")
	} else {
		// increments before a larger maximum are absorbed by it
		sym.Assert(sym.And(s.Get("a") >= max, s.Get("a") <= max+2), "maximum-and-increments")
		sym.Reach("mixed")
	}
	sym.Assert(a2 <= s.Get("a"), "never-down-2")
}

// ZZ_Anon: two goroutines, indexed counters.
func ZZ_Anon() {
	sym.Sched(sym.Param("delays", 3))
	sym.Race()
	s := NewAnon(3)
	i, j := sym.Choose("i", 3), sym.Choose("j", 3)
	m := sym.Uint64("m")
	sym.Assume(m < 1<<62) // increments do not wrap around
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		s.Inc(i)
		s.Inc(j)
		wg.Done()
	}()
	go func() {
		s.Inc(j)
		s.Max(1, m)
		wg.Done()
	}()
	mid := s.Snapshot()
	wg.Wait()
	want := []uint64{0, 0, 0}
	want[i]++
	want[j] += 2
	snap := s.Snapshot()
	sym.Assert(len(snap) == 3, "size")
	for x := range want {
		sym.Assert(mid[x] <= snap[x], "never-down")
		sym.Assert(snap[x] == s.Get(x), "snapshot")
		if x != 1 {
			sym.Assert(snap[x] == want[x], "every-increment-once")
		} else if m > 4 {
			sym.Assert(sym.And(snap[x] >= m, snap[x] <= m+want[1]), "maximum-and-increments")
		} else if m == 0 {
			sym.Assert(snap[x] == want[x], "maximum-of-zero-changes-nothing")
		}
	}
	sym.Reach("done")
}
