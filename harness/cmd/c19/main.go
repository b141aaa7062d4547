//go:build go1.24

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

var memo ref.Memo

// batch sends n concurrent requests for one epoch; every goroutine compares
// what it got with the specification the moment it gets it.
func batch(r *mon.R, d *dag.DAG, s ref.DagSpec, e uint64, n int, stagger bool, cs map[string]any) {
	want := memo.Get(s, e)
	var wg sync.WaitGroup
	var gate atomic.Int32
	held := make([]any, n)
	end := r.Op("concurrent GetCache")
	defer end()
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			gate.Add(1)
			for gate.Load() < int32(n) {
				runtime.Gosched()
			}
			if stagger && t > 0 { // arrive while the first is still generating
				time.Sleep(time.Duration(t) * 150 * time.Microsecond)
			}
			if m := mon.Try(func() {
				c := d.GetCache(e)
				if !hx.SameWords(c.Cache(), want.Words) || s.L1Words > 0 && !hx.SameWords(c.L1(), want.L1) {
					r.Violate("a request got a cache that is not (completely) generated", cs, fmt.Sprintf("epoch %d", e))
				}
				held[t] = c
				runtime.KeepAlive(c)
			}); m != "" {
				r.Violate("GetCache panicked", cs, m)
			}
		}()
	}
	wg.Wait()
	for _, x := range held[1:] {
		if x != held[0] {
			r.Violate("concurrent requests for one epoch got different caches", cs, fmt.Sprintf("epoch %d", e))
			break
		}
	}
	runtime.KeepAlive(held)
	r.Count("concurrent_requests", int64(n))
}

// plan makes a request sequence and its model: generated(e) says which epochs
// a step must generate in addition to nothing else.
type step struct {
	e    uint64
	gens []uint64
}

func plan(g *mon.Rand, count, steps int) []step {
	var order []uint64
	var out []step
	next := int64(-1) // prepared epoch
	hi := uint64(g.N(6))
	for k := 0; k < steps; k++ {
		var e uint64
		switch g.N(6) {
		case 0, 1:
			e = hi + 1 // the prepared one
		case 2:
			e = hi + 2 + uint64(g.N(3)) // skips ahead
		case 3:
			e = uint64(g.N(int(hi) + 1)) // older, or resident
		case 4:
			if len(order) > 0 {
				e = order[g.N(len(order))]
			} else {
				e = hi
			}
		case 5:
			e = hi
		}
		st := step{e: e}
		pos := -1
		for j, x := range order {
			if x == e {
				pos = j
			}
		}
		if pos >= 0 {
			order = append(append(order[:pos:pos], order[pos+1:]...), e)
		} else {
			if len(order) >= count {
				order = order[1:]
			}
			order = append(order, e)
			if next == int64(e) {
				next = -1
			} else {
				st.gens = append(st.gens, e)
			}
			if next < 0 || next <= int64(e) {
				next = int64(e) + 1
				st.gens = append(st.gens, e+1)
			}
		}
		hi = max(hi, e)
		out = append(out, st)
	}
	return out
}

func main() {
	r := mon.Start("C19", "request sequences with 8 to 24 simultaneous (or staggered, arriving during the generation) requests per step: fresh, prepared, skipped-ahead, older, resident and evicted epochs. Per step the monitors observe what every requester got (identity and whole content at once), how many cache-sized allocations were made (in memory) and which files were published (directory event log, on disk), against a model of one generation per residency and a successor exactly one ahead; distinct by history")
	base := runtime.NumGoroutine()
	// in memory: the number of generations, from the bytes allocated
	for i := 0; i < r.N(8, 80) && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("mem#%d", i))
		s := ref.DagSpec{DatasetInit: 1 << 24, Mix: 128, Parents: 4, Epoch: 100, SeedEpoch: 100, Rounds: 1, CacheInit: uint64(g.In(4096, 8192)) * 128}
		count := g.In(2, 5)
		pl := plan(g, count, r.Q(7, 14))
		mx := uint64(0)
		for _, st := range pl {
			mx = max(mx, st.e+1)
		}
		var wg sync.WaitGroup
		for e := uint64(0); e <= mx; e++ {
			wg.Add(1)
			go func() { memo.Get(s, e); wg.Done() }()
		}
		wg.Wait()
		// what one generation allocates: a lone first request makes two
		hx.Quiesce(base)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		lone := dag.New(hx.Cfg(s, "T", "", count))
		lone.GetCache(0)
		hx.Quiesce(base)
		runtime.ReadMemStats(&b)
		runtime.KeepAlive(lone)
		lone = nil
		unit := max(1, float64(b.TotalAlloc-a.TotalAlloc)/2/float64(s.CacheSize(0))) * float64(s.CacheSize(0))
		r.Max("allocated_per_generation_percent_of_size", int64(100*unit/float64(s.CacheSize(0))))
		d := dag.New(hx.Cfg(s, "T", "", count))
		var hist []uint64
		for k, st := range pl {
			hist = append(hist, st.e)
			cs := map[string]any{"storage": "memory", "caches_count": count, "requests": append([]uint64(nil), hist...)}
			n := g.In(8, 24)
			hx.Quiesce(base)
			runtime.ReadMemStats(&a)
			batch(r, d, s, st.e, n, g.Bool(), cs)
			hx.Quiesce(base)
			runtime.ReadMemStats(&b)
			got := float64(b.TotalAlloc-a.TotalAlloc) / unit
			if got > float64(len(st.gens))+0.8 {
				r.Violate("more caches were generated than the requests need", cs, fmt.Sprintf("step %d allocated %.2f caches' worth of memory, epochs to generate: %v", k, got, st.gens))
			}
			r.Count("generations_expected", int64(len(st.gens)))
			r.Eval(true, "mem", i, k)
		}
		r.Sample("memory", map[string]any{"caches_count": count, "requests": hist})
		memo = ref.Memo{}
	}
	// on disk: which epochs were generated, from the directory's event log
	for i := 0; i < r.N(60, 700) && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("disk#%d", i))
		s := hx.SmallSpec(g, []hx.Algo{hx.Eth, hx.Kaw}[g.N(2)])
		s.Rounds = 3
		s.CacheGrowth = 0
		if g.N(3) == 0 {
			s.CacheInit = 128 * uint64(g.In(1000, 3000))
		}
		count := g.In(2, 5)
		pl := plan(g, count, r.Q(9, 20))
		mx := uint64(0)
		for _, st := range pl {
			mx = max(mx, st.e+1)
		}
		memo = ref.Memo{}
		store := hx.Learn(&memo, s, "T", 7, mx)
		dir := hx.Tmp("once")
		cf := hx.Cfg(s, "T", dir, count)
		cf.Revision = 7
		d := dag.New(cf)
		w, err := hx.NewWatch(dir)
		if err != nil {
			r.Inconclusive("inotify: %v", err)
			break
		}
		var hist []uint64
		for k, st := range pl {
			hist = append(hist, st.e)
			cs := map[string]any{"storage": "disk", "l1": s.L1Words > 0, "caches_count": count, "requests": append([]uint64(nil), hist...)}
			hx.Quiesce(base)
			w.Drain()
			// what exists already is loaded, not generated again
			must := map[string]int{}
			before := map[string]bool{}
			for _, f := range hx.List(dir) {
				before[f] = true
			}
			for _, e := range st.gens {
				for _, l1 := range store.Kinds() {
					if f := store.NameOf(e, l1); !before[f] {
						must[f]++
					}
				}
			}
			batch(r, d, s, st.e, g.In(8, 24), g.Bool(), cs)
			hx.Quiesce(base)
			got := map[string]int{}
			var log []string
			for _, ev := range w.Drain() {
				log = append(log, ev.Op+" "+ev.Name)
				if _, _, final := store.What(ev.Name); final && (ev.Op == "moved_to" || ev.Op == "create") {
					got[ev.Name]++
					r.Count("publications", 1)
				}
			}
			for f, n := range got {
				if n > must[f] {
					l1, e, _ := store.What(f)
					r.Violate("an epoch was generated again, or one nobody needs", cs, fmt.Sprintf("epoch %d l1=%v published %d times, expected %d; events: %s", e, l1, n, must[f], strings.Join(log, ", ")))
				}
			}
			for f, n := range must {
				if got[f] < n {
					_, e, _ := store.What(f)
					r.Violate("a needed epoch (or the successor to prepare) was not generated", cs, fmt.Sprintf("epoch %d; events: %s", e, strings.Join(log, ", ")))
				}
			}
			r.Eval(true, "disk", i, k)
		}
		r.Sample("disk", map[string]any{"l1": s.L1Words > 0, "caches_count": count, "requests": hist})
		w.Close()
		hx.Quiesce(base)
		runtime.KeepAlive(d)
		os.RemoveAll(dir)
	}
	// overlapping epochs, while successors are still being prepared
	for i := 0; i < r.N(60, 700) && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("overlap#%d", i))
		s := hx.SmallSpec(g, []hx.Algo{hx.Eth, hx.Kaw}[g.N(2)])
		s.Rounds = 3
		s.CacheInit = 128 * uint64(g.In(200, 1500))
		memo = ref.Memo{}
		lo, span := uint64(g.N(4)), g.In(2, 5)
		store := hx.Learn(&memo, s, "T", 7, lo+uint64(span))
		dir := hx.Tmp("overlap")
		cf := hx.Cfg(s, "T", dir, 10)
		cf.Revision = 7
		d := dag.New(cf)
		w, err := hx.NewWatch(dir)
		if err != nil {
			r.Inconclusive("inotify: %v", err)
			break
		}
		cs := map[string]any{"overlap": i, "first": lo, "epochs": span, "l1": s.L1Words > 0}
		// phase p asks for epochs lo+p and lo+p+1 at once, so that no prepared
		// epoch is ever skipped (a skipped one may be generated again)
		for ph := 0; ph < span-1; ph++ {
			var wg sync.WaitGroup
			for t := 0; t < 12; t++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					e := lo + uint64(ph) + uint64(t%2)
					want := memo.Get(s, e)
					if m := mon.Try(func() {
						c := d.GetCache(e)
						if !hx.SameWords(c.Cache(), want.Words) || s.L1Words > 0 && !hx.SameWords(c.L1(), want.L1) {
							r.Violate("a request got a cache that is not (completely) generated", cs, fmt.Sprintf("epoch %d", e))
						}
						runtime.KeepAlive(c)
					}); m != "" {
						r.Violate("GetCache panicked", cs, m)
					}
				}()
			}
			end := r.Op("overlapping GetCache")
			wg.Wait()
			end()
		}
		hx.Quiesce(base)
		pub := map[string]int{}
		for _, ev := range w.Drain() {
			if _, _, final := store.What(ev.Name); final && (ev.Op == "moved_to" || ev.Op == "create") {
				pub[ev.Name]++
			}
		}
		for f, n := range pub {
			if n > 1 {
				r.Violate("an epoch was generated more than once", cs, fmt.Sprintf("%s published %d times", f, n))
			}
		}
		r.Count("overlap_publications", int64(len(pub)))
		r.Eval(true, "overlap", i)
		w.Close()
		runtime.KeepAlive(d)
		os.RemoveAll(dir)
	}
	r.Require("publications", 100)
	r.Require("generations_expected", 40)
	r.Require("concurrent_requests", 3000)
	r.Finish()
}
