//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// touch requests an epoch and compares the whole cache while holding it.
//
//go:noinline
func touch(r *mon.R, d *dag.DAG, m *ref.Memo, s ref.DagSpec, e uint64, cs any) {
	w := m.Get(s, e)
	r.Call("GetCache", cs, func() {
		c := d.GetCache(e)
		if !hx.SameWords(c.Cache(), w.Words) || s.L1Words > 0 && !hx.SameWords(c.L1(), w.L1) {
			r.Violate("an epoch's cache has wrong contents", cs, fmt.Sprintf("epoch %d", e))
		}
		runtime.KeepAlive(c)
	})
}

func main() {
	r := mon.Start("C24", "walks over tens of epochs with CachesCount 1..4 on disk, also over unusable dumps and with failing mmap or mlock (stand-in): descriptors and mappings of the directory are counted in /proc/self after collection, while the client lives and after it is dropped; goroutines that the code started are counted after 12 and after 60 epoch changes and after hundreds of hashes; caches and lookup functions held across eviction, collection and pruning are read back whole; hashes with very many parents run while another goroutine evicts their epoch and the collector runs all the time (a page fault ends the run). Distinct by history")
	base := runtime.NumGoroutine()
	hx.Prime()
	for i := 0; i < r.N(8, 60) && r.Violations() == 0; i++ {
		workers(r, i, base)
	}
	if r.Violations() > 0 { // waiting for quiescence would take very long below
		r.Finish()
	}
	kinds := []string{"plain", "mapro:all", "hostile", "map:all", "lock:all", "map:%3", "lock", "maprw:all", "mapro:%2", "maprw:%2", "plain", "lock:%2"}
	for i := 0; i < r.N(70, 900) && r.Violations() < 4; i++ {
		g := r.Rand(fmt.Sprintf("walk#%d", i))
		kind := kinds[i%len(kinds)]
		a := []hx.Algo{hx.Eth, hx.Kaw}[g.N(2)]
		s := hx.SmallSpec(g, a)
		s.Rounds = 0
		dir := hx.Tmp("walk")
		count := g.In(1, 4)
		var m ref.Memo
		const max = 40
		st := hx.NewStore(&m, s, "T", 7, max)
		cf := hx.Cfg(s, "T", dir, count)
		cf.Revision = 7
		fault := ""
		switch kind {
		case "plain", "hostile":
		default:
			fault = kind
			cf.CachesLockMmap = strings.HasPrefix(kind, "lock")
			if g.Bool() { // over sound dumps of most epochs
				for q := uint64(0); q < max; q++ {
					for _, l1 := range st.Kinds() {
						if g.N(4) > 0 {
							hx.Put(dir, st.NameOf(q, l1), st.File(q, l1))
						}
					}
				}
			}
		case "lock":
			cf.CachesLockMmap = true
		}
		os.Setenv("ZZ_MMAP_FAULTS", fault)
		d := dag.New(cf)
		per := len(st.Kinds())
		var hist []uint64
		e, steps := uint64(0), g.In(8, r.Q(24, 60))
		for k := 0; k < steps; k++ {
			switch g.N(4) {
			case 0, 1:
				e = min(e+1, max-2)
			case 2:
				e = uint64(g.N(int(e) + 3))
			}
			hist = append(hist, e)
			cs := map[string]any{"kind": kind, "algo": hx.AlgoName[a], "caches_count": count, "epochs": append([]uint64(nil), hist...)}
			if kind == "hostile" {
				for _, l1 := range st.Kinds() {
					for q := e; q < e+2; q++ {
						b := st.File(q, l1)
						b[g.N(len(st.Header))]++ // wrong magic, right size: mapped, then rejected
						hx.Swap(dir, st.NameOf(q, l1), b)
					}
				}
			}
			touch(r, d, &m, s, e, cs)
			if k%4 == 3 || k == steps-1 {
				hx.Quiesce(base)
				bound := per * (count + 1)
				if fault == "map:all" { // no mapping ever succeeded
					bound = 0
				}
				var f, mm int
				if !hx.Until(80, func() bool { f, mm = hx.FDs(dir), hx.Maps(dir); return f <= bound && mm <= bound }) {
					r.Violate("evicted or rejected caches are not released", cs, fmt.Sprintf("%d descriptors and %d mappings under the directory after collection, at most %d may be in use", f, mm, bound))
				}
				r.Count("resource_audits", 1)
				r.Max("max_mappings_after_collection", int64(mm))
				r.Max("max_descriptors_after_collection", int64(f))
			}
		}
		runtime.KeepAlive(d)
		d = nil
		var f, mm int
		if !hx.Until(80, func() bool { f, mm = hx.FDs(dir), hx.Maps(dir); return f == 0 && mm == 0 }) {
			r.Violate("caches of a dropped client are not released", map[string]any{"kind": kind, "algo": hx.AlgoName[a], "caches_count": count, "epochs": hist}, fmt.Sprintf("%d descriptors and %d mappings left", f, mm))
		}
		os.Setenv("ZZ_MMAP_FAULTS", "")
		r.Eval(true, "walk", i)
		r.Count("walk_"+kind, 1)
		r.Sample(kind, map[string]any{"caches_count": count, "epochs": hist})
		os.RemoveAll(dir)
	}
	// held caches and lookup functions
	for i := 0; i < r.N(30, 400) && r.Violations() < 4; i++ {
		g := r.Rand(fmt.Sprintf("held#%d", i))
		a := []hx.Algo{hx.Eth, hx.Kaw}[g.N(2)]
		s := hx.SmallSpec(g, a)
		dir := hx.Tmp("held")
		count := g.In(1, 3)
		var m ref.Memo
		d := dag.New(hx.Cfg(s, "T", dir, count))
		if g.Bool() { // loaded rather than freshly generated
			touch(r, d, &m, s, 2, "warm up")
			hx.Quiesce(base)
			d = dag.New(hx.Cfg(s, "T", dir, count))
		}
		cs := map[string]any{"held": i, "algo": hx.AlgoName[a], "caches_count": count}
		if !r.Call("use of a held cache", cs, func() {
			c := d.GetCache(2)
			f := lookupOnly(d, 2)
			for e := uint64(3); e < 12; e++ {
				touch(r, d, &m, s, e, cs)
				runtime.GC()
			}
			hx.Quiesce(base)
			hx.GC()
			w := m.Get(s, 2)
			if !hx.SameWords(c.Cache(), w.Words) || s.L1Words > 0 && !hx.SameWords(c.L1(), w.L1) {
				r.Violate("a held cache changed after its epoch was evicted", cs, "")
			}
			runtime.KeepAlive(c)
			c = nil
			for k := 0; k < 8; k++ {
				runtime.GC()
				idx := g.U32()
				if !hx.SameWords(f(idx), w.Items(idx, 1)) {
					r.Violate("a held lookup function returns wrong items after its epoch was evicted", cs, fmt.Sprint(idx))
				}
			}
			r.Count("held_reads", 10)
		}) {
			break
		}
		r.Eval(true, "held", i)
		d = nil
		hx.Until(50, func() bool { return hx.Maps(dir) == 0 })
		os.RemoveAll(dir)
	}
	// computing while the epoch is evicted and the collector runs
	for i := 0; i < r.N(10, 120) && r.Violations() < 4; i++ {
		evicting(r, i, base)
	}
	r.Require("resource_audits", 150)
	r.Require("goroutine_audits", 12)
	r.Require("held_reads", 100)
	r.Require("computed_across_eviction", 12)
	r.Finish()
}

// workers bounds what one client leaves running in the background: whatever
// helpers it keeps, there are no more of them after sixty epoch changes than
// after twelve, and no more after hundreds of hashes than after a few.
func workers(r *mon.R, i, base int) {
	g := r.Rand(fmt.Sprintf("workers#%d", i))
	a := hx.Algo(i % 4)
	s := hx.SmallSpec(g, a)
	s.Rounds = 0
	s.CacheGrowth = 0
	dir, count := "", g.In(1, 4)
	if i/4%2 == 0 {
		dir = hx.Tmp("workers")
		defer os.RemoveAll(dir)
	}
	os.Setenv("ZZ_MMAP_FAULTS", []string{"", "lock:%2", "", "map:%3"}[g.N(4)])
	defer os.Setenv("ZZ_MMAP_FAULTS", "")
	in := hx.New(a, s, hx.Cfg(s, "T", dir, count))
	d := in.DAG()
	cs := map[string]any{"workers": i, "algo": hx.AlgoName[a], "caches_count": count, "on_disk": dir != ""}
	e := uint64(0)
	walk := func(n int) int {
		for k := 0; k < n; k++ {
			switch g.N(4) { // on, further on, back or again
			case 0, 1:
				e++
			case 2:
				e += uint64(g.In(2, 4))
			default:
				e -= min(e, uint64(g.N(4)))
			}
			if !r.Call("GetCache and Compute", cs, func() {
				d.GetCache(e)
				q := hx.Reqs(g, s, e)[0]
				in.Compute(q.Hash, q.Height, q.Nonce)
			}) {
				break
			}
		}
		hx.Quiesce(base)
		return hx.RepoGoroutines()
	}
	few := walk(12)
	many := walk(r.Q(48, 150))
	if many > few+6 {
		r.Violate("background goroutines pile up from epoch to epoch", cs, fmt.Sprintf("%d after 12 epochs, %d after the later ones, with nothing left to do", few, many))
	}
	hashed := 0
	for k := 0; k < r.Q(300, 1500); k++ {
		q := hx.Reqs(g, s, e)[0]
		if !r.Call("Compute", cs, func() { in.Compute(q.Hash, q.Height, q.Nonce) }) {
			break
		}
		hashed++
	}
	hx.Quiesce(base)
	if after := hx.RepoGoroutines(); after > many+6 {
		r.Violate("background goroutines pile up from hash to hash", cs, fmt.Sprintf("%d before, %d after %d hashes, with nothing left to do", many, after, hashed))
	}
	runtime.KeepAlive(in)
	r.Count("goroutine_audits", 2)
	r.Max("max_background_goroutines_idle", int64(many))
	r.Eval(true, "workers", i)
}

//go:noinline
func lookupOnly(d *dag.DAG, e uint64) dag.LookupFunc { return d.NewLookupFunc512(d.GetCache(e), e) }

func evicting(r *mon.R, i, base int) {
	g := r.Rand(fmt.Sprintf("evict#%d", i))
	a := hx.Algo(i % 4)
	s := hx.SmallSpec(g, a)
	s.Rounds = 0
	s.CacheGrowth = 0
	// very long last item: the time in which only the computation refers to
	// the cache
	s.Parents = uint32(r.Q(60000, 150000))
	dir := hx.Tmp("evict")
	defer os.RemoveAll(dir)
	var m ref.Memo
	in := hx.New(a, s, hx.Cfg(s, "T", dir, 1))
	cs := map[string]any{"evicting": i, "algo": hx.AlgoName[a], "parents": s.Parents}
	light := s
	light.Parents = 4
	var stop atomic.Bool
	var bg, wg sync.WaitGroup
	bg.Add(2)
	go func() {
		defer bg.Done()
		for !stop.Load() {
			runtime.GC()
		}
	}()
	go func() { // evicts
		defer bg.Done()
		d := in.DAG()
		for e := uint64(20); !stop.Load(); e++ {
			end := mon.Watch("GetCache")
			d.GetCache(20 + e%4)
			end()
			r.Count("evicting_requests", 1)
			for k := 0; k < 5; k++ {
				runtime.GC()
			}
		}
	}()
	for t := 0; t < 2; t++ {
		q := hx.Reqs(g, s, uint64(t))[0]
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mix, dg []byte
			var err error
			if !r.Call("Compute during eviction", cs, func() { mix, dg, err = in.Compute(q.Hash, q.Height, q.Nonce) }) {
				return
			}
			wm, wd := in.Expect(&m, q.Hash, q.Height, q.Nonce, &ref.ProgStats{}, &ref.OctStats{})
			if err != nil || !bytes.Equal(mix, wm) || !bytes.Equal(dg, wd) {
				r.Violate("Compute returned a wrong result while its epoch was evicted", cs, fmt.Sprintf("got %x %x %v want %x %x", mix, dg, err, wm, wd))
			}
			r.Count("computed_across_eviction", 1)
		}()
	}
	wg.Wait()
	stop.Store(true)
	bg.Wait()
	r.Eval(true, "evict", i)
	hx.QuiesceRepo()
}
