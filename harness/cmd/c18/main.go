//go:build go1.24

package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

// wk is a weak reference to a cache handed out by a DAG, whatever its type.
type wk interface {
	alive() bool
	same(wk) bool
}
type wkOf[T any] struct{ p weak.Pointer[T] }

func (w wkOf[T]) alive() bool { return w.p.Value() != nil }
func (w wkOf[T]) same(o wk) bool {
	x, ok := o.(wkOf[T])
	return ok && x.p == w.p
}
func mk[T any](p *T) wk { return wkOf[T]{weak.Make(p)} }

//go:noinline
func get(d *dag.DAG, e uint64) wk { return mk(d.GetCache(e)) }

// tick waits for the clock to advance, so that "least recently" is defined.
func tick() {
	for t := time.Now(); !time.Now().After(t); {
	}
}

type hist []uint64

func main() {
	r := mon.Start("C18", "sequences of epoch requests (random, cyclic, sawtooth, ascending, descending, zipf-like, with hundreds or tens of thousands of repeated hits in between) over up to count+6 epochs with CachesCount 1..6, in memory and on disk, against an LRU model: weak references tell which caches are still reachable after garbage collection, object identity whether a resident epoch got the very same cache; plus concurrent bursts judged for the bound; non-trivial: at least one eviction; distinct by history")
	base := runtime.NumGoroutine()
	worlds := r.N(260, 2600)
	for i := 0; i < worlds && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("lru#%d", i))
		spec := hx.SmallSpec(g, hx.Algo(g.N(3)))
		spec.L1Words = 0
		spec.CacheInit = 64 * 40
		spec.Rounds = 0
		count := g.In(1, 6)
		dir := ""
		if i%4 == 0 {
			dir = hx.Tmp("lru")
		}
		d := dag.New(hx.Cfg(spec, "T", dir, count))
		n := count + g.In(1, 6)
		pattern := g.N(6)
		var order []uint64 // model: resident epochs, least recently used first
		cur := map[uint64]wk{}
		var evicted []wk
		var evictedEp []uint64
		var h hist
		steps := g.In(10, r.Q(50, 120))
		cs := func() map[string]any {
			return map[string]any{"caches_count": count, "disk": dir != "", "requests": append(hist(nil), h...)}
		}
		audit := func() {
			ok := hx.Until(60, func() bool {
				for _, w := range evicted {
					if w.alive() {
						return false
					}
				}
				return true
			})
			if !ok && hx.Quiesce(base) {
				live := 0
				for j, w := range evicted {
					if w.alive() {
						live++
						if live == 1 {
							r.Violate("an epoch cache beyond the configured count is still reachable (or the wrong one was evicted)", cs(), fmt.Sprintf("epoch %d was the least recently used one and must be gone; model residents %v", evictedEp[j], order))
						}
					}
				}
			}
			evicted, evictedEp = nil, nil
			runtime.GC()
			for e, w := range cur {
				if !w.alive() {
					r.Violate("a resident epoch's cache was evicted although it was not the least recently used", cs(), fmt.Sprintf("epoch %d; model residents %v", e, order))
					break
				}
			}
			r.Count("reachability_audits", 1)
		}
		evs, calls := 0, 0
		for k := 0; k < steps && r.Violations() < 3; k++ {
			var e uint64
			switch pattern {
			case 0:
				e = uint64(g.N(n))
			case 1:
				e = uint64(k % n)
			case 2:
				e = uint64(n - 1 - k%n)
			case 3:
				e = uint64((k/2 + k%2*g.N(2)) % n)
			case 4:
				e = uint64(min(g.N(n), g.N(n), g.N(n)))
			case 5:
				e = uint64(k/3 + g.N(3))
			}
			h = append(h, e)
			tick()
			var w wk
			if !r.Call("GetCache", cs(), func() { w = get(d, e) }) {
				break
			}
			pos := -1
			for j, x := range order {
				if x == e {
					pos = j
				}
			}
			if pos >= 0 {
				order = append(append(order[:pos:pos], order[pos+1:]...), e)
				r.Count("hits", 1)
				if !w.same(cur[e]) {
					r.Violate("a request for a resident epoch returned another cache", cs(), fmt.Sprintf("epoch %d, model residents %v", e, order))
				}
			} else {
				r.Count("misses", 1)
				if len(order) >= count {
					v := order[0]
					order = order[1:]
					evicted, evictedEp = append(evicted, cur[v]), append(evictedEp, v)
					delete(cur, v)
					evs++
				}
				order = append(order, e)
			}
			cur[e] = w
			if calls++; i%6 == 1 && k > count && g.N(12) == 0 {
				// many hits of the epoch used last change nothing, and a
				// counter of uses of 8 or 16 bits has just wrapped after them
				mod := 256
				if i%30 == 1 && calls < 65536 {
					mod = 65536
				}
				n := mod - calls%mod + g.N(3)
				end := mon.Watch("GetCache")
				for j := 0; j < n; j++ {
					d.GetCache(e)
				}
				end()
				calls += n
				h = append(h, e, e, e)
				r.Count("repeated_hits", int64(n))
			}
			if k%5 == 4 || k == steps-1 {
				audit()
			}
		}
		r.Eval(evs > 0, count, dir != "", fmt.Sprint(h))
		r.Count("evictions", int64(evs))
		r.Sample(fmt.Sprintf("pattern %d", pattern), cs())
		runtime.KeepAlive(d)
		hx.Quiesce(base)
		if dir != "" {
			d = nil
			os.RemoveAll(dir)
		}
	}
	// concurrent bursts: the bound must hold whatever the interleaving
	for i := 0; i < r.N(40, 400) && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("burst#%d", i))
		spec := hx.SmallSpec(g, hx.Eth)
		spec.CacheInit = 64 * 40
		count := g.In(1, 4)
		d := dag.New(hx.Cfg(spec, "T", "", count))
		n := count + g.In(1, 8)
		var mu sync.Mutex
		seen := map[uint64][]wk{}
		var wg sync.WaitGroup
		for t := 0; t < 8; t++ {
			gg := r.Rand(fmt.Sprintf("burst#%d/%d", i, t))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					e := uint64(gg.N(n))
					w := get(d, e)
					mu.Lock()
					dup := false
					for _, o := range seen[e] {
						dup = dup || o.same(w)
					}
					if !dup {
						seen[e] = append(seen[e], w)
					}
					mu.Unlock()
				}
			}()
		}
		end := r.Op("concurrent GetCache")
		wg.Wait()
		end()
		hx.Quiesce(base)
		live := func() (n int) {
			for _, l := range seen {
				for _, w := range l {
					if w.alive() {
						n++
					}
				}
			}
			return
		}
		if !hx.Until(60, func() bool { return live() <= count }) {
			r.Violate("more epoch caches than configured stay reachable after a concurrent burst", map[string]any{"caches_count": count, "epochs": n, "burst": i}, fmt.Sprintf("%d reachable", live()))
		}
		// two live objects of one epoch cannot both be resident
		for e, l := range seen {
			a := 0
			for _, w := range l {
				if w.alive() {
					a++
				}
			}
			if a > 1 {
				r.Violate("one epoch is resident twice", map[string]any{"epoch": e, "burst": i}, "")
			}
		}
		runtime.KeepAlive(d)
		r.Count("bursts", 1)
		r.Eval(true, "burst", i)
	}
	// what is held besides the resident epochs: caches prepared in vain, too
	const size = 512 << 10
	for i := 0; i < r.N(24, 120) && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("held#%d", i))
		spec := hx.SmallSpec(g, hx.Eth)
		spec.CacheInit, spec.CacheGrowth, spec.Rounds, spec.L1Words = size, 0, 0, 0
		count := g.In(1, 4)
		dir := ""
		if i%4 == 3 {
			dir = hx.Tmp("held")
		}
		d := dag.New(hx.Cfg(spec, "T", dir, count))
		var es []uint64
		e := uint64(0)
		shape := []string{"leaps", "falling", "to and fro", "anywhere", "rising"}[i%5]
		for k := 0; k < 70; k++ {
			switch shape {
			case "leaps":
				e += uint64(g.In(2, 5))
			case "falling":
				e = uint64(4 * (70 - k))
			case "to and fro":
				e = uint64(k + k%2*200)
			case "anywhere":
				e = uint64(g.N(500))
			case "rising":
				e++
			}
			es = append(es, e)
		}
		held := func() int {
			if dir != "" {
				return max(hx.Maps(dir), hx.FDs(dir))
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return int(m.HeapAlloc / size)
		}
		hx.Until(60, func() bool { runtime.GC(); return held() < 6 })
		base0 := held()
		threads := 1
		if g.N(3) == 0 {
			threads = 3
		}
		var wg sync.WaitGroup
		end := r.Op("GetCache")
		for t := 0; t < threads; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := t; k < len(es); k += threads {
					get(d, es[k])
				}
			}()
		}
		wg.Wait()
		end()
		cs := map[string]any{"caches_count": count, "disk": dir != "", "requests": es, "threads": threads}
		limit := base0 + count + 1 + 12
		if hx.Quiesce(base) && !hx.Until(60, func() bool { runtime.GC(); return held() <= limit }) {
			r.Violate("more caches are held than the configured count and a successor", cs, fmt.Sprintf("about %d of %d KiB each are held, %d before", held(), size>>10, base0))
		}
		runtime.KeepAlive(d)
		r.Max("held_caches", int64(held()-base0))
		r.Count("footprints", 1)
		r.Eval(true, "held", i)
		r.Sample("footprint "+shape, cs)
		d = nil
		if dir != "" {
			os.RemoveAll(dir)
		}
	}
	r.Require("footprints", 10)
	r.Require("repeated_hits", 5000)
	r.Require("evictions", 500)
	r.Require("hits", 500)
	r.Require("bursts", 20)
	r.Finish()
}
