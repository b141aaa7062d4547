//go:build go1.24

package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C16", "random cache sizes (2 to thousands of rows), growths, epochs, rounds, parent counts and L1 sizes, in memory, freshly written to a file, and reloaded from the file: the whole light cache, the whole L1 cache and sampled dataset items of 1, 2 and 4 rows compared with the specification; presets' caches at full size; distinct by (configuration, epoch, storage)")
	check := func(i int, g *mon.Rand, s ref.DagSpec, e uint64, where string, d *dag.DAG, w *ref.Cache, items int) {
		cs := map[string]any{"spec": fmt.Sprintf("%+v", s), "epoch": e, "where": where, "case": i}
		r.Call("cache access", cs, func() {
			c := d.GetCache(e)
			r.Eval(true, cs)
			r.Sample(where, cs)
			r.Count("cache_words_"+where, int64(len(c.Cache())))
			if !hx.SameWords(c.Cache(), w.Words) {
				r.Violate("light cache content differs from the specification", cs, diff(c.Cache(), w.Words))
			}
			if s.L1Words > 0 && !hx.SameWords(c.L1(), w.L1) {
				r.Violate("L1 cache content differs from the specification", cs, diff(c.L1(), w.L1))
			}
			fs := []dag.LookupFunc{d.NewLookupFunc512(c, e), d.NewLookupFunc1024(c, e), d.NewLookupFunc2048(c, e)}
			for k := 0; k < items; k++ {
				idx := g.U32() >> g.N(32)
				if k%6 == 0 {
					idx = g.Edge32()
				}
				f := g.N(3)
				n := uint32(1) << f
				got := fs[f](idx)
				want := w.Items(idx, n)
				r.Count(fmt.Sprintf("items_%d_rows", n), 1)
				if !hx.SameWords(got, want) {
					cs["index"], cs["rows"] = idx, n
					r.Violate("dataset item differs from the specification", cs, diff(got, want))
					return
				}
			}
			runtime.KeepAlive(c)
		})
	}
	var big, small int64
	r.Par("case", r.N(500, 8000), func(i int, g *mon.Rand) {
		s := hx.RandSpec(g, hx.Algo(g.N(4)))
		if i%9 == 0 {
			s.CacheInit = 128 * uint64(g.In(400, 4000))
		}
		if i%11 == 0 {
			s.CacheInit, s.CacheGrowth = 128*uint64(g.In(2, 4)), 0
		}
		s.L1Words = []int{0, 16, 32, 4096, 16 * g.In(1, 300)}[g.N(5)]
		s.Rounds = g.N(7)
		s.Parents = uint32([]int{0, 1, 15, 16, 17, 256, 512, g.N(700)}[g.N(8)])
		e := uint64(g.N(30))
		if s.Epoch == 1<<60 {
			e %= 14
		}
		w := s.NewCache(e)
		base := runtime.NumGoroutine()
		_ = base
		check(i, g, s, e, "memory", dag.New(hx.Cfg(s, "T", "", 2)), w, 20)
		dir := hx.Tmp("c16")
		check(i, g, s, e, "written", dag.New(hx.Cfg(s, "T", dir, 3)), w, 10)
		check(i, g, s, e, "reloaded", dag.New(hx.Cfg(s, "T", dir, 3)), w, 10)
		if len(w.Words) > 64*1024 {
			r.Count("large_caches", 1)
		}
		if len(w.Words) <= 16*8 {
			r.Count("tiny_caches", 1)
		}
	})
	_, _ = big, small
	// the presets' own caches, epoch 0 and one more, at their real size
	var epochs = []uint64{0}
	if r.Thorough() {
		epochs = []uint64{0, 1, 2, 37, 300}
	}
	r.Par("preset", len(hx.PresetNames)*len(epochs), func(i int, g *mon.Rand) {
		end := r.SlowOp("preset cache", 6)
		defer end()
		in := hx.Preset(hx.PresetNames[i%len(hx.PresetNames)], "")
		if i%2 == 1 {
			in.DAG().StorageDir = hx.Tmp("c16p")
		}
		e := epochs[i/len(hx.PresetNames)]
		w := in.Spec.NewCache(e)
		check(i, g, in.Spec, e, "preset", in.DAG(), w, 60)
		r.Count("preset_caches", 1)
	})
	os.RemoveAll(os.Getenv("VERIF_SCRATCH"))
	r.Require("preset_caches", 5)
	r.Require("items_4_rows", 500)
	r.Require("tiny_caches", 10)
	r.Finish()
}

func diff(a, b []uint32) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d words, want %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("word %d: %08x want %08x", i, a[i], b[i])
		}
	}
	return ""
}
