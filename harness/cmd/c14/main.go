//go:build go1.24

package main

import (
	"fmt"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C14", "every epoch 0..lim of every DAG coin (well beyond the tables) and sampled epochs up to 2^31, sizes compared with the growth schedule's largest-prime-rows sizes; the same for table-less configurations and for schedules that pass row counts weak primality tests misjudge (pseudoprimes, Carmichael numbers, products of close primes); distinct by (coin, epoch)")
	lim := r.N(4500, 60000)
	for _, coin := range hx.PresetNames {
		in := hx.Preset(coin, "")
		d := in.DAG()
		r.Par(coin, lim+r.N(400, 20000), func(i int, g *mon.Rand) {
			e := uint64(i)
			if i >= lim {
				e = g.U64() >> (33 + g.N(20))
			}
			cs := map[string]any{"coin": coin, "epoch": e}
			var c, ds uint64
			if !r.Call("size query", cs, func() { c, ds = d.CacheSize(e), d.DatasetSize(e) }) {
				return
			}
			r.Eval(true, coin, e)
			if e < 3 {
				r.Sample(coin, map[string]any{"epoch": e, "cache": c, "dataset": ds})
			}
			if wc, wd := in.Spec.CacheSize(e), in.Spec.DatasetSize(e); c != wc || ds != wd {
				r.Violate("DAG size differs from the growth schedule", cs, fmt.Sprintf("cache %d want %d, dataset %d want %d", c, wc, ds, wd))
			}
			if in.Spec.CacheSize(e) == in.Spec.CacheInit+in.Spec.CacheGrowth*e-64 {
				r.Count("first_candidate_prime", 1)
			}
		})
		r.Count("coins", 1)
	}
	// configurations without tables, and with tables of any length
	r.Par("custom", r.N(30000, 200000), func(i int, g *mon.Rand) {
		s := hx.RandSpec(g, hx.Algo(g.N(4)))
		cfg := hx.Cfg(s, "T", "", 3)
		tl := 0
		if g.Bool() {
			tl = g.N(30)
			ct, dt := make([]uint64, tl), make([]uint64, tl)
			for k := range ct {
				ct[k], dt[k] = s.CacheSize(uint64(k)), s.DatasetSize(uint64(k))
			}
			cfg.CacheSizes, cfg.DatasetSizes = dag.NewLookupTable(ct, uint64(tl)), dag.NewLookupTable(dt, uint64(tl))
		}
		d := dag.New(cfg)
		for _, e := range []uint64{0, uint64(g.N(40)), uint64(tl), uint64(max(tl, 1) - 1), uint64(g.N(1 << 20))} {
			cs := map[string]any{"spec": fmt.Sprintf("%+v", s), "table": tl, "epoch": e}
			var c, ds uint64
			if !r.Call("size query", cs, func() { c, ds = d.CacheSize(e), d.DatasetSize(e) }) {
				return
			}
			r.Eval(true, "custom", i, e)
			if wc, wd := s.CacheSize(e), s.DatasetSize(e); c != wc || ds != wd {
				r.Violate("custom DAG size differs from the growth schedule", cs, fmt.Sprintf("cache %d want %d, dataset %d want %d", c, wc, ds, wd))
			}
		}
	})
	// row counts that a weak primality test misjudges
	r.Par("hard", r.N(4000, 100000), func(i int, g *mon.Rand) {
		s := hx.RandSpec(g, hx.Algo(g.N(4)))
		a, b, at := hx.HardRows(g), hx.HardRows(g), uint64(0)
		for a < 100 || b < 100 { // room to go down
			a, b = hx.HardRows(g), hx.HardRows(g)
		}
		if g.Bool() { // that many rows come first at a later epoch
			at = uint64(g.In(1, 20))
			a, b = max(a, 10001), max(b, 10001)
			s.CacheGrowth, s.DatasetGrowth = 64*2*uint64(g.In(1, 200)), s.Mix*2*uint64(g.In(1, 200))
		}
		up := 2 * uint64(g.N(3))
		s.CacheInit = 64*(a+up+1) - s.CacheGrowth*at
		s.DatasetInit = s.Mix*(b+up+1) - s.DatasetGrowth*at
		d := dag.New(hx.Cfg(s, "T", "", 3))
		cs := map[string]any{"spec": fmt.Sprintf("%+v", s), "epoch": at, "rows": a, "dataset_rows": b}
		var c, ds uint64
		if !r.Call("size query", cs, func() { c, ds = d.CacheSize(at), d.DatasetSize(at) }) {
			return
		}
		r.Eval(true, "hard", a, b, at, up)
		r.Count("hard_row_counts", 2)
		r.Sample("hard", cs)
		if wc, wd := s.CacheSize(at), s.DatasetSize(at); c != wc || ds != wd {
			r.Violate("custom DAG size differs from the growth schedule", cs, fmt.Sprintf("cache %d want %d, dataset %d want %d", c, wc, ds, wd))
		}
	})
	r.Require("hard_row_counts", 4000)
	r.Require("coins", 5)
	_ = ref.ETH
	r.Finish()
}
