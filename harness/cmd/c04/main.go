//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/sencha-dev/powkit/internal/progpow"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/reg"
)

func main() {
	r := mon.Start("C04", "random ProgPoW parameter sets, heights, seeds, dataset and L1 contents through progpow.Hash; compared with the specification; also monitors the dataset accesses it makes; distinct by (parameters, height, seed)")
	var mu sync.Mutex
	var tot ref.ProgStats
	lanes, regs := map[uint32]int{}, map[uint32]int{}
	r.Par("case", r.N(20000, 200000), func(i int, g *mon.Rand) {
		c := ref.ProgCfg{
			Period: []uint64{1, 2, 3, 10, 50, uint64(g.In(1, 1000)), 1 << 33}[g.N(7)],
			Lanes:  []uint32{1, 2, 4, 8, 16, 16, 16, 32, 64}[g.N(9)],
			Regs:   []uint32{2, 3, 8, 16, 31, 32, 32, 32, 33, 64}[g.N(10)],
			Rounds: uint32([]int{0, 1, 2, 17, 64, 64, 64, g.N(130)}[g.N(8)]),
			CacheN: []int{0, 1, 11, 11, 18, g.N(40)}[g.N(6)],
			MathN:  []int{0, 1, 18, 18, 11, g.N(40)}[g.N(6)],
		}
		switch i % 50 {
		case 7, 17: // lanes that do not divide an item evenly
			c.Lanes = []uint32{3, 5, 6, 7, 9, 12, 24, 31, 33, 48}[g.N(10)]
			r.Count("odd_lane_counts", 1)
		case 27: // beyond a byte
			c.Regs = []uint32{255, 256, 257, 300, 511, 1000}[g.N(6)]
			c.Rounds = uint32(g.In(1, 20))
			r.Count("hundreds_of_registers", 1)
		case 37:
			c.CacheN, c.MathN = []int{0, 100, 255, 256, 257, 400}[g.N(6)], []int{100, 200, 257, 400}[g.N(4)]
			c.Rounds = uint32(g.In(1, 12))
			r.Count("hundreds_of_operations", 1)
		case 47:
			c.Rounds = uint32([]int{255, 256, 257, 300, 600}[g.N(5)])
			c.CacheN, c.MathN = g.N(5), g.N(5)
			r.Count("hundreds_of_rounds", 1)
		}
		if i%4 == 0 {
			c = ref.StdProg([]uint64{1, 3, 10, 50}[g.N(4)])
		}
		c.CacheWords = []uint32{4096, 4096, 2048, 512, 1, uint32(g.In(1, 5000))}[g.N(6)]
		l1 := make([]uint32, int(c.CacheWords)+g.N(5))
		for k := range l1 {
			l1[k] = g.U32()
			if i%7 == 0 {
				l1[k] = g.Edge32()
			}
		}
		size := 256 * (uint64(g.In(1, 1<<20)))
		switch g.N(4) {
		case 0:
			size = 256 * uint64(g.In(1, 8))
		case 1:
			size = 1<<30 + g.U64()%(1<<39)
		}
		salt := g.U64()
		edge := i%5 == 0
		var want, got []uint32
		mkLookup := func(log *[]uint32) func(uint32) []uint32 {
			return func(idx uint32) []uint32 {
				*log = append(*log, idx)
				h := mon.NewRand(salt, fmt.Sprint(idx))
				it := make([]uint32, 64)
				for k := range it {
					it[k] = h.U32()
					if edge {
						it[k] = h.Edge32()
					}
				}
				return it
			}
		}
		height, seed := g.Edge64(), g.Edge64()
		var st ref.ProgStats
		w := ref.ProgHash(c, height, seed, size, mkLookup(&want), l1, &st)
		cs := map[string]any{"cfg": fmt.Sprintf("%+v", c), "height": height, "seed": seed, "size": size, "case": i}
		cfg := &progpow.Config{PeriodLength: c.Period, DagLoads: 4, CacheBytes: c.CacheWords * 4, LaneCount: int(c.Lanes), RegisterCount: int(c.Regs),
			RoundCount: int(c.Rounds), RoundCacheAccesses: c.CacheN, RoundMathOperations: c.MathN}
		l1c := append([]uint32(nil), l1...)
		var o []byte
		if !r.Call("progpow.Hash", cs, func() { o = progpow.Hash(cfg, height, seed, size, mkLookup(&got), l1c) }) {
			return
		}
		r.Eval(c.Rounds > 0, cs)
		r.Sample("case", map[string]any{"case": cs, "mix": hx.H(w)})
		if !bytes.Equal(o, w) {
			r.Violate("progpow mix differs from the specification", cs, fmt.Sprintf("got %x want %x", o, w))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Violate("progpow dataset accesses differ from the specification", cs, "")
		}
		for k := range l1 {
			if l1c[k] != l1[k] {
				r.Violate("progpow modified the L1 cache", cs, "")
				break
			}
		}
		mu.Lock()
		for k, v := range st.Math {
			tot.Math[k] += v
		}
		for k, v := range st.Merge {
			tot.Merge[k] += v
		}
		lanes[c.Lanes]++
		regs[c.Regs]++
		mu.Unlock()
		r.Count("dataset_accesses", int64(len(got)))
	})
	for k, v := range tot.Math {
		r.Count(fmt.Sprintf("math_op_%d", k), int64(v))
		r.Require(fmt.Sprintf("math_op_%d", k), 1000)
	}
	for k, v := range tot.Merge {
		r.Count(fmt.Sprintf("merge_op_%d", k), int64(v))
		r.Require(fmt.Sprintf("merge_op_%d", k), 1000)
	}
	standard(r)
	r.Count("lane_counts", int64(len(lanes)))
	r.Count("register_counts", int64(len(regs)))
	for _, k := range []string{"odd_lane_counts", "hundreds_of_registers", "hundreds_of_operations", "hundreds_of_rounds"} {
		r.Require(k, 100)
	}
	r.Require("lane_counts", 6)
	r.Require("register_counts", 6)
	r.Finish()
}

// standard checks the package's own ProgPoW 0.9.4 (no coin uses it), if it can
// be reached.
func standard(r *mon.R) {
	f, ok := reg.Get("progpow.compute").(func([]byte, uint64, uint64, uint64, func(uint32) []uint32, []uint32) ([]byte, []byte))
	if !ok {
		return
	}
	r.Par("standard", r.N(1500, 20000), func(i int, g *mon.Rand) {
		hash, h, n := g.Bytes(32), g.Edge64(), g.Edge64()
		size := 256 * uint64(g.In(1, 1<<30))
		l1 := make([]uint32, 4096)
		for k := range l1 {
			l1[k] = g.U32()
		}
		salt := g.U64()
		lookup := func(idx uint32) []uint32 {
			q := mon.NewRand(salt, fmt.Sprint(idx))
			it := make([]uint32, 64)
			for k := range it {
				it[k] = q.U32()
			}
			return it
		}
		wm, wd := ref.ProgPowOver(ref.Plain, ref.StdProg(10), hash, h, n, size, lookup, l1, &ref.ProgStats{})
		cs := map[string]any{"hash": hx.H(hash), "height": h, "nonce": n, "size": size, "standard": i}
		var m, d []byte
		if !r.Call("progpow compute", cs, func() { m, d = f(hash, h, n, size, lookup, l1) }) {
			return
		}
		r.Eval(true, cs)
		r.Count("standard_094", 1)
		if !bytes.Equal(m, wm) || !bytes.Equal(d, wd) {
			r.Violate("ProgPoW 0.9.4 differs from the specification", cs, fmt.Sprintf("got %x %x want %x %x", m, d, wm, wd))
		}
	})
}
