//go:build go1.24

package main

import (
	"bytes"
	"fmt"

	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C15", "heights at and around every epoch boundary (presets and custom lengths up to 2^60): epoch number, seed, and the cache actually used on either side of a boundary; distinct by (configuration, height)")
	checkH := func(tag string, d *dag.DAG, s ref.DagSpec, h uint64) {
		cs := map[string]any{"cfg": tag, "epoch_length": s.Epoch, "seed_epoch_length": s.SeedEpoch, "height": h}
		var e uint64
		var seed []byte
		if !r.Call("CalcEpoch/SeedHash", cs, func() { e = d.CalcEpoch(h); seed = d.SeedHash(h) }) {
			return
		}
		r.Eval(true, tag, s.Epoch, s.SeedEpoch, h)
		r.Sample(tag, cs)
		if w := h / s.Epoch; e != w {
			r.Violate("height maps to the wrong epoch", cs, fmt.Sprintf("got %d want %d", e, w))
		}
		if w := ref.SeedAt(h, s.SeedEpoch); !bytes.Equal(seed, w) {
			r.Violate("height has the wrong seed", cs, fmt.Sprintf("got %x want %x", seed, w))
		}
	}
	for _, coin := range hx.PresetNames {
		in := hx.Preset(coin, "")
		r.Par(coin, r.N(500, 4000), func(i int, g *mon.Rand) {
			e := uint64(g.N(600))
			if i < 40 {
				e = uint64(i)
			}
			for _, dh := range []uint64{0, 1, in.Spec.Epoch - 1, in.Spec.Epoch / 2, in.Spec.Epoch/2 - 1} {
				checkH(coin, in.DAG(), in.Spec, e*in.Spec.Epoch+dh)
			}
		})
	}
	r.Par("custom", r.N(4000, 60000), func(i int, g *mon.Rand) {
		s := hx.RandSpec(g, hx.Eth)
		s.Epoch = 1 + g.U64()>>(1+g.N(62))
		s.SeedEpoch = s.Epoch
		if g.Bool() {
			s.SeedEpoch = 1 + s.Epoch/uint64(g.In(1, 4))
		}
		d := dag.New(hx.Cfg(s, "T", "", 3))
		for k := 0; k < 6; k++ {
			h := hx.RandHeight(g, s, 40)
			if h/s.SeedEpoch > 2000 {
				continue
			}
			checkH("custom", d, s, h)
		}
	})
	// Crossing a boundary by one block switches the cache exactly there.
	r.Par("switch", r.N(120, 2500), func(i int, g *mon.Rand) {
		a := hx.Algo(i % 4)
		s := hx.RandSpec(g, a)
		s.CacheInit = 128 * uint64(g.In(2, 30))
		if s.Epoch == 1<<60 {
			s.Epoch = 1 << 50
		}
		s.SeedEpoch = s.Epoch
		switch {
		case i%3 == 0:
			s.SeedEpoch = hx.OddSeedEpoch(g, s.Epoch)
		case i%3 == 1 && s.Epoch%2 == 0 && s.Epoch > 2:
			s.SeedEpoch /= 2
		}
		s.Parents = 4
		dir := ""
		if g.Bool() {
			dir = hx.Tmp("c15")
		}
		in := hx.New(a, s, hx.Cfg(s, "T", dir, 2))
		var m ref.Memo
		hash, nonce := g.Bytes(32), g.U64()
		for e := uint64(1); e <= 4; e++ {
			for _, h := range []uint64{e*s.Epoch - 1, e * s.Epoch} {
				cs := hx.Case(in, hash, h, nonce)
				var mix, dg []byte
				var err error
				if !r.Call("Compute", cs, func() { mix, dg, err = in.Compute(hash, h, nonce) }) {
					return
				}
				r.Eval(true, "switch", i, h)
				r.Count("boundary_blocks", 1)
				wm, wd := in.Expect(&m, hash, h, nonce, nil, nil)
				if !hx.Same(mix, dg, err, wm, wd) {
					r.Violate("block next to an epoch boundary is computed with the wrong epoch", cs, fmt.Sprintf("got %x %v want %x", dg, err, wd))
				}
			}
		}
		// the cache itself carries its epoch's seed
		e := uint64(g.N(6))
		var c []uint32
		if r.Call("GetCache", s, func() { c, _ = hx.Contents(in.DAG(), e) }) {
			w := s.NewCache(e).Words
			if !hx.SameWords(c, w) {
				r.Violate("epoch cache is not built from its epoch's seed", map[string]any{"spec": fmt.Sprintf("%+v", s), "epoch": e}, "")
			}
		}
	})
	r.Require("boundary_blocks", 100)
	r.Finish()
}
