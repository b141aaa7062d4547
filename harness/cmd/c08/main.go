//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C08", "random, sparse and crafted matrix seeds (all one-bit and many two-bit seeds, seeds whose matrix is regular by a hair or singular modulo a prime), signed timestamps and boundary nonces; all-zero seed must be refused; distinct by (hash, timestamp, nonce)")
	c := heavyhash.NewKaspa()
	check := func(hash []byte, ts int64, nonce uint64, tag string) {
		cs := map[string]any{"hash": hx.H(hash), "timestamp": ts, "nonce": nonce}
		var got []byte
		var err error
		if !r.Call("Compute", cs, func() { got, err = c.Compute(append([]byte{}, hash...), ts, nonce) }) {
			return
		}
		r.Eval(true, hash, ts, nonce)
		r.Sample(tag, cs)
		want, ok := ref.HeavyHash(hash, ts, nonce)
		if !ok {
			r.Count("degenerate_seed", 1)
			if err == nil || got != nil {
				r.Violate("a seed without full-rank matrix is not refused", cs, fmt.Sprintf("got %x err %v", got, err))
			}
			return
		}
		if err != nil || !bytes.Equal(got, want) {
			r.Violate("heavyhash result differs from the specification", cs, fmt.Sprintf("got %x err %v want %x", got, err, want))
		}
	}
	// the degenerate seed
	for i, g := 0, r.Rand("zero"); i < 4; i++ {
		check(make([]byte, 32), int64(g.Edge64()), g.Edge64(), "zero")
	}
	r.Par("case", r.N(40000, 300000), func(i int, g *mon.Rand) {
		hash := g.Bytes(32)
		switch {
		case i < 256:
			hash = make([]byte, 32)
			hash[i/8] = 1 << (i % 8)
			r.Count("one_bit_seeds", 1)
		case i < 2500:
			hash = make([]byte, 32)
			a, b := g.N(256), g.N(256)
			hash[a/8] |= 1 << (a % 8)
			hash[b/8] |= 1 << (b % 8)
		case i < 3200:
			hash = g.EdgeBytes(32)
		case i < 3600:
			// one state word only
			hash = make([]byte, 32)
			binary.LittleEndian.PutUint64(hash[8*g.N(4):], g.Edge64()|1)
		}
		check(hash, int64(g.Edge64()), g.Edge64(), "case")
	})
	seeds := append([][4]uint64(nil), near...)
	mod := map[[4]uint64]uint64{}
	for _, b := range bad {
		seeds = append(seeds, b.seed)
		mod[b.seed] = b.p
	}
	for _, s := range seeds {
		var b []byte
		for _, w := range s {
			b = binary.LittleEndian.AppendUint64(b, w)
		}
		m, _, _ := ref.HeavyMatrix(b)
		if full, _, least := specRank((*mat)(&m)); full && least < 1e-4 {
			r.Count("seeds_regular_by_a_hair", 1)
		}
		if p := mod[s]; p != 0 && ref.RankMod(&m, p) < 64 {
			r.Count("seeds_singular_modulo_a_prime", 1)
		}
		g := r.Rand(fmt.Sprint("crafted", s))
		for i := 0; i < 5; i++ {
			check(b, int64(g.Edge64()), g.Edge64(), "crafted")
		}
	}
	r.Count("crafted_seeds", int64(len(seeds)))
	r.Require("seeds_regular_by_a_hair", int64(len(near)-2))
	r.Require("seeds_singular_modulo_a_prime", int64(len(bad)))
	rank(r)
	r.Require("degenerate_seed", 4)
	r.Require("one_bit_seeds", 256)
	r.Finish()
}
