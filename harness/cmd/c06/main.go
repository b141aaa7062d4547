//go:build go1.24

package main

import (
	"bytes"
	"fmt"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C06", "every table-size step and its two neighbours, plus random messages, heights and nonces, against the Ergo specification, a part with clients of other k and table sizes, now and then right after a client of other parameters did the same call; distinct by (parameters, message, height, nonce)")
	var heights []uint64
	for k := uint64(0); k <= 80; k++ {
		h := 614400 + 51200*k
		for d := uint64(0); d < 5; d++ {
			heights = append(heights, h-2+d)
		}
	}
	steps := len(heights)
	for _, h := range []uint64{0, 1, 2, 614399, 4198399, 4198400, 4198401, 4249600, 41984000, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		heights = append(heights, h)
	}
	sizes := map[uint32]bool{}
	for _, h := range heights {
		sizes[ref.ErgoN(h)] = true
	}
	r.Count("distinct_table_sizes", int64(len(sizes)))
	r.Count("step_heights", int64(steps))
	r.Require("distinct_table_sizes", 72)
	n := len(heights) * r.N(3, 12)
	c := autolykos2.NewErgo()
	r.Par("case", n+r.N(8000, 60000), func(i int, g *mon.Rand) {
		h := g.U64() % 6000000
		if i < n {
			h = heights[i%len(heights)]
		} else if g.N(8) == 0 {
			h = uint64(g.U32() >> g.N(32))
		}
		msg, nonce := g.EdgeBytes(32), g.Edge64()
		cs := map[string]any{"msg": hx.H(msg), "height": h, "nonce": nonce}
		var got []byte
		var err error
		c, k, bits := c, 32, uint(26)
		if g.N(6) == 0 {
			k, bits = min(g.In(1, 32), g.In(1, 32)), uint(g.In(7, 27))
			if g.N(3) == 0 {
				bits = 26
			}
			c = autolykos2.New(uint32(k), uint32(bits))
			cs["k"], cs["n"] = k, bits
			r.Count("other_parameters", 1)
		}
		if g.N(6) == 0 { // another table, not judged here, must not interfere
			other := autolykos2.New(uint32(g.In(1, 32)), uint32(g.In(10, 25)))
			cs["client_used_before"] = "other parameters"
			if !r.Call("Compute", cs, func() { other.Compute(append([]byte{}, msg...), h, nonce) }) {
				return
			}
			r.Count("interleaved_clients", 1)
		}
		if !r.Call("Compute", cs, func() { got, err = c.Compute(append([]byte{}, msg...), h, nonce) }) {
			return
		}
		want := ref.AutolykosKN(k, bits, msg, h, nonce)
		r.Eval(true, k, bits, msg, h, nonce)
		r.Sample("case", cs)
		if err != nil || !bytes.Equal(got, want) {
			r.Violate("autolykos2 result differs from the specification", cs, fmt.Sprintf("got %x err %v want %x", got, err, want))
		}
	})
	r.Require("other_parameters", 500)
	r.Finish()
}
