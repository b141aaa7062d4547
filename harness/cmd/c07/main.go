//go:build go1.24

package main

import (
	"bytes"
	"fmt"

	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C07", "every input length 0..lim with several contents, then random longer inputs; a part also by sponges of other rounds, output lengths and delimiters, before or after; distinct by input")
	lim := r.N(2200, 6000)
	c := eaglesong.NewNervos()
	r.Par("case", lim*3+r.N(1500, 8000), func(i int, g *mon.Rand) {
		n := i % lim
		if i >= lim*3 {
			n = g.N(1 << g.In(4, 17))
			if k := i - lim*3; k < r.N(8, 40) { // counts of blocks beyond 16 bits
				n = g.In(1<<21-64, 5<<19)
			}
		}
		in := g.EdgeBytes(n)
		switch i / lim {
		case 1: // bytes that could be mistaken for padding
			for k := range in {
				in[k] = []byte{0, 6, 0x80, 0xff, 1}[g.N(5)]
			}
		}
		arg := append(make([]byte, 0, n+8), in...)
		if n == 0 && g.Bool() {
			arg = nil
		}
		cs := map[string]any{"len": n, "input": hx.H(in[:min(n, 64)])}
		var got []byte
		other := func() {
			rounds, length, delim := g.In(1, 43), 32*g.In(1, 4), []byte{0x06, 0, 1, 0x80, byte(g.N(256))}[g.N(5)]
			cs := map[string]any{"input": hx.H(in), "rounds": rounds, "length": length, "delimiter": delim}
			var got []byte
			if !r.Call("Compute", cs, func() { got = eaglesong.New(rounds, length, 256, length, delim).Compute(append([]byte{}, in...)) }) {
				return
			}
			r.Count("other_sponges", 1)
			if want := ref.EaglesongWith(rounds, length, delim, in); !bytes.Equal(got, want) {
				r.Violate("eaglesong digest of another sponge differs from the specification", cs, fmt.Sprintf("got %x want %x", got, want))
			}
		}
		when := g.N(8)
		if when == 0 && n < 1<<14 {
			other()
		}
		if !r.Call("Compute", cs, func() { got = c.Compute(arg) }) {
			return
		}
		if when == 1 && n < 1<<14 {
			other()
		}
		r.Eval(true, in)
		r.Sample("case", cs)
		r.Max("longest", int64(n))
		if want := ref.Eaglesong(in); !bytes.Equal(got, want) {
			cs["input"] = hx.H(in)
			r.Violate("eaglesong digest differs from the specification", cs, fmt.Sprintf("got %x want %x", got, want))
		}
	})
	r.Require("other_sponges", 200)
	r.Count("lengths_exhaustive_to", int64(lim))
	r.Finish()
}
