//go:build go1.24

package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C26", "every public Compute and Verify of the shipped coins (DAG coins over small caches) under a panic, fault and CPU-time watch: every wrong length around the right one, nil, empty and megabyte arguments, truncated and extended valid proofs; right lengths with degenerate contents (all zero, all ones, one bit, repeated words, one repeated index, extreme heights within the schedule's reach, nonces, timestamps), edge lists that are empty, huge, unsorted, equal, out of range; small Cuckoo graphs with every kind of edge list; distinct by (function, arguments)")
	g0 := r.Rand("specs")
	specs := map[hx.Algo]ref.DagSpec{}
	for _, a := range []hx.Algo{hx.Eth, hx.Kaw, hx.Firo, hx.Oct} {
		specs[a] = hx.SmallSpec(g0, a)
	}
	fns := append(hx.DagFns(specs, ""), hx.HashFns()...)
	fns = append(fns, hx.VerifyFns()...)
	judge := func(f hx.Fn, call func(hx.CallArgs) hx.Ans, c hx.CallArgs, wrong bool, tag string) {
		cs := c.Case(f.Name)
		cs["tag"] = tag
		var a hx.Ans
		if !r.Call(f.Name, cs, func() { a = call(c) }) {
			return
		}
		key := []any{f.Name, c.H, c.N, fmt.Sprint(c.Edges)}
		for _, d := range c.Data {
			if len(d) > 4096 {
				d = append(d[:64:64], byte(len(d)), byte(len(d)>>8), byte(len(d)>>16))
			}
			key = append(key, d)
		}
		r.Eval(true, key...)
		r.Count("calls_"+f.Name, 1)
		r.Sample(tag, cs)
		if a.Err != nil {
			r.Count("errors", 1)
		}
		if a.OK {
			r.Count("accepted", 1)
		}
		switch {
		case wrong && a.Err == nil:
			r.Violate("an argument of the wrong length is not answered with an error", cs, a.String())
		case wrong && a.OK, a.OK && a.Err != nil:
			r.Violate("Verify reports success together with an error", cs, fmt.Sprint(a.Err))
		case !wrong && !f.Verify && a.Err == nil:
			if d := a.Outs[len(a.Outs)-1]; len(d) != 32 {
				r.Violate("a digest is not 32 bytes long", cs, a.String())
			}
		case !wrong && !f.Verify:
			zero := string(c.Data[0]) == string(make([]byte, 32))
			if !(f.Name == "heavyhash" && zero) {
				r.Violate("a well-formed call is refused", cs, a.Err.Error())
			}
		}
		if wrong {
			r.Count("wrong_length_calls", 1)
		}
	}
	r.Par("fn", len(fns), func(i int, g *mon.Rand) {
		f := fns[i]
		var call func(hx.CallArgs) hx.Ans
		if !r.Call("New", map[string]any{"fn": f.Name}, func() { call = f.New() }) {
			return
		}
		// 1. lengths
		for k, n := range f.Lens {
			lens := []int{}
			for l := 0; l <= min(2*max(n, 8)+8, 3000); l++ {
				if n <= 200 || l < 70 || l > n-70 && l < n+70 || l%97 == 0 || l > 2*n-10 {
					lens = append(lens, l)
				}
			}
			lens = append(lens, 4096, 65536, 1<<20)
			if n >= 0 {
				lens = append(lens, 1<<24)
			} else {
				for l := 33; l < 300; l += 7 {
					lens = append(lens, l)
				}
			}
			for _, l := range lens {
				c := f.Draw(g)
				for f.Verify && len(f.Valid) > 0 && k == 1 && l%3 == 0 { // start from a good proof
					c = f.Valid[g.N(len(f.Valid))].Clone()
					break
				}
				d := c.Data[k]
				if len(d) >= l {
					d = d[:l]
				} else {
					d = append(append([]byte(nil), d...), make([]byte, l-len(d))...)
					if g.Bool() {
						copy(d[len(c.Data[k]):], g.Bytes(min(l-len(c.Data[k]), 4096)))
					}
				}
				c.Data[k] = d
				judge(f, call, c, n >= 0 && l != n, "length")
			}
			c := f.Draw(g)
			c.Data[k] = nil
			judge(f, call, c, n >= 0, "nil")
		}
		if len(f.Lens) > 1 { // several at once
			for j := 0; j < 30; j++ {
				c := f.Draw(g)
				wrong := false
				for k, n := range f.Lens {
					c.Data[k] = g.EdgeBytes(g.N(300))
					wrong = wrong || n >= 0 && len(c.Data[k]) != n
				}
				judge(f, call, c, wrong, "lengths")
			}
		}
		if f.Name == "beamhashiii" { // solutions that are right for their header, of a wrong length
			for _, l := range hx.Corpus("beam*.txt", "BEAMLEN") {
				judge(f, call, hx.CallArgs{Data: [][]byte{hx.Unhex(strings.TrimSuffix(l[1], ".")), hx.Unhex(l[2])}}, true, "length")
				r.Count("right_but_for_the_length", 1)
			}
		}
		if f.Size > 0 {
			for l := 0; l < 2*f.Size+70; l++ {
				for _, src := range append([]hx.CallArgs{f.Draw(g)}, f.Valid...) {
					c := src.Clone()
					for len(c.Edges) < l {
						c.Edges = append(c.Edges, c.Edges[len(c.Edges)-1]+1)
					}
					c.Edges = c.Edges[:l]
					judge(f, call, c, l != f.Size, "edge list length")
				}
			}
			for _, l := range []int{4096, 1 << 16, 1 << 20} {
				c := f.Draw(g)
				c.Edges = make([]uint64, l)
				for i := range c.Edges {
					c.Edges[i] = uint64(i)
				}
				judge(f, call, c, true, "edge list length")
			}
			c := f.Draw(g)
			c.Edges = nil
			judge(f, call, c, true, "edge list length")
		}
	})
	// 2. contents
	per := r.N(260, 6000)
	calls := make([]func(hx.CallArgs) hx.Ans, len(fns))
	for i := range fns {
		calls[i] = fns[i].New()
	}
	r.Par("contents", len(fns)*per, func(i int, g *mon.Rand) {
		k := i % len(fns)
		judge(fns[k], calls[k], fns[k].Draw(g), false, "contents")
	})
	// degenerate hashes for all that take one
	for k, f := range fns {
		if f.Verify {
			continue
		}
		for w := 0; w < 256; w++ {
			c := f.Draw(r.Rand("deg"))
			c.Data[0] = make([]byte, 32)
			if w > 0 {
				c.Data[0][w/8] = 1 << (w % 8)
			}
			judge(f, calls[k], c, false, "degenerate hash")
		}
	}
	// 3. tiny graphs: many edge lists, sorted or not, with repetitions
	r.Par("tiny", r.N(4000, 200000), func(i int, g *mon.Rand) {
		for k, f := range fns {
			if f.Size == 0 || f.Mask > 1<<10 {
				continue
			}
			c := hx.CallArgs{Data: [][]byte{g.Bytes(g.N(40))}, Edges: make([]uint64, f.Size)}
			e := uint64(g.N(int(f.Mask)))
			for j := range c.Edges {
				switch i % 4 {
				case 0:
					c.Edges[j] = g.U64() & f.Mask
				case 1:
					c.Edges[j] = e
					e = (e + uint64(g.N(2))) & f.Mask
				default:
					c.Edges[j] = uint64(j) * (f.Mask + 1) / uint64(f.Size)
					c.Edges[j] += g.U64() % ((f.Mask + 1) / uint64(f.Size))
				}
			}
			judge(f, calls[k], c, false, "tiny graph")
		}
	})
	runtime.KeepAlive(calls)
	r.Require("accepted", 50)
	r.Require("right_but_for_the_length", 5)
	r.Require("wrong_length_calls", 3000)
	r.Finish()
}
