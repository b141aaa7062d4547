//go:build go1.24

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strings"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// guarded returns b as a slice in the middle of a larger array of noise.
func guarded(g *mon.Rand, b []byte) (arg, whole []byte) {
	pre, post := g.N(40), g.N(200)
	whole = g.Bytes(pre + len(b) + post)
	copy(whole[pre:], b)
	return whole[pre : pre+len(b)], whole
}

func guarded64(g *mon.Rand, e []uint64) (arg, whole []uint64) {
	pre, post := g.N(5), g.N(90)
	whole = make([]uint64, pre+len(e)+post)
	for i := range whole {
		whole[i] = g.U64() & 0x1fffffff
	}
	copy(whole[pre:], e)
	return whole[pre : pre+len(e)], whole
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

type one struct {
	Fn string
	C  hx.CallArgs
}

type kept struct {
	fn   string
	outs [][]byte // as returned
	want [][]byte // copies
	cs   map[string]any
}

func main() {
	r := mon.Start("C27", "sequences of calls of every public Compute and Verify, on long-lived clients of the same and of different configurations and coins, in a random order with repetitions. Arguments sit inside larger arrays of noise (spare capacity included), which must be unchanged afterwards; earlier results are kept and must never change; then arguments and results are overwritten up to their capacity; every answer must equal the one a process of its own gives to copies of the arguments. Valid and invalid proofs, errors and successes. Distinct by (function, arguments, position)")
	g0 := r.Rand("specs")
	mk := func(dirTag string) []hx.Fn {
		specs := map[hx.Algo]ref.DagSpec{}
		for _, a := range []hx.Algo{hx.Eth, hx.Kaw, hx.Firo, hx.Oct} {
			specs[a] = hx.SmallSpec(g0, a)
		}
		dir := ""
		if dirTag != "" && os.Getenv("ZZ_ONE") == "" {
			dir = hx.Tmp(dirTag)
		}
		fs := hx.DagFns(specs, dir)
		for i := range fs {
			fs[i].Name += "_" + dirTag
		}
		return fs
	}
	fns := append(append(mk(""), mk("disk")...), mk("")...) // two configurations in memory, one on disk
	for i := 8; i < 12; i++ {
		fns[i].Name += "2"
	}
	fns = append(append(append(fns, hx.HashFns()...), hx.VerifyFns()...), hx.ExtraFns()...)
	if q := os.Getenv("ZZ_ONE"); q != "" {
		var o one
		if err := json.Unmarshal([]byte(q), &o); err != nil {
			panic(err)
		}
		for _, f := range fns {
			if f.Name == o.Fn {
				fmt.Print(f.New()(o.C).String())
				os.Exit(0)
			}
		}
		os.Exit(96)
	}
	// the answer in a process of its own, which has done nothing before
	fresh := func(f *hx.Fn, c hx.CallArgs) (s string, ok bool) {
		b, _ := json.Marshal(one{f.Name, c})
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "ZZ_ONE="+string(b), "MON_OUT=")
		out, err := cmd.Output()
		if err != nil {
			cs := c.Case(f.Name)
			if x, is := err.(*exec.ExitError); is && mon.InRepo(string(x.Stderr)) != "" {
				r.Violate(f.Name+" crashed in a process of its own", cs, string(x.Stderr))
			} else {
				r.Inconclusive("process for %s: %v", f.Name, err)
			}
			return "", false
		}
		r.Count("answers_of_fresh_processes", 1)
		return string(out), true
	}
	r.Par("history", r.N(250, 4000), func(i int, g *mon.Rand) {
		if r.Violations() > 8 {
			return
		}
		// some functions, often of one kind, and a few arguments for each
		var use []*hx.Fn
		for n := g.In(1, 4); n > 0; n-- {
			use = append(use, &fns[g.N(len(fns))])
		}
		if i < len(fns) {
			use[0] = &fns[i]
		}
		type item struct {
			f    *hx.Fn
			c    hx.CallArgs
			want string
		}
		var items []item
		clients := map[*hx.Fn][]func(hx.CallArgs) hx.Ans{}
		for _, f := range use {
			for n := g.In(2, 5); n > 0; n-- {
				c := f.Draw(g)
				if len(items) > 0 && g.N(3) == 0 {
					// arguments it has in common with a call of this or another client
					p := items[g.N(len(items))].c.Clone()
					for k := range c.Data {
						if k < len(p.Data) && len(p.Data[k]) == len(c.Data[k]) && g.N(4) > 0 {
							c.Data[k] = p.Data[k]
						}
					}
					if len(c.Edges) == len(p.Edges) && g.Bool() {
						c.Edges = p.Edges
					}
					if g.N(4) > 0 {
						c.N = p.N
					}
					if p.H < 400 && g.Bool() {
						c.H = p.H
					}
					r.Count("shared_arguments", 1)
				}
				if g.N(8) == 0 { // an argument of a wrong length
					k := g.N(len(c.Data))
					c.Data[k] = append(c.Data[k], 1)
				}
				w, ok := fresh(f, c)
				if !ok {
					return
				}
				items = append(items, item{f, c, w})
				// a close relative: one bit, one step or a longer or shorter argument apart
				for v := g.N(3); v > 0; v-- {
					d := c.Clone()
					k := g.N(len(d.Data))
					if g.N(3) == 0 {
						if !collide(g, &d) {
							continue
						}
						r.Count("calls_of_colliding_keys", 1)
						if w, ok := fresh(f, d); ok {
							items = append(items, item{f, d, w})
						}
						continue
					}
					switch g.N(6) {
					case 0:
						d.N ^= 1 << g.N(64)
					case 1:
						d.N++
					case 2:
						if d.H < 390 {
							d.H++
						}
					case 3:
						d.Data[k] = append(d.Data[k], byte(g.N(2)))
					case 4:
						if len(d.Data[k]) > 0 {
							d.Data[k] = d.Data[k][:len(d.Data[k])-1]
						}
					default:
						if n := len(d.Data[k]); n > 0 {
							d.Data[k][[]int{0, n - 1, g.N(n)}[g.N(3)]] ^= 1 << g.N(8)
						}
					}
					if w, ok := fresh(f, d); ok {
						items = append(items, item{f, d, w})
					}
				}
				if len(items) > 1 && g.Bool() && items[len(items)-2].f == f { // same but for one argument
					d := items[len(items)-2].c.Clone()
					switch g.N(3) {
					case 0:
						d.N = c.N
					case 1:
						d.H = c.H
					case 2:
						d.Data[0] = append([]byte(nil), c.Data[0]...)
					}
					if w, ok := fresh(f, d); ok {
						items = append(items, item{f, d, w})
					}
				}
			}
			if len(clients[f]) < 2 {
				clients[f] = append(clients[f], f.New())
			}
		}
		var history []string
		var keep []kept
		for k := 0; k < g.In(20, 45); k++ {
			it := items[g.N(len(items))]
			cl := clients[it.f]
			call := cl[g.N(len(cl))]
			var c hx.CallArgs
			var wholes [][]byte
			c.H, c.N = it.c.H, it.c.N
			for _, d := range it.c.Data {
				a, w := guarded(g, d)
				c.Data, wholes = append(c.Data, a), append(wholes, w)
			}
			var w64 []uint64
			if it.c.Edges != nil {
				c.Edges, w64 = guarded64(g, it.c.Edges)
			}
			before := make([][]byte, len(wholes))
			for j := range wholes {
				before[j] = append([]byte(nil), wholes[j]...)
			}
			before64 := append([]uint64(nil), w64...)
			cs := it.c.Case(it.f.Name)
			cs["history"] = append([]string(nil), history...)
			history = append(history, fmt.Sprintf("%s#%d", it.f.Name, slices.IndexFunc(items, func(x item) bool { return x.f == it.f && x.want == it.want })))
			var a hx.Ans
			if !r.Call(it.f.Name, cs, func() { a = call(c) }) {
				return
			}
			r.Eval(true, i, k)
			r.Count("calls", 1)
			if a.OK {
				r.Count("accepted", 1)
			}
			if got := a.String(); got != it.want {
				r.Violate("a result depends on earlier calls or on memory behind the arguments", cs, "got "+got+"; a process of its own: "+it.want)
			}
			for j := range wholes {
				if !bytes.Equal(before[j], wholes[j]) {
					r.Violate("a call modified its argument or the memory around it", cs, fmt.Sprintf("argument %d", j))
				}
			}
			if !slices.Equal(before64, w64) {
				r.Violate("a call modified its argument or the memory around it", cs, "edges")
			}
			// results are independent of each other
			var outs [][]byte
			for _, o := range a.Outs {
				if len(o) > 0 {
					outs = append(outs, o)
				}
			}
			var want [][]byte
			for _, o := range outs {
				want = append(want, append([]byte(nil), o...))
			}
			if len(outs) == 2 {
				r.Count("pairs_of_results", 1)
				scribble(outs[0])
				if !bytes.Equal(outs[1], want[1]) {
					r.Violate("the returned slices share memory", cs, "")
				}
				copy(outs[0], want[0])
			}
			// results are independent of the arguments
			for _, w := range wholes {
				scribble(w)
			}
			for j := range w64 {
				w64[j] = ^w64[j]
			}
			for j := range outs {
				if !bytes.Equal(outs[j], want[j]) {
					r.Violate("a returned slice shares memory with an argument", cs, "")
				}
			}
			// results of earlier calls did not change
			for _, p := range keep {
				for j := range p.outs {
					if !bytes.Equal(p.outs[j], p.want[j]) {
						r.Violate("a slice returned by an earlier call changed", p.cs, "after a later call of "+it.f.Name)
					}
				}
			}
			r.Count("kept_results_rechecked", int64(len(keep)))
			switch g.N(3) {
			case 0: // the caller overwrites what it got
				for _, o := range outs {
					scribble(o)
				}
				r.Count("results_overwritten", int64(len(outs)))
			default:
				keep = append(keep, kept{it.f.Name, outs, want, cs})
				if len(keep) > 12 {
					keep = keep[1:]
				}
			}
		}
		r.Sample("history", strings.Join(history, " "))
	})
	r.Require("calls_of_colliding_keys", 100)
	r.Require("calls", 1200)
	r.Require("accepted", 60)
	r.Require("pairs_of_results", 150)
	r.Require("results_overwritten", 150)
	r.Finish()
}

// collide changes the arguments to others which a careless key - printed or
// joined one after the other, added or xored - does not tell apart.
func collide(g *mon.Rand, d *hx.CallArgs) bool {
	b := d.Data[g.N(len(d.Data))]
	switch g.N(6) {
	case 0: // the digits of height and nonce, joined elsewhere
		n := fmt.Sprint(d.N)
		switch {
		case d.H < 39 && len(n) > 1 && n[1] != '0':
			d.H = d.H*10 + uint64(n[0]-'0')
			n = n[1:]
		case d.H >= 10 && d.H%10 != 0 && len(n) < 19:
			n = fmt.Sprint(d.H%10) + n
			d.H /= 10
		default:
			return false
		}
		fmt.Sscan(n, &d.N)
	case 1: // height and nonce exchanged, or the same sum
		if d.N < 390 {
			d.H, d.N = d.N, d.H
		} else if d.H > 0 {
			d.H--
			d.N++
		}
	case 2: // the same bits of nonce and data flipped
		if len(b) < 8 {
			return false
		}
		at := []int{0, len(b) - 8}[g.N(2)]
		bit := g.N(64)
		d.N ^= 1 << bit
		if g.Bool() {
			b[at+bit/8] ^= 1 << (bit % 8)
		} else {
			b[at+7-bit/8] ^= 1 << (bit % 8)
		}
	case 3: // two bytes or two words exchanged
		n := []int{1, 4, 8}[g.N(3)]
		if len(b) < 2*n {
			return false
		}
		i, j := g.N(len(b)/n)*n, g.N(len(b)/n)*n
		for q := 0; q < n; q++ {
			b[i+q], b[j+q] = b[j+q], b[i+q]
		}
	case 4: // the end of one argument moved to the start of the next
		if len(d.Data) < 2 || len(d.Data[0]) == 0 {
			return false
		}
		n := g.In(1, len(d.Data[0]))
		if g.N(3) > 0 {
			n = 1
		}
		x := d.Data[0]
		d.Data[1] = append(append([]byte(nil), x[len(x)-n:]...), d.Data[1]...)
		d.Data[0] = x[:len(x)-n]
	default: // the same bit of two words flipped
		if len(b) < 16 {
			return false
		}
		n := len(b) / 4
		i, j, bit := g.N(n), g.N(n), g.N(32)
		for _, w := range []int{i, j} {
			b[w*4+bit/8] ^= 1 << (bit % 8)
		}
	}
	return true
}
