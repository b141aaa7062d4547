//go:build go1.24

// Package flavour produces the transcript of calls that C31 compares between
// builds.
package flavour

import (
	"fmt"
	"os"
	"strings"

	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// World is the same list of functions in every process and build.
type World struct {
	Fns   []hx.Fn
	Algo  map[int]hx.Algo
	Spec  map[int]ref.DagSpec
	Memos map[int]*ref.Memo
	call  []func(hx.CallArgs) hx.Ans
	coins []*dag.DAG
}

// Build makes the same functions in every process.
func Build(r *mon.R) *World {
	w := &World{Algo: map[int]hx.Algo{}, Spec: map[int]ref.DagSpec{}, Memos: map[int]*ref.Memo{}}
	g := r.Rand("worlds")
	for v := 0; v < 4; v++ {
		for _, a := range []hx.Algo{hx.Eth, hx.Kaw, hx.Firo, hx.Oct} {
			s := hx.SmallSpec(g, a)
			if v > 0 { // datasets around and far above 4 GiB
				s.DatasetInit = []uint64{0, 1<<32 - 1<<12, 1 << 36, 1 << 37}[v]
				s.DatasetGrowth = []uint64{0, 1 << 12, 1 << 30, 1 << 32}[v]
				s.Parents = uint32(g.In(1, 30))
			}
			if v > 1 { // epochs longer than 2^32 blocks
				s.Epoch = 1<<33 + uint64(g.N(1000))
				s.SeedEpoch = s.Epoch / uint64(g.In(1, 2))
			}
			k := len(w.Fns)
			w.Algo[k], w.Spec[k], w.Memos[k] = a, s, &ref.Memo{}
			w.Fns = append(w.Fns, hx.Fn{Name: fmt.Sprintf("%s world %d", hx.AlgoName[a], v), Lens: []int{32}, New: func() func(hx.CallArgs) hx.Ans {
				in := hx.New(a, s, hx.Cfg(s, "T", "", 3))
				return func(c hx.CallArgs) hx.Ans {
					m, d, err := in.Compute(c.Data[0], c.H, c.N)
					return hx.Ans{Outs: [][]byte{m, d}, Err: err}
				}
			}})
		}
	}
	w.Fns = append(append(w.Fns, hx.HashFns()...), hx.VerifyFns()...)
	for _, f := range w.Fns {
		w.call = append(w.call, f.New())
	}
	for _, n := range hx.PresetNames {
		w.coins = append(w.coins, hx.Preset(n, "").DAG())
	}
	return w
}

func (w *World) Draw(g *mon.Rand, i int) (k int, c hx.CallArgs) {
	k = i % len(w.Fns)
	c = w.Fns[k].Draw(g)
	if s, ok := w.Spec[k]; ok {
		c.H = uint64(g.N(3))*s.Epoch + g.U64()%s.Epoch
		if g.N(4) == 0 {
			c.H = uint64(g.N(3))*s.Epoch + []uint64{0, s.Epoch - 1}[g.N(2)]
		}
	}
	return
}

// Line is the i-th call and its answer.
func (w *World) Line(i int, g *mon.Rand) string {
	k, c := w.Draw(g, i)
	var a hx.Ans
	m := mon.Try(func() { a = w.call[k](c) })
	if m != "" {
		return "panic: " + strings.ReplaceAll(m, "\n", " | ")
	}
	if a.Err != nil {
		return a.String() + " " + strings.ReplaceAll(a.Err.Error(), "\n", " | ")
	}
	return a.String()
}

// Write puts the first 1/part of the transcript of n calls into a file: one
// line per call, a key and the answer.
func (w *World) Write(r *mon.R, n, part int, file string) error {
	lines := make([]string, n/part)
	r.Par("case", len(lines), func(i int, g *mon.Rand) { lines[i] = fmt.Sprintf("call%d\t%s", i, w.Line(i, g)) })
	return os.WriteFile(file, []byte(strings.Join(append(lines, w.Sizes(r, part)...), "\n")+"\nend\n"), 0o644)
}

// Sizes are the lines about sizes, seeds and primitives.
func (w *World) Sizes(r *mon.R, part int) (out []string) {
	for k, d := range w.coins {
		g := r.Rand("sizes" + fmt.Sprint(k))
		for j := 0; j < r.N(150, 1500)/part; j++ {
			e := uint64(g.N(5000))
			if j < 12 {
				e = uint64(j)*2048 + uint64(j%3) // around the ends of the tables
				if j > 1 {
					e -= 2
				}
			}
			var l string
			h := e*d.EpochLength + uint64(g.N(int(d.EpochLength)))
			if m := mon.Try(func() {
				l = fmt.Sprintf("%s %d: %d %d %d %x", d.Name, e, d.CacheSize(e), d.DatasetSize(e), d.CalcEpoch(h), d.SeedHash(h))
			}); m != "" {
				l = m
			}
			out = append(out, fmt.Sprintf("size%d.%d\t", k, j)+strings.ReplaceAll(l, "\n", " | "))
		}
	}
	for j := 0; j < r.N(1500, 20000)/part; j++ {
		g := r.Rand(fmt.Sprintf("prim#%d", j))
		b := g.Bytes(g.N(300))
		var keys [4]uint64
		for q := range keys {
			keys[q] = g.Edge64()
		}
		k256, k512 := crypto.NewKeccak256Hasher(), crypto.NewKeccak512Hasher()
		o1, o2 := make([]byte, 32), make([]byte, 64)
		k256(o1, b)
		k512(o2, b)
		e := g.Edge64()
		out = append(out, fmt.Sprintf("prim%d\t%x %x %x %x %x %x", j, o1, o2, crypto.Blake2b256(b), crypto.SipNode24Legacy(1<<29-1, keys, e&(1<<29-1), 1), crypto.SipBlock48(keys, e&(1<<30-1)), crypto.SipBlock48(keys, e)))
	}
	return
}
