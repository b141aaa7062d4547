//go:build go1.24

// Package solve finds Equihash and BeamHash III solutions, and near-solutions
// that break one chosen rule, with Wagner's algorithm over the reference
// leaf hashes. It supplies workload; verdicts come from package ref.
package solve

import (
	"runtime"
	"sync"

	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func par(n int, f func(lo, hi int)) {
	w := runtime.GOMAXPROCS(0)
	if n < 4096 {
		w = 1
	}
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(n*i/w, n*(i+1)/w)
		}()
	}
	wg.Wait()
}

// order returns a permutation that groups equal keys (keys below 2^bits).
func order(keys []uint32, bits uint32) []uint32 {
	cnt := make([]uint32, 1<<bits+1)
	for _, k := range keys {
		cnt[k+1]++
	}
	for i := 1; i < len(cnt); i++ {
		cnt[i] += cnt[i-1]
	}
	out := make([]uint32, len(keys))
	for i, k := range keys {
		out[cnt[k]] = uint32(i)
		cnt[k]++
	}
	return out
}

// Job describes what to look for.
type Job struct {
	E      ref.Equi
	Header []byte
	// Loose is the rule to relax: 0 none, 1..K the collision at that level,
	// K+1 the final one; only the bits of Mask may then differ.
	Loose    int
	Mask     uint32
	AllowDup bool // keep subtrees that share indices
	MaxNodes int  // list size limit
	MaxSol   int
}

type layer struct{ l, r []uint32 }

// Run returns index lists in canonical order. They satisfy every rule except
// possibly the relaxed one and (with AllowDup) distinctness.
func (j Job) Run() [][]uint32 {
	e := j.E
	c, K := e.C(), int(e.K)
	n := 1 << (c + 1)
	perHash := 512 / e.N
	width := (e.N + 7) / 8
	cols := make([][]uint32, K+1)
	for i := range cols {
		cols[i] = make([]uint32, n)
	}
	par((n+int(perHash)-1)/int(perHash), func(lo, hi int) {
		for g := lo; g < hi; g++ {
			h := e.HashBlock(j.Header, uint32(g))
			for q := 0; q < int(perHash) && g*int(perHash)+q < n; q++ {
				for i, v := range e.SplitLeaf(h[q*int(width) : (q+1)*int(width)]) {
					cols[i][g*int(perHash)+q] = v
				}
			}
		}
	})
	first := make([]uint32, n)
	for i := range first {
		first[i] = uint32(i)
	}
	var layers []layer
	if j.MaxNodes == 0 {
		j.MaxNodes = 4 * n
	}
	if j.MaxSol == 0 {
		j.MaxSol = 64
	}
	expand := func(lv int, node uint32) []uint32 {
		out := []uint32{node}
		for l := lv - 1; l >= 0; l-- {
			var nx []uint32
			for _, x := range out {
				nx = append(nx, layers[l].l[x], layers[l].r[x])
			}
			out = nx
		}
		return out
	}
	var sols [][]uint32
	for lv := 1; lv <= K; lv++ {
		key := cols[lv-1]
		var mask uint32
		if j.Loose == lv {
			mask = j.Mask
		}
		k2 := key
		if mask != 0 {
			k2 = make([]uint32, len(key))
			for i, v := range key {
				k2[i] = v &^ mask
			}
		}
		perm := order(k2, c)
		var la layer
		var nf []uint32
		nc := make([][]uint32, K+1)
		for a := 0; a < len(perm); {
			b := a + 1
			for b < len(perm) && k2[perm[b]] == k2[perm[a]] {
				b++
			}
			for x := a; x < b; x++ {
				for y := x + 1; y < b && y < x+64; y++ {
					p, q := perm[x], perm[y]
					if first[p] == first[q] && !j.AllowDup {
						continue
					}
					if first[p] > first[q] {
						p, q = q, p
					}
					if lv == K {
						d := cols[K][p] ^ cols[K][q]
						if j.Loose == K+1 {
							d &^= j.Mask
						}
						if d != 0 || len(sols) >= j.MaxSol {
							continue
						}
						la.l, la.r = []uint32{p}, []uint32{q}
						layers = append(layers, la)
						s := expand(K, 0)
						layers = layers[:K-1]
						la = layer{}
						if j.AllowDup || distinct(s) {
							sols = append(sols, s)
						}
						continue
					}
					if len(nf) >= j.MaxNodes {
						continue
					}
					nz := uint32(0)
					for i := lv; i <= K; i++ {
						nz |= cols[i][p] ^ cols[i][q]
					}
					if nz == 0 {
						continue // a trivial pair
					}
					for i := lv; i <= K; i++ {
						nc[i] = append(nc[i], cols[i][p]^cols[i][q])
					}
					la.l, la.r, nf = append(la.l, p), append(la.r, q), append(nf, first[p])
				}
			}
			a = b
		}
		if lv < K {
			layers = append(layers, la)
			cols, first = nc, nf
		}
	}
	return sols
}

func distinct(s []uint32) bool {
	m := make(map[uint32]bool, len(s))
	for _, x := range s {
		if m[x] {
			return false
		}
		m[x] = true
	}
	return true
}

// BeamJob is the same for BeamHash III; Loose 1..5 are collisions, 6 the
// final work bits.
type BeamJob struct {
	Header, Extra []byte
	Loose         int
	Mask          uint32
	MaxNodes      int
	Leaves        int // number of leaf indices tried (at most 2^25)
}

// Run returns solutions in canonical order.
func (j BeamJob) Run() [][]uint32 {
	key := ref.BeamKey(j.Header, j.Extra)
	n := j.Leaves
	if n == 0 {
		n = 1 << 25
	}
	if j.MaxNodes == 0 {
		j.MaxNodes = 1 << 25
	}
	work := make([][7]uint64, n)
	par(n, func(lo, hi int) {
		for i := lo; i < hi; i++ {
			work[i] = ref.BeamLeaf(key, uint32(i)).W
		}
	})
	first := make([]uint32, n)
	for i := range first {
		first[i] = uint32(i)
	}
	var layers []layer
	expand := func(lv int, node uint32, lastL, lastR uint32) []uint32 {
		var out []uint32
		if lv == 5 {
			out = []uint32{lastL, lastR}
			lv = 4
		} else {
			out = []uint32{node}
		}
		for l := lv - 1; l >= 0; l-- {
			nx := make([]uint32, 0, 2*len(out))
			for _, x := range out {
				nx = append(nx, layers[l].l[x], layers[l].r[x])
			}
			out = nx
		}
		return out
	}
	var sols [][]uint32
	for r := 1; r <= 5; r++ {
		before, after := ref.BeamRem(r)
		keys := make([]uint32, len(work))
		var mask uint32
		if j.Loose == r {
			mask = j.Mask
		}
		par(len(work), func(lo, hi int) {
			for i := lo; i < hi; i++ {
				nd := ref.BeamNode{W: work[i], Idx: expand(r-1, uint32(i), 0, 0)}
				nd.Mix(before)
				work[i] = nd.W
				keys[i] = uint32(nd.W[0]&0xffffff) &^ mask
			}
		})
		perm := order(keys, 24)
		var la layer
		var nf []uint32
		for a := 0; a < len(perm); {
			b := a + 1
			for b < len(perm) && keys[perm[b]] == keys[perm[a]] {
				b++
			}
			for x := a; x < b; x++ {
				for y := x + 1; y < b; y++ {
					p, q := perm[x], perm[y]
					if first[p] == first[q] {
						continue
					}
					if first[p] > first[q] {
						p, q = q, p
					}
					if r == 5 {
						na, nb := ref.BeamNode{W: work[p]}, ref.BeamNode{W: work[q]}
						m := na.Merge(&nb, after)
						if j.Loose == 6 {
							m.W[0] &^= uint64(j.Mask)
						}
						if m.W == [7]uint64{} {
							if s := expand(5, 0, p, q); distinct(s) {
								sols = append(sols, s)
							}
						}
						continue
					}
					if len(nf) >= j.MaxNodes {
						continue
					}
					la.l, la.r, nf = append(la.l, p), append(la.r, q), append(nf, first[p])
				}
			}
			a = b
		}
		if r < 5 {
			layers = append(layers, la)
			nw := make([][7]uint64, len(nf))
			par(len(nf), func(lo, hi int) {
				for i := lo; i < hi; i++ {
					na, nb := ref.BeamNode{W: work[la.l[i]]}, ref.BeamNode{W: work[la.r[i]]}
					nw[i] = na.Merge(&nb, after).W
				}
			})
			work, first = nw, nf
			runtime.GC()
		}
	}
	return sols
}
