//go:build go1.24

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/reg"
)

type mat = [64][64]uint16

// specRank is the specification's elimination (double precision, 1e-9). clear
// is false when some decision was closer to the threshold than rounding may
// move it: such a matrix has no verdict everyone must share.
func specRank(m *mat) (full, clear bool, least float64) {
	var a [64][64]float64
	for i := range m {
		for j := range m[i] {
			a[i][j] = float64(m[i][j])
		}
	}
	var used [64]bool
	rank := 0
	clear, least = true, math.Inf(1)
	for c := 0; c < 64; c++ {
		p, top := -1, 0.0
		for r := 0; r < 64; r++ {
			v := math.Abs(a[r][c])
			if used[r] {
				continue
			}
			if v > 1e-10 && v < 4e-9 {
				clear = false
			}
			if p < 0 && v > 1e-9 {
				p = r
			}
			top = max(top, v)
		}
		if p < 0 {
			continue
		}
		least = min(least, top)
		used[p] = true
		rank++
		for r := 0; r < 64; r++ {
			if r == p || used[r] || a[r][c] == 0 {
				continue
			}
			f := a[r][c] / a[p][c]
			for k := c; k < 64; k++ {
				a[r][k] -= f * a[p][k]
			}
		}
	}
	return rank == 64, clear, least
}

// tiny builds a regular matrix whose last pivot is near p: the last row of a
// block is chosen among 16^8 so that its determinant is p times the leading
// minor.
func tiny(g *mon.Rand, p float64) mat {
	var m mat
	for i := 0; i < 56; i++ {
		m[i][i] = uint16(g.In(1, 15))
		if g.Bool() {
			for j := 0; j < i; j++ {
				m[i][j] = uint16(g.N(16))
			}
		}
	}
	var cof [8]float64
	for {
		for i := 56; i < 63; i++ {
			for j := 56; j < 64; j++ {
				m[i][j] = uint16(g.N(16))
			}
		}
		for c := range cof {
			var b [7][7]float64
			for i := range b {
				k := 0
				for j := 0; j < 8; j++ {
					if j != c {
						b[i][k] = float64(m[56+i][56+j])
						k++
					}
				}
			}
			cof[c] = math.Round(det7(b))
			if c%2 == 0 {
				cof[c] = -cof[c]
			}
		}
		if math.Abs(cof[7]) > 1e6 {
			break
		}
	}
	type half struct {
		v float64
		x int
	}
	lists := [2][]half{}
	for s := range lists {
		for x := 0; x < 65536; x++ {
			v := 0.0
			for j := 0; j < 4; j++ {
				v += cof[4*s+j] * float64(x>>(4*j)&15)
			}
			lists[s] = append(lists[s], half{v, x})
		}
		sort.Slice(lists[s], func(i, j int) bool { return lists[s][i].v < lists[s][j].v })
	}
	want := math.Abs(cof[7]) * p
	best, bx, by := math.Inf(1), 0, 0
	j := len(lists[1]) - 1
	for _, h := range lists[0] {
		for j > 0 && lists[1][j].v+h.v > want {
			j--
		}
		for k := j; k <= j+1 && k < len(lists[1]); k++ {
			if s := lists[1][k].v + h.v; math.Abs(s) > 0.5 && math.Abs(s-want) < best {
				best, bx, by = math.Abs(s-want), h.x, lists[1][k].x
			}
		}
	}
	for j := 0; j < 4; j++ {
		m[63][56+j], m[63][60+j] = uint16(bx>>(4*j)&15), uint16(by>>(4*j)&15)
	}
	return m
}

func det7(b [7][7]float64) float64 {
	d := 1.0
	for c := 0; c < 7; c++ {
		p := c
		for r := c; r < 7; r++ {
			if math.Abs(b[r][c]) > math.Abs(b[p][c]) {
				p = r
			}
		}
		if b[p][c] == 0 {
			return 0
		}
		if p != c {
			b[p], b[c] = b[c], b[p]
			d = -d
		}
		d *= b[c][c]
		for r := c + 1; r < 7; r++ {
			f := b[r][c] / b[c][c]
			for k := c; k < 7; k++ {
				b[r][k] -= f * b[c][k]
			}
		}
	}
	return d
}

// rank holds the package's own full-rank decision, when it can be reached,
// against the specification on matrices no seed search will find.
func rank(r *mon.R) {
	f, ok := reg.Get("heavyhash.rank").(func(*[64][64]uint16) int)
	if !ok {
		r.Count("rank_function_not_reachable", 1)
		return
	}
	r.Par("rank", r.N(3000, 40000), func(i int, g *mon.Rand) {
		var m mat
		fill := func() {
			for i := range m {
				for j := range m[i] {
					m[i][j] = uint16(g.N(16))
				}
			}
		}
		kind := []string{"random", "dup_row", "sum_row", "dup_col", "zero_col", "zero_row", "sparse", "tiny", "tiny_permuted", "low_rank", "dup_of_combination"}[i%11]
		switch kind {
		case "random":
			fill()
		case "dup_row":
			fill()
			a, b := two(g)
			m[a] = m[b]
		case "sum_row":
			fill()
			a, b := two(g)
			c, _ := two(g)
			for c == a || c == b {
				c, _ = two(g)
			}
			for j := range m[a] {
				m[a][j] = uint16(g.N(8))
				m[b][j] = uint16(g.N(8))
				m[c][j] = m[a][j] + m[b][j]
			}
		case "dup_col":
			fill()
			a, b := two(g)
			for i := range m {
				m[i][a] = m[i][b]
			}
		case "zero_col":
			fill()
			a := g.N(64)
			for i := range m {
				m[i][a] = 0
			}
		case "zero_row":
			fill()
			m[g.N(64)] = [64]uint16{}
		case "sparse":
			n := g.In(1, 6)
			for i := range m {
				for k := 0; k < n; k++ {
					m[i][g.N(64)] = uint16(g.N(16))
				}
			}
		case "tiny", "tiny_permuted":
			m = tiny(g, math.Pow(10, -float64(g.U64()>>11)/(1<<53)*8))
			if kind == "tiny_permuted" {
				for i := 63; i > 0; i-- {
					j := g.N(i + 1)
					m[i], m[j] = m[j], m[i]
				}
			}
		case "low_rank":
			n := g.In(1, 63)
			fill()
			for i := n; i < 64; i++ {
				m[i] = m[g.N(n)]
			}
		case "dup_of_combination": // row a - row b = row c - row d
			fill()
			p := g.N(60)
			for j := range m[p] {
				x, y, z := g.N(5), g.N(5), g.N(5)
				m[p][j], m[p+1][j], m[p+2][j], m[p+3][j] = uint16(x+y), uint16(y), uint16(x+z), uint16(z)
			}
		}
		want, clear, least := specRank(&m)
		exact := ref.FullRank(&m)
		if !clear || want != exact {
			r.Count("rank_undecided", 1)
			return
		}
		cp := m
		var got int
		cs := map[string]any{"kind": kind, "rows": fmt.Sprint(m)}
		if !r.Call("rank", cs, func() { got = f(&cp) }) {
			return
		}
		r.Eval(true, "rank", fmt.Sprint(m))
		r.Count("rank_"+kind, 1)
		if exact {
			r.Count("rank_regular", 1)
			if least < 1e-4 {
				r.Count("rank_regular_pivot_below_1e-4", 1)
			}
		} else {
			r.Count("rank_singular", 1)
		}
		if (got == 64) != exact {
			r.Violate("a matrix is wrongly taken for regular or singular", cs, fmt.Sprintf("rank %d, regular: %v, smallest pivot %g", got, exact, least))
		}
	})
}

func two(g *mon.Rand) (a, b int) {
	a = g.N(64)
	b = (a + 1 + g.N(63)) % 64
	return
}
