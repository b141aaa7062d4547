//go:build go1.24

package hx

import (
	"bufio"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// Corpus reads the lines of the committed corpus files matching a pattern
// whose first field is tag ("" for all).
func Corpus(pattern, tag string) (out [][]string) {
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_DIR"), "harness", "corpus", pattern))
	sort.Strings(fs)
	for _, f := range fs {
		h, err := os.Open(f)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(h)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			if l := strings.Fields(sc.Text()); len(l) > 1 && (tag == "" || l[0] == tag) {
				out = append(out, l)
			}
		}
		h.Close()
	}
	return
}

func Unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// JudgeCuckoo compares one Verify result with the facts about the edge list.
func JudgeCuckoo(r *mon.R, cs map[string]any, v ref.CuckooVerdict, ok bool, err error) {
	switch {
	case ok && err != nil:
		r.Violate("Verify reports success together with an error", cs, err.Error())
	case v.Valid && !ok:
		r.Violate("a valid cycle is refused", cs, fmt.Sprint(err))
	case !v.Valid && ok:
		r.Violate("an invalid proof is accepted", cs, fmt.Sprintf("%+v", v))
	}
	bad := func(name string, holds bool) {
		r.Count("error_"+name, 1)
		if !holds {
			r.Violate("error "+name+" is returned although its rule is not violated", cs, fmt.Sprintf("%+v", v))
		}
	}
	switch {
	case err == nil:
	case errors.Is(err, cuckoo.ErrPowTooBig):
		bad("too_big", v.TooBig)
	case errors.Is(err, cuckoo.ErrPowTooSmall):
		bad("too_small", v.NotAscending)
	case errors.Is(err, cuckoo.ErrPowNotMatching):
		bad("not_matching", v.XorNonZero)
	case errors.Is(err, cuckoo.ErrPowBranch):
		bad("branch", v.MaxDegree > 2)
	case errors.Is(err, cuckoo.ErrPowDeadEnd):
		bad("dead_end", v.MinDegree == 1)
	case errors.Is(err, cuckoo.ErrPowShortCycle):
		bad("short_cycle", v.Components > 1)
	default:
		r.Count("error_other", 1)
		if !v.Length {
			r.Violate("an edge list of the proof length is refused with an unnamed error", cs, err.Error())
		}
	}
	if v.Valid {
		r.Count("valid_proofs", 1)
	} else {
		r.Count("invalid_proofs", 1)
	}
}

type cuckGraph struct {
	p      ref.CuckooParams
	header []byte
	keys   [4]uint64
	ends   [][2]uint64
}

func newCuckGraph(p ref.CuckooParams, header []byte) *cuckGraph {
	g := &cuckGraph{p: p, header: header, keys: ref.CuckooKeys(header)}
	n := uint64(1) << p.EdgeBits
	g.ends = make([][2]uint64, n)
	for e := uint64(0); e < n; e++ {
		if p.Roo {
			blk := ref.SipBlockAll(g.keys, e, p.C, p.D)
			for i := uint64(0); i < 64 && e+i < n; i++ {
				g.ends[e+i] = [2]uint64{blk[i] & p.Mask(), blk[i] >> 32 & p.Mask()}
			}
			e += 63
			continue
		}
		g.ends[e][0], g.ends[e][1] = p.Ends(g.keys, e)
	}
	return g
}

// cycles lists cycles (ascending edge lists) of up to maxLen edges.
func (g *cuckGraph) cycles(maxLen, limit int) (out [][]uint64) {
	type nd struct {
		s int
		v uint64
	}
	adj := map[nd][]uint64{}
	for e, x := range g.ends {
		for s := 0; s < 2; s++ {
			adj[nd{s, x[s]}] = append(adj[nd{s, x[s]}], uint64(e))
		}
	}
	// trim leaves
	dead := make([]bool, len(g.ends))
	deg := map[nd]int{}
	for k, l := range adj {
		deg[k] = len(l)
	}
	var q []uint64
	kill := func(e uint64) {
		dead[e] = true
		for s := 0; s < 2; s++ {
			k := nd{s, g.ends[e][s]}
			deg[k]--
			if deg[k] == 1 {
				for _, f := range adj[k] {
					if !dead[f] {
						q = append(q, f)
					}
				}
			}
		}
	}
	for e, x := range g.ends {
		if !dead[e] && (deg[nd{0, x[0]}] == 1 || deg[nd{1, x[1]}] == 1) {
			kill(uint64(e))
		}
		for len(q) > 0 {
			f := q[0]
			q = q[1:]
			if !dead[f] {
				kill(f)
			}
		}
	}
	steps := 0
	for e0 := range g.ends {
		if dead[e0] {
			continue
		}
		start, goal := nd{1, g.ends[e0][1]}, nd{0, g.ends[e0][0]}
		path := []uint64{uint64(e0)}
		on := map[nd]bool{start: true}
		var dfs func(n nd)
		dfs = func(n nd) {
			if steps++; steps > 400000 || len(out) >= limit {
				return
			}
			for _, f := range adj[n] {
				if dead[f] || f <= uint64(e0) || f == path[len(path)-1] {
					continue
				}
				m := nd{1 - n.s, g.ends[f][1-n.s]}
				if m == goal {
					c := append(append([]uint64(nil), path...), f)
					slices.Sort(c)
					out = append(out, c)
					continue
				}
				if on[m] || len(path)+1 >= maxLen {
					continue
				}
				on[m] = true
				path = append(path, f)
				dfs(m)
				path = path[:len(path)-1]
				delete(on, m)
			}
		}
		dfs(start)
	}
	return
}

// CheckCuckoo decides C12 (roo false) or C13 (roo true).
func CheckCuckoo(r *mon.R, roo bool) {
	type tableFn = func(e uint64) (uint64, uint64)
	// mk builds a client over a given graph, or over the real hash.
	mkTable := func(eb, L int, f tableFn) *cuckoo.Client {
		if roo {
			return cuckoo.NewCuckaroo(eb, L, nil, func(_ [4]uint64, e uint64) uint64 {
				u, v := f(e)
				return u | v<<32
			})
		}
		return cuckoo.NewCuckoo(eb, L, func(mask uint64, _ [4]uint64, e, s uint64) uint64 {
			u, v := f(e)
			if s == 1 {
				u = v
			}
			return u & mask
		}, nil)
	}
	run := func(tag string, c *cuckoo.Client, p ref.CuckooParams, header []byte, edges []uint64, f tableFn, extra string) ref.CuckooVerdict {
		cs := map[string]any{"tag": tag, "edge_bits": p.EdgeBits, "proof_size": p.ProofSize, "header": H(header), "edges": append([]uint64(nil), edges...)}
		if extra != "" {
			cs["graph"] = extra
		}
		var ok bool
		var err error
		var v ref.CuckooVerdict
		if f != nil {
			v = p.CheckEnds(edges, f)
		} else {
			v = p.Check(header, edges)
		}
		if r.Call("Verify", cs, func() { ok, err = c.Verify(header, edges) }) {
			r.Eval(true, tag, header, fmt.Sprint(edges), extra)
			r.Sample(tag, cs)
			JudgeCuckoo(r, cs, v, ok, err)
		}
		return v
	}

	// 1. exhaustive small topologies
	exh := func(L, nu, nv int) {
		tot := 1
		for i := 0; i < L; i++ {
			tot *= nu * nv
		}
		p := ref.CuckooParams{EdgeBits: 8, ProofSize: L, Roo: roo}
		ids := []uint64{0, 1, 7, 31, 200, 255}[:L]
		workers := 64
		r.Par(fmt.Sprintf("exh%d", L), workers, func(w int, g *mon.Rand) {
			ends := make([][2]uint64, L)
			f := func(e uint64) (uint64, uint64) {
				for i, x := range ids {
					if x == e {
						return ends[i][0], ends[i][1]
					}
				}
				return 77, 78
			}
			c := mkTable(8, L, f)
			for k := tot * w / workers; k < tot*(w+1)/workers; k++ {
				x := k
				for i := range ends {
					ends[i] = [2]uint64{uint64(x % nu), uint64(x / nu % nv)}
					x /= nu * nv
				}
				v := p.CheckEnds(ids, f)
				var ok bool
				var err error
				cs := map[string]any{"tag": "exhaustive", "edges": ids, "ends": fmt.Sprint(ends)}
				if msg := mon.Try(func() { ok, err = c.Verify(nil, ids) }); msg != "" {
					r.Violate("Verify panicked", cs, msg)
					return
				}
				r.Count("exhaustive_topologies", 1)
				JudgeCuckoo(r, cs, v, ok, err)
			}
			r.Eval(true, "exh", L, w)
		})
	}
	exh(2, 4, 4)
	exh(4, 4, 4)
	if r.Thorough() {
		exh(6, 3, 4)
	} else {
		exh(6, 3, 3)
	}

	// 2. random topologies of every proof size, in the table graph
	r.Par("topology", r.N(30000, 400000), func(i int, g *mon.Rand) {
		L := g.In(1, 24)
		if g.N(4) == 0 {
			L = 42
		}
		if g.N(8) != 0 {
			L += L & 1
		}
		eb := []int{6, 8, 12, 29, 30, 31, 32}[g.N(7)]
		if !roo && g.N(10) == 0 { // a Cuckaroo block holds 32 bits per node
			eb = []int{33, 34, 40, 47, 62, 63}[g.N(6)]
			r.Count("graphs_above_32_bits", 1)
		}
		p := ref.CuckooParams{EdgeBits: eb, ProofSize: L, Roo: roo}
		mask := p.Mask()
		// distinct node labels
		us, vs := map[uint64]bool{}, map[uint64]bool{}
		fresh := func(m map[uint64]bool) uint64 {
			for {
				x := g.U64() & mask
				if !m[x] {
					m[x] = true
					return x
				}
			}
		}
		var ends [][2]uint64
		cycle := func(n int) { // n even
			var u, v []uint64
			for k := 0; k < n/2; k++ {
				u, v = append(u, fresh(us)), append(v, fresh(vs))
			}
			for k := 0; k < n/2; k++ {
				ends = append(ends, [2]uint64{u[k], v[k]}, [2]uint64{u[(k+1)%(n/2)], v[k]})
			}
		}
		kind := g.N(10)
		switch {
		case kind <= 2 || L < 4:
			cycle(L &^ 1)
			kind = 0
		case kind == 3 || kind == 4: // several short cycles
			left := L &^ 1
			for left >= 4 {
				n := 2 * g.In(1, left/2-1)
				cycle(n)
				left -= n
			}
			if left > 0 {
				cycle(left)
			}
		case kind == 5: // figure eight: two cycles sharing a node
			a := 2 * g.In(1, L/2-1)
			cycle(a)
			cycle(L&^1 - a)
			old, nw := ends[a][0], ends[0][0]
			for k := a; k < len(ends); k++ {
				if ends[k][0] == old {
					ends[k][0] = nw
				}
			}
		case kind == 6: // a cycle with one endpoint moved
			cycle(L &^ 1)
			k, s := g.N(len(ends)), g.N(2)
			if g.Bool() {
				ends[k][s] = ends[g.N(len(ends))][s]
			} else {
				ends[k][s] = fresh([]map[uint64]bool{us, vs}[s])
			}
		case kind == 7: // near valid: one bit of one node, twice, so XOR stays zero
			cycle(L &^ 1)
			b, s := uint64(1)<<g.N(eb), g.N(2)
			k, l := g.N(len(ends)), g.N(len(ends))
			ends[k][s] ^= b
			ends[l][s] ^= b
		case kind == 8: // random graph over few nodes
			for k := 0; k < L; k++ {
				ends = append(ends, [2]uint64{uint64(g.N(L/2 + 1)), uint64(g.N(L/2 + 1))})
			}
		default: // paths whose labels XOR to zero
			x0, x1 := uint64(0), uint64(0)
			for k := 0; k < L-1; k++ {
				e := [2]uint64{fresh(us), fresh(vs)}
				if k > 0 && g.Bool() {
					s := g.N(2)
					e[s] = ends[k-1][s]
				}
				ends = append(ends, e)
				x0 ^= e[0]
				x1 ^= e[1]
			}
			ends = append(ends, [2]uint64{x0, x1})
		}
		for len(ends) < L {
			ends = append(ends, [2]uint64{fresh(us), fresh(vs)})
		}
		g2 := g.Perm(L)
		sh := make([][2]uint64, L)
		for k, q := range g2 {
			sh[k] = ends[q]
		}
		ends = sh
		// ascending edge numbers
		set := map[uint64]bool{}
		for len(set) < L {
			x := g.U64() & mask
			switch g.N(6) {
			case 0:
				x = uint64(g.N(64))
			case 1:
				x = mask - uint64(g.N(60))
			}
			set[x] = true
		}
		var ids []uint64
		for x := range set {
			ids = append(ids, x)
		}
		slices.Sort(ids)
		tab := map[uint64][2]uint64{}
		for k, x := range ids {
			tab[x] = ends[k]
		}
		noise := uint64(0)
		if roo && eb < 32 {
			noise = (g.U64() >> 32 &^ mask) | (g.U64()>>32&^mask)<<32
		}
		f := func(e uint64) (uint64, uint64) {
			if x, ok := tab[e]; ok {
				return x[0], x[1]
			}
			return mon.NewRand(e, "u").U64() & mask, mon.NewRand(e, "v").U64() & mask
		}
		fn := f
		if noise != 0 {
			fn = func(e uint64) (uint64, uint64) {
				u, v := f(e)
				return u | noise&0xffffffff, v | noise>>32
			}
		}
		c := mkTable(eb, L, fn)
		hdr := g.Bytes(g.N(100))
		gs := fmt.Sprint(kind, ends)
		run(fmt.Sprintf("topology %d", kind), c, p, hdr, ids, f, gs)
		r.Count(fmt.Sprintf("topology_kind_%d", kind), 1)
		// order and range mutants of the same graph
		mut := append([]uint64(nil), ids...)
		switch g.N(6) {
		case 0:
			for k, q := range g.Perm(L) {
				mut[k] = ids[q]
			}
		case 1:
			if L > 1 {
				k := g.N(L - 1)
				mut[k], mut[k+1] = mut[k+1], mut[k]
			}
		case 2:
			slices.Reverse(mut)
		case 3: // an edge beyond the mask aliasing a real one
			k := g.N(L)
			mut[k] |= (mask + 1) << g.N(64-eb)
			x := mut[k]
			tab[x] = tab[ids[k]]
		case 4:
			mut[g.N(L)] = mut[g.N(L)]
		case 5:
			mut = append(mut[:g.N(L)], make([]uint64, g.N(3))...)
		}
		run("mutant", c, p, hdr, mut, f, gs)
	})

	// 3. real hash, small graphs
	found := map[int]int{}
	_ = found
	type flavour struct {
		mk func(eb, L int) *cuckoo.Client
		p  ref.CuckooParams
	}
	fl := []flavour{
		{func(eb, L int) *cuckoo.Client { return cuckoo.NewCuckoo(eb, L, crypto.SipNode24Legacy, nil) }, ref.CuckooParams{Legacy: true}},
		{func(eb, L int) *cuckoo.Client { return cuckoo.NewCuckoo(eb, L, crypto.SipNode24, nil) }, ref.CuckooParams{}},
	}
	if roo {
		fl = []flavour{{func(eb, L int) *cuckoo.Client { return cuckoo.NewCuckaroo(eb, L, nil, crypto.SipBlock48) }, ref.CuckooParams{Roo: true, C: 4, D: 8}}}
	}
	r.Par("real", r.N(400, 6000), func(i int, g *mon.Rand) {
		f := fl[g.N(len(fl))]
		p := f.p
		p.EdgeBits = g.In(6, 12)
		hl := g.N(200)
		if i%8 == 3 { // nothing bounds a header
			hl = []int{128, 256, 510, 1022, 2046, 4094, 8190, 16382, 65534, 131070}[g.N(10)] + g.N(5)
			r.Count("long_headers", 1)
		}
		gr := newCuckGraph(p, g.Bytes(hl))
		cyc := gr.cycles(60, 40)
		for _, cy := range cyc {
			q := p
			q.ProofSize = len(cy)
			c := f.mk(p.EdgeBits, len(cy))
			if v := run("real cycle", c, q, gr.header, cy, nil, ""); v.Valid {
				r.Count("real_cycles", 1)
				if len(cy) == 42 {
					r.Count("real_42_cycles", 1)
				}
			}
			m := append([]uint64(nil), cy...)
			for k, x := range g.Perm(len(cy)) {
				m[k] = cy[x]
			}
			run("real permuted", c, q, gr.header, m, nil, "")
			m = append([]uint64(nil), cy...)
			m[g.N(len(m))] = g.U64() & p.Mask()
			slices.Sort(m)
			run("real replaced edge", c, q, gr.header, m, nil, "")
			h := append([]byte(nil), gr.header...)
			if len(h) > 0 {
				h[g.N(len(h))] ^= 1 << g.N(8)
			}
			run("real other header", c, q, h, cy, nil, "")
			if len(h) > 0 {
				h = append([]byte(nil), gr.header...)
				h[len(h)-1] ^= 1
				run("real other end of the header", c, q, h, cy, nil, "")
			}
			run("real longer header", c, q, append(append([]byte(nil), gr.header...), 0), cy, nil, "")
		}
		// unions of two cycles
		for a := range cyc {
			for b := range a {
				u := append(append([]uint64(nil), cyc[a]...), cyc[b]...)
				slices.Sort(u)
				u = slices.Compact(u)
				q := p
				q.ProofSize = len(u)
				run("real union", f.mk(p.EdgeBits, len(u)), q, gr.header, u, nil, "")
			}
		}
	})

	// 4. the coin itself
	coin, p, c := "AE", ref.Aeternity, cuckoo.NewAeternity()
	if roo {
		coin, p, c = "CTXC", ref.Cortex, cuckoo.NewCortex()
	}
	vec := Corpus("cuckoo*.txt", coin)
	r.Par("coin", len(vec)*r.N(60, 600), func(i int, g *mon.Rand) {
		l := vec[i%len(vec)]
		hdr := Unhex(l[1])
		ids := Edges(l[2])
		mut := append([]uint64(nil), ids...)
		h := append([]byte(nil), hdr...)
		n := len(ids)
		switch k := i / len(vec); {
		case k == 0:
		case k%9 == 1:
			for k, q := range g.Perm(n) {
				mut[k] = ids[q]
			}
		case k%9 == 2:
			k := g.N(n - 1)
			mut[k], mut[k+1] = mut[k+1], mut[k]
		case k%9 == 3:
			mut[g.N(n)] ^= 1 << g.N(p.EdgeBits)
			slices.Sort(mut)
		case k%9 == 4:
			mut[n-1] |= 1 << g.In(p.EdgeBits, 63)
		case k%9 == 5:
			h[g.N(len(h))] ^= 1 << g.N(8)
		case k%9 == 6:
			mut = mut[:g.N(n)]
		case k%9 == 7:
			mut = append(mut, p.Mask())
		case k%9 == 8:
			mut[g.N(n)] = mut[g.N(n)]
		}
		if v := run("coin", c, p, h, mut, nil, ""); v.Valid {
			r.Count("coin_proofs", 1)
		}
	})
	r.Require("coin_proofs", 3)
	r.Require("real_cycles", 200)
	for _, e := range []string{"too_big", "too_small", "not_matching", "branch", "dead_end", "short_cycle"} {
		r.Count("error_"+e, 0)
	}
	r.Require("valid_proofs", 2000)
	if !roo {
		r.Require("graphs_above_32_bits", 200)
	}
	r.Require("exhaustive_topologies", 500000)
}

// Edges parses a comma separated hexadecimal edge list.
func Edges(s string) (ids []uint64) {
	for _, s := range strings.Split(s, ",") {
		x, err := strconv.ParseUint(s, 16, 64)
		if err != nil {
			panic(err)
		}
		ids = append(ids, x)
	}
	return
}
