//go:build go1.24

package hx

import (
	"fmt"
	"slices"
	"strings"

	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/solve"
)

// EquiOK tells whether a parameter set is one Equihash defines: whole chunks,
// whole solution bytes, and a leaf hash that fits BLAKE2b.
func EquiOK(e ref.Equi) bool {
	c := e.C()
	out := 512 / e.N * ((e.N + 7) / 8)
	return e.N%(e.K+1) == 0 && c >= 8 && c <= 25 && (1<<e.K)*(c+1)%8 == 0 && out <= 64 && (!e.Twist || out == 64)
}

// class names the single rule a verdict breaks ("" if valid or several).
func class(v ref.Verdict) string {
	n := len(v.Order) + len(v.Collide)
	if v.Length {
		return "length"
	}
	if v.Duplicate {
		n++
	}
	if v.Final {
		n++
	}
	if n != 1 {
		return ""
	}
	switch {
	case v.Duplicate:
		return "duplicate"
	case v.Final:
		return "final"
	case len(v.Order) == 1:
		return fmt.Sprintf("order_level_%d", v.Order[0])
	}
	return fmt.Sprintf("collision_level_%d", v.Collide[0])
}

func swapSub(s []uint32, l, node int) []uint32 {
	o := append([]uint32(nil), s...)
	w := 1 << l
	copy(o[node*w:], s[node*w+w/2:node*w+w])
	copy(o[node*w+w/2:], s[node*w:node*w+w/2])
	return o
}

// treeMutants derives candidates from an index list of 2^k entries.
func treeMutants(g *mon.Rand, s []uint32, k int, max uint32) (out [][]uint32) {
	for l := 1; l <= k; l++ {
		out = append(out, swapSub(s, l, g.N(len(s)>>l)))
		o := append([]uint32(nil), s...) // left subtree copied to the right
		w, nd := 1<<l, g.N(len(s)>>l)
		copy(o[nd*w+w/2:nd*w+w], s[nd*w:nd*w+w/2])
		out = append(out, o)
		o = append([]uint32(nil), s...) // the whole tree made of one subtree
		for i := 0; i < len(s); i += w {
			copy(o[i:], s[nd*w:nd*w+w])
		}
		out = append(out, o)
		if l < k { // two subtrees of one level exchanged
			o = append([]uint32(nil), s...)
			a, b := g.N(len(s)>>l), g.N(len(s)>>l)
			copy(o[a*w:a*w+w], s[b*w:b*w+w])
			copy(o[b*w:b*w+w], s[a*w:a*w+w])
			out = append(out, o)
		}
	}
	o := append([]uint32(nil), s...)
	slices.Sort(o)
	out = append(out, o)
	o = append([]uint32(nil), s...)
	slices.Reverse(o)
	out = append(out, o)
	for i := 0; i < 4; i++ {
		o = append([]uint32(nil), s...)
		a, b := g.N(len(s)), g.N(len(s))
		switch i {
		case 0:
			o[a], o[b] = o[b], o[a]
		case 1:
			o[a] = o[b]
		case 2:
			o[a] ^= 1 << g.N(25) & max
		case 3:
			o[a] = g.U32() & max
		}
		out = append(out, o)
	}
	return
}

// CheckEqui decides C09 (twist false) or C10 (twist true).
func CheckEqui(r *mon.R, twist bool) {
	judge := func(tag string, e ref.Equi, c *equihash.Client, header, sol []byte) ref.Verdict {
		cs := map[string]any{"tag": tag, "n": e.N, "k": e.K, "personal": e.Personal, "header": H(header), "solution": H(sol)}
		v := e.Check(header, sol)
		var ok bool
		var err error
		h2, s2 := append([]byte(nil), header...), append([]byte(nil), sol...)
		if !r.Call("Verify", cs, func() { ok, err = c.Verify(h2, s2) }) {
			return v
		}
		r.Eval(true, tag, e.N, e.K, e.Personal, header, sol)
		r.Sample(tag, cs)
		if v.Valid() {
			r.Count("valid", 1)
			r.Count("valid_"+tag, 1)
		} else if cl := class(v); cl != "" {
			r.Count("only_"+cl, 1)
		} else {
			r.Count("several_rules_broken", 1)
		}
		switch {
		case ok && err != nil:
			r.Violate("Verify reports success together with an error", cs, err.Error())
		case v.Valid() && !ok:
			r.Violate("a valid solution is refused", cs, fmt.Sprint(err))
		case !v.Valid() && ok:
			r.Violate("an invalid solution is accepted", cs, fmt.Sprintf("%+v", v))
		}
		return v
	}
	full := func(tag string, g *mon.Rand, e ref.Equi, c *equihash.Client, header []byte, s []uint32, deep bool) {
		sol := e.Pack(s)
		judge(tag, e, c, header, sol)
		mx := uint32(1)<<(e.C()+1) - 1
		ms := treeMutants(g, s, int(e.K), mx)
		if !deep {
			for i := range ms {
				j := g.N(i + 1)
				ms[i], ms[j] = ms[j], ms[i]
			}
			ms = ms[:min(len(ms), 8)]
		}
		for _, m := range ms {
			judge(tag, e, c, header, e.Pack(m))
		}
		// byte-level damage
		b := append([]byte(nil), sol...)
		b[g.N(len(b))] ^= 1 << g.N(8)
		judge(tag, e, c, header, b)
		for _, b := range [][]byte{sol[:len(sol)-1], append(append([]byte(nil), sol...), 0), append(append([]byte(nil), sol...), sol...), sol[:g.N(len(sol))], sol[1:], sol[:len(sol)/2], nil} {
			judge(tag, e, c, header, b)
		}
		h := append([]byte(nil), header...)
		if len(h) > 0 {
			h[g.N(len(h))] ^= 1 << g.N(8)
			judge(tag, e, c, h, sol)
			judge(tag, e, c, header[:len(header)-1], sol)
		}
		judge(tag, e, c, append(append([]byte(nil), header...), byte(g.N(2))), sol)
		if len(header) > 500 {
			h := append([]byte(nil), header...)
			h[len(h)-1-g.N(4)] ^= 1
			judge(tag, e, c, h, sol)
			judge(tag, e, c, header[:len(header)/2], sol)
		}
		// another personalization
		e2 := e
		p := []byte(e.Personal)
		if len(p) > 0 && deep {
			p[g.N(len(p))] ^= 1
			e2.Personal = string(p)
			judge(tag, e2, equihash.New(e2.N, e2.K, e2.Personal, e2.Twist), header, sol)
		}
	}

	// small parameter sets, solved here
	var sets []ref.Equi
	cand := [][2]uint32{{48, 5}, {40, 4}, {60, 5}, {60, 4}, {60, 3}, {72, 5}, {72, 8}, {72, 7}, {54, 5}, {63, 6}, {66, 5}, {88, 7}, {80, 4}, {96, 5}, {84, 6}, {112, 7}, {90, 5}, {78, 5}, {32, 3}, {36, 3}, {64, 3}, {64, 7}, {108, 8}, {120, 9}, {120, 7}, {88, 10}}
	if twist {
		cand = [][2]uint32{{32, 3}, {64, 7}, {64, 3}, {63, 6}, {126, 8}, {128, 7}}
	}
	for _, c := range cand {
		e := ref.Equi{N: c[0], K: c[1], Personal: "ZcashPoW", Twist: twist}
		if EquiOK(e) && (r.Thorough() || e.C() <= 16) {
			sets = append(sets, e)
		}
	}
	r.Count("parameter_sets", int64(len(sets)))
	weight := func(e ref.Equi) int {
		n := r.N(60, 700)
		for c := e.C(); c > 9; c-- {
			n = n * 3 / 5
		}
		return max(n, r.N(4, 24))
	}
	type job struct{ e ref.Equi }
	var jobs []job
	for _, e := range sets {
		for i := 0; i < weight(e); i++ {
			jobs = append(jobs, job{e})
		}
	}
	r.Par("small", len(jobs), func(i int, g *mon.Rand) {
		e := jobs[i].e
		e.Personal = []string{"ZcashPoW", "BgoldPoW", "AION0PoW", "ZelProof", string(g.Bytes(8))}[g.N(5)]
		c := equihash.New(e.N, e.K, e.Personal, e.Twist)
		header := g.Bytes([]int{140, 140, 0, 1, 108, g.N(300)}[g.N(6)])
		if i%8 == 5 && e.C() <= 12 { // nothing bounds a header
			l := []int{510, 1022, 2046, 4094, 8190}[g.N(5)] + g.N(5)
			if e.C() <= 9 && g.N(4) == 0 {
				l = []int{16382, 32766, 65534, 100000}[g.N(4)] + g.N(5)
			}
			header = g.Bytes(l)
			r.Count("long_headers", 1)
		}
		tag := fmt.Sprintf("%d,%d", e.N, e.K)
		j := solve.Job{E: e, Header: header, MaxNodes: 3 << e.C(), MaxSol: 6}
		switch i % 4 {
		case 1, 2:
			j.Loose = 1 + g.N(int(e.K)+1)
			j.Mask = 1 << g.N(int(e.C()))
		case 3:
			j.AllowDup = true
		}
		for n, s := range j.Run() {
			full(tag, g, e, c, header, s, n == 0)
		}
		// arbitrary bytes of the right length
		b := make([]byte, e.SolLen())
		switch g.N(3) {
		case 0:
			b = g.Bytes(len(b))
		case 1:
			for q := range b {
				b[q] = 0xff
			}
		}
		judge(tag, e, c, header, b)
	})
	// shipped parameters: committed valid and near-valid solutions
	coins := []struct {
		tag string
		e   ref.Equi
		c   *equihash.Client
	}{
		{"ZEC", ref.Equi{N: 200, K: 9, Personal: "ZcashPoW"}, equihash.NewZCash()},
		{"BTG", ref.Equi{N: 144, K: 5, Personal: "BgoldPoW"}, equihash.NewBitcoinGold()},
		{"ZCL", ref.Equi{N: 192, K: 7, Personal: "ZcashPoW"}, equihash.NewZClassic()},
		{"AION", ref.Equi{N: 210, K: 9, Personal: "AION0PoW"}, equihash.NewAion()},
		{"96,5", ref.Equi{N: 96, K: 5, Personal: "ZcashPoW"}, equihash.New(96, 5, "ZcashPoW", false)},
	}
	if twist {
		coins = coins[:0]
		coins = append(coins, struct {
			tag string
			e   ref.Equi
			c   *equihash.Client
		}{"FLUX", ref.Equi{N: 125, K: 4, Personal: "ZelProof", Twist: true}, equihash.NewFlux()})
	}
	for _, co := range coins {
		ls := Corpus("equihash*.txt", co.tag)
		r.Count("corpus_"+co.tag, int64(len(ls)))
		r.Require("corpus_"+co.tag, 1)
		r.Par("corpus "+co.tag, len(ls)*r.N(1, 6), func(i int, g *mon.Rand) {
			l := ls[i%len(ls)]
			header, sol := Unhex(l[1]), Unhex(l[2])
			if i < len(ls) {
				judge(co.tag, co.e, co.c, header, sol)
			}
			if i%3 == 0 || r.Thorough() {
				full(co.tag, g, co.e, co.c, header, co.e.Unpack(sol), i%6 == 0)
			}
		})
		r.Require("valid_"+co.tag, 1)
		ls = Corpus("equihash*.txt", co.tag+"LEN") // headers of other lengths
		r.Par("lengths "+co.tag, len(ls), func(i int, g *mon.Rand) {
			header := Unhex(strings.TrimSuffix(ls[i][1], "."))
			if v := judge(co.tag, co.e, co.c, header, Unhex(ls[i][2])); v.Valid() {
				r.Count("valid_other_header_lengths", 1)
			}
			if i%4 == 0 {
				full(co.tag, g, co.e, co.c, header, co.e.Unpack(Unhex(ls[i][2])), false)
			}
		})
	}
	if !twist {
		r.Require("valid_other_header_lengths", 10)
	}
	r.Require("valid", 60)
	r.Require("long_headers", 20)
	for _, c := range []string{"duplicate", "final", "order_level_1", "order_level_2", "order_level_3", "collision_level_1", "collision_level_2", "collision_level_3"} {
		r.Require("only_"+c, 5)
	}
}

// CheckBeam decides C11.
func CheckBeam(r *mon.R) {
	c := beamhashiii.NewBeam()
	judge := func(header, sol []byte) {
		cs := map[string]any{"header": H(header), "solution": H(sol)}
		v := ref.BeamCheck(header, sol)
		var ok bool
		var err error
		if !r.Call("Verify", cs, func() { ok, err = c.Verify(append([]byte(nil), header...), append([]byte(nil), sol...)) }) {
			return
		}
		r.Eval(true, header, sol)
		r.Sample("case", cs)
		if v.Valid() {
			r.Count("valid", 1)
		} else if cl := class(v); cl != "" {
			r.Count("only_"+cl, 1)
		} else {
			r.Count("several_rules_broken", 1)
		}
		switch {
		case ok && err != nil:
			r.Violate("Verify reports success together with an error", cs, err.Error())
		case v.Valid() && !ok:
			r.Violate("a valid solution is refused", cs, fmt.Sprint(err))
		case !v.Valid() && ok:
			r.Violate("an invalid solution is accepted", cs, fmt.Sprintf("%+v", v))
		}
	}
	ls := append(Corpus("equihash_kats.txt", "BEAM"), Corpus("beam*.txt", "BEAM")...)
	r.Count("corpus", int64(len(ls)))
	r.Par("corpus", len(ls)*r.N(12, 150), func(i int, g *mon.Rand) {
		l := ls[i%len(ls)]
		header, sol := Unhex(l[1]), Unhex(l[2])
		idx, extra := ref.BeamUnpack(sol), sol[100:]
		if i < len(ls) {
			judge(header, sol)
			// every node swapped, at every level
			for lv := 1; lv <= 5; lv++ {
				for nd := 0; nd < 32>>lv; nd++ {
					judge(header, ref.BeamPack(swapSub(idx, lv, nd), extra))
				}
			}
			for b := 0; b < 32; b++ { // every extra-nonce bit
				m := append([]byte(nil), sol...)
				m[100+b/8] ^= 1 << (b % 8)
				judge(header, m)
			}
		}
		for _, m := range treeMutants(g, idx, 5, 1<<25-1) {
			judge(header, ref.BeamPack(m, extra))
		}
		b := append([]byte(nil), sol...)
		b[g.N(104)] ^= 1 << g.N(8)
		judge(header, b)
		h := append([]byte(nil), header...)
		h[g.N(40)] ^= 1 << g.N(8)
		judge(h, sol)
		for _, b := range [][]byte{sol[:103], append(append([]byte(nil), sol...), 0), sol[:100], sol[:g.N(104)], nil} {
			judge(header, b)
		}
		for _, h := range [][]byte{header[:39], append(append([]byte(nil), header...), 0), header[:32], nil} {
			judge(h, sol)
		}
	})
	// right in all but the length of the header
	ls = Corpus("beam*.txt", "BEAMLEN")
	r.Par("lengths", len(ls), func(i int, g *mon.Rand) {
		header, sol := Unhex(strings.TrimSuffix(ls[i][1], ".")), Unhex(ls[i][2])
		if v := ref.BeamCheck(header, sol); v.Length && len(header) != 40 && len(v.Order)+len(v.Collide) == 0 && !v.Final && !v.Duplicate {
			r.Count("only_the_header_length", 1)
		}
		judge(header, sol)
	})
	r.Require("only_the_header_length", 5)
	// degenerate and arbitrary solutions
	r.Par("arbitrary", r.N(3000, 60000), func(i int, g *mon.Rand) {
		s := g.EdgeBytes(104)
		if g.Bool() {
			idx := make([]uint32, 32)
			x := g.U32() & (1<<25 - 1)
			for k := range idx {
				idx[k] = []uint32{x, uint32(k), x + uint32(k/2), 1<<25 - 1 - uint32(k)}[i/2%4] & (1<<25 - 1)
			}
			s = ref.BeamPack(idx, g.Bytes(4))
		}
		judge(g.EdgeBytes(40), s)
	})
	r.Require("valid", 3)
	r.Require("only_order_level_5", 3) // below level 5 the leaf mixing makes a swap change the hashes as well
}
