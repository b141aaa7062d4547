//go:build go1.24

package main

import (
	"bytes"
	"fmt"

	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	r := mon.Start("C28", "every input length 0..300 (and random longer), every digest size and personalization length, reusable hashers over long histories with overlapping buffers, boundary words for SipHash, xoshiro and FNV, against independent implementations validated with published vectors; distinct by (function, input)")
	bad := func(fn string, cs any, got, want any) {
		r.Violate(fn+" differs from its specification", cs, fmt.Sprintf("got %x want %x", got, want))
	}
	cmp := func(fn string, in []byte, extra string, got, want []byte) {
		r.Eval(true, fn, in, extra)
		r.Count(fn, 1)
		if !bytes.Equal(got, want) {
			bad(fn, map[string]any{"input": hx.H(in), "extra": extra}, got, want)
		}
	}
	const lens = 301
	r.Par("hash", lens*r.N(12, 60)+r.N(600, 3000), func(i int, g *mon.Rand) {
		n := i % lens
		if i >= lens*r.N(12, 60) {
			n = g.N(1 << g.In(8, 15))
		}
		in := g.EdgeBytes(n)
		arg := append(make([]byte, 0, n+g.N(20)), in...)
		r.Call("hash", map[string]any{"input": hx.H(in)}, func() {
			cmp("Keccak256", in, "", crypto.Keccak256(arg), ref.Keccak256(in))
			cmp("Keccak512", in, "", crypto.Keccak512(arg), ref.Keccak512(in))
			cust := g.Bytes([]int{0, 1, 15, 9, g.N(40), g.N(300)}[g.N(6)])
			size := []int{32, 64, 1, g.In(1, 300), 136, 137}[g.N(6)]
			if len(cust) > 31 && (len(cust)+7)%136 == 0 {
				cust = cust[1:] // its own case below
			}
			cmp("CShake256", in, fmt.Sprintf("%x/%d", cust, size), crypto.CShake256(arg, cust, size), ref.CShake256(in, cust, size))
			cmp("Blake2b256", in, "", crypto.Blake2b256(arg), ref.Blake2b256(in))
			pers := g.Bytes([]int{0, 16, 16, g.N(17)}[g.N(4)])
			size = g.In(1, 64)
			cmp("Blake2b", in, fmt.Sprintf("%x/%d", pers, size), crypto.Blake2b(arg, pers, size), ref.Blake2b(in, pers, size))
			if !bytes.Equal(arg, in) {
				r.Violate("a hash function modified its input", map[string]any{"input": hx.H(in)}, "")
			}
		})
	})
	// all digest sizes and personalization lengths
	r.Par("blake", 64*17, func(i int, g *mon.Rand) {
		in, pers, size := g.Bytes(g.N(300)), g.Bytes(i%17), 1+i/17
		r.Call("Blake2b", size, func() {
			cmp("Blake2b", in, fmt.Sprintf("%x/%d", pers, size), crypto.Blake2b(in, pers, size), ref.Blake2b(in, pers, size))
		})
	})
	// customization strings that fill the padding block exactly
	r.Par("cshake aligned", 40, func(i int, g *mon.Rand) {
		in, cust, size := g.Bytes(g.N(300)), g.Bytes(136*(1+i%3)-7), g.In(1, 200)
		r.Call("CShake256", size, func() {
			got, want := crypto.CShake256(in, cust, size), ref.CShake256(in, cust, size)
			r.Eval(true, "CShake256 aligned", in, cust)
			if bytes.Equal(got, want) {
				return
			}
			if bytes.Equal(got, ref.CShake256Padded(in, cust, size)) {
				r.Known("CShake256 pads an already aligned customization prefix with one more block", map[string]any{"custom_len": len(cust)})
				return
			}
			bad("CShake256", map[string]any{"input": hx.H(in), "custom": hx.H(cust), "size": size}, got, want)
		})
	})
	// reusable hashers: long histories, any overlap of destination and source
	r.Par("hasher", r.N(1000, 6000), func(i int, g *mon.Rand) {
		h, n, f := crypto.NewKeccak256Hasher(), 32, ref.Keccak256
		if i%2 == 1 {
			h, n, f = crypto.NewKeccak512Hasher(), 64, ref.Keccak512
		}
		buf := g.Bytes(700)
		shadow := append([]byte(nil), buf...)
		for k := 0; k < 60; k++ {
			so, sl := g.N(400), g.N(290)
			if g.N(3) == 0 {
				sl = n
			}
			do := g.N(400)
			switch g.N(3) {
			case 0:
				do = so
			case 1:
				do = max(0, so-g.N(n))
			}
			dl := n + g.N(200)
			cs := map[string]any{"case": i, "step": k, "src": so, "len": sl, "dst": do, "size": n}
			if !r.Call("hasher", cs, func() { h(buf[do:do+dl], buf[so:so+sl]) }) {
				return
			}
			copy(shadow[do:], f(shadow[so:so+sl]))
			r.Eval(true, "hasher", i, k)
			r.Count("hasher_steps", 1)
			if so < do+n && do < so+sl {
				r.Count("hasher_overlaps", 1)
			}
			if !bytes.Equal(buf, shadow) {
				r.Violate("reusable hasher result differs, or it wrote outside its output", cs, "")
				return
			}
		}
	})
	r.Par("f800", r.N(20000, 100000), func(i int, g *mon.Rand) {
		var s [25]uint32
		for k := range s {
			s[k] = g.Edge32()
			if i < 800 {
				s[k] = 0
			}
		}
		if i < 800 {
			s[i/32] = 1 << (i % 32)
		}
		a, b := s, s
		r.Call("KeccakF800", s, func() { crypto.KeccakF800(&a) })
		ref.KeccakF800(&b)
		r.Eval(true, "f800", s)
		r.Count("KeccakF800", 1)
		if a != b {
			bad("KeccakF800", map[string]any{"state": fmt.Sprintf("%08x", s)}, a, b)
		}
	})
	r.Par("words", r.N(60000, 400000), func(i int, g *mon.Rand) {
		k := [4]uint64{g.Edge64(), g.Edge64(), g.Edge64(), g.Edge64()}
		mask := uint64(1)<<g.In(1, 63) - 1
		edge, side := g.Edge64(), uint64(g.N(2))
		cs := map[string]any{"keys": fmt.Sprintf("%x", k), "edge": edge, "side": side, "mask": mask}
		eq := func(fn string, got, want uint64) {
			r.Eval(true, fn, i)
			r.Count(fn, 1)
			if got != want {
				bad(fn, cs, got, want)
			}
		}
		r.Call("word functions", cs, func() {
			h, w := crypto.NewSipHasher(k[0], k[1], k[2], k[3]), ref.Sip(k)
			for n := 0; n < 4; n++ {
				x := g.Edge64()
				switch g.N(3) {
				case 0:
					h.Hash24(x)
					w.Absorb(x, 2, 4)
					eq("Hash24", h.XorLanes(), w.Xor())
				case 1:
					h.Hash48(x)
					w.Absorb(x, 4, 8)
					eq("Hash48", h.XorLanes(), w.Xor())
				case 2:
					h.SipRound()
					w.Round()
					eq("SipRound", h.XorLanes(), w.Xor())
				}
			}
			eq("SipNode24", crypto.SipNode24(mask, k, edge, side), ref.SipNode24(mask, k, edge, side, false))
			eq("SipNode24Legacy", crypto.SipNode24Legacy(mask, k, edge, side), ref.SipNode24(mask, k, edge, side, true))
			if i%8 == 0 {
				for off := uint64(0); off < 64; off++ {
					e := edge&^63 + off
					eq("SipBlock48", crypto.SipBlock48(k, e), ref.SipBlock(k, e, 4, 8))
				}
			}
			x, y := crypto.NewXoshiro256PlusPlusHasher(k[0], k[1], k[2], k[3]), ref.Xoshiro(k)
			for n := 0; n < 20; n++ {
				eq("xoshiro256++", x.Next(), y.Next())
			}
			u, v := g.Edge32(), g.Edge32()
			eq("Fnv1", uint64(crypto.Fnv1(u, v)), uint64(u*16777619^v))
			eq("Fnv1a", uint64(crypto.Fnv1a(u, v)), uint64((u^v)*16777619))
			eq("Fnv1Uint64", crypto.Fnv1Uint64(k[0], k[1]), k[0]*16777619^k[1])
			n := g.N(40)
			m, d := make([]uint32, n), make([]uint32, n+g.N(3))
			for j := range d {
				d[j] = g.Edge32()
			}
			want := make([]uint32, n)
			dc := append([]uint32(nil), d...)
			for j := range m {
				m[j] = g.Edge32()
				want[j] = m[j]*16777619 ^ d[j]
			}
			crypto.FnvHash(m, d)
			r.Eval(true, "FnvHash", i)
			r.Count("FnvHash", 1)
			if !hx.SameWords(m, want) || !hx.SameWords(d, dc) {
				bad("FnvHash", cs, m, want)
			}
		})
		r.Sample("words", cs)
	})
	for _, f := range []string{"Keccak256", "Keccak512", "CShake256", "Blake2b", "Blake2b256", "KeccakF800", "Hash24", "Hash48", "SipRound", "SipNode24", "SipNode24Legacy", "SipBlock48", "xoshiro256++", "Fnv1", "FnvHash", "hasher_overlaps"} {
		r.Require(f, 500)
	}
	r.Finish()
}
