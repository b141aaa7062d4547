//go:build go1.24

package ref

import (
	"encoding/binary"
	"math/bits"
)

// ProgCfg holds ProgPoW parameters.
type ProgCfg struct {
	Period        uint64
	Lanes, Regs   uint32
	Rounds        uint32
	CacheN, MathN int
	CacheWords    uint32 // L1 words addressed
}

func StdProg(period uint64) ProgCfg { return ProgCfg{period, 16, 32, 64, 11, 18, 4096} }

const fnvBasis = 0x811c9dc5

type kissRng struct{ z, w, jsr, jcong uint32 }

func (k *kissRng) next() uint32 {
	k.z = 36969*(k.z&0xffff) + k.z>>16
	k.w = 18000*(k.w&0xffff) + k.w>>16
	mwc := k.z<<16 + k.w
	k.jsr ^= k.jsr << 17
	k.jsr ^= k.jsr >> 13
	k.jsr ^= k.jsr << 5
	k.jcong = 69069*k.jcong + 1234567
	return (mwc ^ k.jcong) + k.jsr
}

// ProgStats counts which operators a hash executed.
type ProgStats struct {
	Math  [11]int
	Merge [4]int
}

func progMath(a, b, r uint32, st *ProgStats) uint32 {
	op := r % 11
	if st != nil {
		st.Math[op]++
	}
	switch op {
	case 0:
		return a + b
	case 1:
		return a * b
	case 2:
		hi, _ := bits.Mul32(a, b)
		return hi
	case 3:
		if a < b {
			return a
		}
		return b
	case 4:
		return bits.RotateLeft32(a, int(b%32))
	case 5:
		return bits.RotateLeft32(a, -int(b%32))
	case 6:
		return a & b
	case 7:
		return a | b
	case 8:
		return a ^ b
	case 9:
		return uint32(bits.LeadingZeros32(a) + bits.LeadingZeros32(b))
	}
	return uint32(bits.OnesCount32(a) + bits.OnesCount32(b))
}

func progMerge(a *uint32, b, r uint32, st *ProgStats) {
	op := r % 4
	if st != nil {
		st.Merge[op]++
	}
	x := int((r>>16)%31 + 1)
	switch op {
	case 0:
		*a = *a*33 + b
	case 1:
		*a = (*a ^ b) * 33
	case 2:
		*a = bits.RotateLeft32(*a, x) ^ b
	case 3:
		*a = bits.RotateLeft32(*a, -x) ^ b
	}
}

// ProgHash is ProgPoW's hash_mix for one seed: it returns the 32-byte mix hash.
func ProgHash(cfg ProgCfg, height, seed, datasetSize uint64, lookup func(uint32) []uint32, l1 []uint32, st *ProgStats) []byte {
	lo, hi := uint32(seed), uint32(seed>>32)
	z0 := fnv1a(fnvBasis, lo)
	w0 := fnv1a(z0, hi)
	mix := make([][]uint32, cfg.Lanes)
	for l := range mix {
		jsr := fnv1a(w0, uint32(l))
		k := kissRng{z0, w0, jsr, fnv1a(jsr, uint32(l))}
		mix[l] = make([]uint32, cfg.Regs)
		for r := range mix[l] {
			mix[l][r] = k.next()
		}
	}

	prog := height / cfg.Period
	plo, phi := uint32(prog), uint32(prog>>32)
	items := uint32(datasetSize / 256)
	for r := uint32(0); r < cfg.Rounds; r++ {
		// program generator, restarted every round
		var g kissRng
		g.z = fnv1a(fnvBasis, plo)
		g.w = fnv1a(g.z, phi)
		g.jsr = fnv1a(g.w, plo)
		g.jcong = fnv1a(g.jsr, phi)
		dst, src := make([]uint32, cfg.Regs), make([]uint32, cfg.Regs)
		for i := range dst {
			dst[i], src[i] = uint32(i), uint32(i)
		}
		for i := cfg.Regs - 1; i > 0; i-- {
			j := g.next() % (i + 1)
			dst[i], dst[j] = dst[j], dst[i]
			j = g.next() % (i + 1)
			src[i], src[j] = src[j], src[i]
		}
		nd, ns := 0, 0
		nextDst := func() uint32 { v := dst[nd%len(dst)]; nd++; return v }
		nextSrc := func() uint32 { v := src[ns%len(src)]; ns++; return v }

		item := lookup(mix[r%cfg.Lanes][0] % items)
		words := uint32(len(item)) / cfg.Lanes

		for i := 0; i < cfg.CacheN || i < cfg.MathN; i++ {
			if i < cfg.CacheN {
				s, d, sel := nextSrc(), nextDst(), uint32(0)
				sel = g.next()
				for l := range mix {
					progMerge(&mix[l][d], l1[mix[l][s]%cfg.CacheWords], sel, st)
				}
			}
			if i < cfg.MathN {
				sr := g.next() % (cfg.Regs * (cfg.Regs - 1))
				s1, s2 := sr%cfg.Regs, sr/cfg.Regs
				if s2 >= s1 {
					s2++
				}
				sel1 := g.next()
				d := nextDst()
				sel2 := g.next()
				for l := range mix {
					v := progMath(mix[l][s1], mix[l][s2], sel1, st)
					progMerge(&mix[l][d], v, sel2, st)
				}
			}
		}
		ds, sels := make([]uint32, words), make([]uint32, words)
		for i := range ds {
			if i > 0 {
				ds[i] = nextDst()
			}
			sels[i] = g.next()
		}
		for l := range mix {
			off := (uint32(l) ^ r) % cfg.Lanes * words
			for i := range ds {
				progMerge(&mix[l][ds[i]], item[off+uint32(i)], sels[i], st)
			}
		}
	}

	var res [8]uint32
	for i := range res {
		res[i] = fnvBasis
	}
	for l := range mix {
		h := uint32(fnvBasis)
		for _, v := range mix[l] {
			h = fnv1a(h, v)
		}
		res[l%8] = fnv1a(res[l%8], h)
	}
	out := make([]byte, 0, 32)
	for _, v := range res {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}

// Flavour selects the keccak-f[800] padding of a ProgPoW descendant.
type Flavour int

const (
	Plain Flavour = iota // ProgPoW 0.9.4: zero padding
	Kaw
	Firo
)

func padState(f Flavour, st *[25]uint32, from int) {
	switch f {
	case Kaw:
		for i, ch := range "rAVENCOINKAWPOW" {
			if from+i < 25 {
				st[from+i] = uint32(ch)
			}
		}
	case Firo:
		// bit padding 0x...01 directly after the message, 0x80008081 at the end of the rate
		if from == 10 {
			st[10], st[18] = 1, 0x80008081
		} else {
			st[17], st[24] = 1, 0x80008081
		}
	}
}

// ProgPow runs seed absorption, the ProgPoW loop and finalization.
func (c *Cache) ProgPow(f Flavour, cfg ProgCfg, hash []byte, height, nonce, datasetSize uint64, st *ProgStats) (mix, digest []byte) {
	return ProgPowOver(f, cfg, hash, height, nonce, datasetSize, func(i uint32) []uint32 { return c.Items(i, 4) }, c.L1, st)
}

// ProgPowOver is ProgPow over any dataset and L1 cache.
func ProgPowOver(f Flavour, cfg ProgCfg, hash []byte, height, nonce, datasetSize uint64, items func(uint32) []uint32, l1 []uint32, st *ProgStats) (mix, digest []byte) {
	var s [25]uint32
	for i := 0; i < 8; i++ {
		s[i] = binary.LittleEndian.Uint32(hash[4*i:])
	}
	s[8], s[9] = uint32(nonce), uint32(nonce>>32)
	padState(f, &s, 10)
	KeccakF800(&s)
	seed := uint64(s[1])<<32 | uint64(s[0])
	mix = ProgHash(cfg, height, seed, datasetSize, items, l1, st)
	var e [25]uint32
	copy(e[:8], s[:8])
	for i := 0; i < 8; i++ {
		e[8+i] = binary.LittleEndian.Uint32(mix[4*i:])
	}
	padState(f, &e, 16)
	KeccakF800(&e)
	for i := 0; i < 8; i++ {
		digest = binary.LittleEndian.AppendUint32(digest, e[i])
	}
	return mix, digest
}
