//go:build go1.24

package ref

import "encoding/binary"

// HeavyMatrix derives kHeavyHash's matrix; attempts counts the candidates
// generated. ok is false when the seed can never give a full-rank matrix
// (xoshiro's all-zero state).
func HeavyMatrix(seed []byte) (m [64][64]uint16, attempts int, ok bool) {
	var x Xoshiro
	zero := true
	for i := range x {
		x[i] = binary.LittleEndian.Uint64(seed[8*i:])
		zero = zero && x[i] == 0
	}
	if zero {
		return m, 0, false
	}
	for {
		attempts++
		for i := range m {
			for j := 0; j < 64; j += 16 {
				v := x.Next()
				for k := 0; k < 16; k++ {
					m[i][j+k] = uint16(v>>(4*k)) & 15
				}
			}
		}
		if FullRank(&m) {
			return m, attempts, true
		}
	}
}

// FullRank decides regularity exactly (Gaussian elimination modulo the two
// primes 2^61-1 and 2^31-1; regular modulo either prime means regular).
func FullRank(m *[64][64]uint16) bool { return RankMod(m, 1<<61-1) == 64 || RankMod(m, 1<<31-1) == 64 }

func powmod(a, e, p uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulmod(r, a, p)
		}
		a = mulmod(a, a, p)
	}
	return r
}

// RankMod is the rank modulo the prime p.
func RankMod(m *[64][64]uint16, p uint64) int {
	var a [64][64]uint64
	for i := range m {
		for j := range m[i] {
			a[i][j] = uint64(m[i][j])
		}
	}
	rank := 0
	for c := 0; c < 64; c++ {
		piv := -1
		for r := rank; r < 64; r++ {
			if a[r][c] != 0 {
				piv = r
				break
			}
		}
		if piv < 0 {
			continue
		}
		a[rank], a[piv] = a[piv], a[rank]
		inv := powmod(a[rank][c], p-2, p)
		for r := rank + 1; r < 64; r++ {
			if a[r][c] == 0 {
				continue
			}
			f := mulmod(a[r][c], inv, p)
			for k := c; k < 64; k++ {
				a[r][k] = (a[r][k] + p - mulmod(f, a[rank][k], p)) % p
			}
		}
		rank++
	}
	return rank
}

// HeavyHash is kHeavyHash of (pre-pow hash, timestamp, nonce).
func HeavyHash(hash []byte, ts int64, nonce uint64) ([]byte, bool) {
	m, _, ok := HeavyMatrix(hash)
	if !ok {
		return nil, false
	}
	hdr := append([]byte{}, hash...)
	hdr = binary.LittleEndian.AppendUint64(hdr, uint64(ts))
	hdr = append(hdr, make([]byte, 32)...)
	hdr = binary.LittleEndian.AppendUint64(hdr, nonce)
	h := CShake256(hdr, []byte("ProofOfWorkHash"), 32)
	var v [64]uint32
	for i, b := range h {
		v[2*i], v[2*i+1] = uint32(b>>4), uint32(b&15)
	}
	prod := func(r int) byte {
		var s uint32
		for j, c := range v {
			s += uint32(m[r][j]) * c
		}
		return byte(s >> 10 & 15)
	}
	d := make([]byte, 32)
	for i := range d {
		d[i] = h[i] ^ (prod(2*i)<<4 | prod(2*i+1))
	}
	o := CShake256(d, []byte("HeavyHash"), 32)
	r := make([]byte, 32)
	for i := range o {
		r[31-i] = o[i]
	}
	return r, true
}
