//go:build go1.24

package ref

import "math/bits"

const fnvPrime = 0x01000193

func fnv1(u, v uint32) uint32  { return u*fnvPrime ^ v }
func fnv1a(u, v uint32) uint32 { return (u ^ v) * fnvPrime }

// Sip is a SipHash state as used by the proof-of-work algorithms: keyed
// directly with the four state words.
type Sip [4]uint64

func (s *Sip) Round() {
	s[0] += s[1]
	s[2] += s[3]
	s[1] = bits.RotateLeft64(s[1], 13)
	s[3] = bits.RotateLeft64(s[3], 16)
	s[1] ^= s[0]
	s[3] ^= s[2]
	s[0] = bits.RotateLeft64(s[0], 32)
	s[2] += s[1]
	s[0] += s[3]
	s[1] = bits.RotateLeft64(s[1], 17)
	s[3] = bits.RotateLeft64(s[3], 21)
	s[1] ^= s[2]
	s[3] ^= s[0]
	s[2] = bits.RotateLeft64(s[2], 32)
}

// Absorb runs c compression and d finalization rounds for one nonce word.
func (s *Sip) Absorb(nonce uint64, c, d int) {
	s[3] ^= nonce
	for i := 0; i < c; i++ {
		s.Round()
	}
	s[0] ^= nonce
	s[2] ^= 0xff
	for i := 0; i < d; i++ {
		s.Round()
	}
}

func (s *Sip) Xor() uint64 { return s[0] ^ s[1] ^ s[2] ^ s[3] }

func Sip24(k [4]uint64, nonce uint64) uint64 {
	s := Sip(k)
	s.Absorb(nonce, 2, 4)
	return s.Xor()
}

// SipNode24 is the Cuckoo node hash; legacy rotates the result left by 17.
func SipNode24(mask uint64, k [4]uint64, edge, side uint64, legacy bool) uint64 {
	v := Sip24(k, 2*edge+side)
	if legacy {
		v = bits.RotateLeft64(v, 17)
	}
	return v & mask
}

// SipBlock is the Cuckaroo block hash: one running state over the aligned
// block of 64 edges, every entry XORed with the last one (except the last).
func SipBlock(k [4]uint64, edge uint64, c, d int) uint64 {
	s := Sip(k)
	base := edge &^ 63
	var want, last uint64
	for i := uint64(0); i < 64; i++ {
		s.Absorb(base+i, c, d)
		last = s.Xor()
		if i == edge&63 {
			want = last
		}
	}
	if edge&63 == 63 {
		return want
	}
	return want ^ last
}

// Xoshiro is xoshiro256++.
type Xoshiro [4]uint64

func (x *Xoshiro) Next() uint64 {
	r := bits.RotateLeft64(x[0]+x[3], 23) + x[0]
	t := x[1] << 17
	x[2] ^= x[0]
	x[3] ^= x[1]
	x[1] ^= x[2]
	x[0] ^= x[3]
	x[2] ^= t
	x[3] = bits.RotateLeft64(x[3], 45)
	return r
}

func mulmod(a, b, m uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi%m, lo, m)
	return r
}

// IsPrime is deterministic Miller-Rabin for 64-bit integers.
func IsPrime(n uint64) bool {
	if n < 2 {
		return false
	}
	ps := [...]uint64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
	for _, p := range ps {
		if n%p == 0 {
			return n == p
		}
	}
	d, s := n-1, 0
	for d%2 == 0 {
		d /= 2
		s++
	}
next:
	for _, a := range ps {
		x, e, b := uint64(1), d, a%n
		for e > 0 {
			if e&1 == 1 {
				x = mulmod(x, b, n)
			}
			b = mulmod(b, b, n)
			e >>= 1
		}
		if x == 1 || x == n-1 {
			continue
		}
		for i := 1; i < s; i++ {
			x = mulmod(x, x, n)
			if x == n-1 {
				continue next
			}
		}
		return false
	}
	return true
}
