//go:build go1.24

package mon

import (
	"encoding/binary"
	"hash/fnv"
	"math/bits"
)

// Rand is a splitmix64 stream.
type Rand struct{ s uint64 }

// Rand derives a named stream from the run's seed.
func (r *R) Rand(name string) *Rand { return NewRand(r.Seed, name) }

func NewRand(seed uint64, name string) *Rand {
	f := fnv.New64a()
	f.Write(binary.LittleEndian.AppendUint64(nil, seed))
	f.Write([]byte(name))
	g := &Rand{f.Sum64()}
	g.U64()
	return g
}

func (g *Rand) U64() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (g *Rand) U32() uint32 { return uint32(g.U64() >> 32) }

// N is uniform in [0,n).
func (g *Rand) N(n int) int {
	hi, _ := bits.Mul64(g.U64(), uint64(n))
	return int(hi)
}
func (g *Rand) In(lo, hi int) int { return lo + g.N(hi-lo+1) }
func (g *Rand) Bool() bool        { return g.U64()&1 == 1 }
func (g *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.U64() >> 56)
	}
	return b
}

// Edge64 is biased to boundaries: small values, powers of two plus/minus a
// little, all-ones patterns, repeated bytes, and uniform values.
func (g *Rand) Edge64() uint64 {
	switch g.N(8) {
	case 0:
		return uint64(g.N(70))
	case 1:
		return 1<<g.N(64) + uint64(g.N(5)) - 2
	case 2:
		return ^uint64(g.N(40))
	case 3:
		return uint64(g.N(256)) * 0x0101010101010101
	case 4:
		return g.U64() >> g.N(64)
	case 5:
		return g.U64() << g.N(64)
	}
	return g.U64()
}
func (g *Rand) Edge32() uint32 { return uint32(g.Edge64()) }

// EdgeBytes is n bytes: random, sparse, saturated or patterned.
func (g *Rand) EdgeBytes(n int) []byte {
	b := g.Bytes(n)
	if n == 0 {
		return b
	}
	switch g.N(7) {
	case 0:
		for i := range b {
			b[i] = 0
		}
		b[g.N(n)] = 1 << g.N(8)
	case 1:
		for i := range b {
			b[i] = 0xff
		}
		b[g.N(n)] ^= 1 << g.N(8)
	case 2:
		v := byte(g.U64())
		for i := range b {
			b[i] = v
		}
	case 3:
		for i := 0; i+8 <= n; i += 8 {
			binary.LittleEndian.PutUint64(b[i:], g.Edge64())
		}
	}
	return b
}
func (g *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := g.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
