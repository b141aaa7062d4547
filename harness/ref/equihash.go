//go:build go1.24

package ref

import (
	"encoding/binary"
	"sort"
)

// Equi is an Equihash instance. K+1 must divide N into chunks of 8..25 bits.
type Equi struct {
	N, K     uint32
	Personal string
	Twist    bool
}

func (e Equi) C() uint32       { return e.N / (e.K + 1) }
func (e Equi) perHash() uint32 { return 512 / e.N }
func (e Equi) width() uint32   { return (e.N + 7) / 8 }
func (e Equi) SolLen() int     { return int((uint32(1) << e.K) * (e.C() + 1) / 8) }

// HashBlock is the (twisted) BLAKE2b output that leaf indices g*perHash.. share.
func (e Equi) HashBlock(header []byte, g uint32) []byte {
	pers := binary.LittleEndian.AppendUint32([]byte(e.Personal), e.N)
	pers = binary.LittleEndian.AppendUint32(pers, e.K)
	n := int(e.perHash() * e.width())
	one := func(g uint32) []byte {
		return Blake2b(binary.LittleEndian.AppendUint32(append([]byte{}, header...), g), pers, n)
	}
	if !e.Twist {
		return one(g)
	}
	var sum [16]uint32
	for q := g - g%16; ; q++ {
		h := one(q)
		for i := range sum {
			sum[i] += binary.LittleEndian.Uint32(h[4*i:])
		}
		if q == g {
			break
		}
	}
	out := make([]byte, 64)
	for i, v := range sum {
		binary.LittleEndian.PutUint32(out[4*i:], v)
	}
	for i := 15; i < 64; i += 16 {
		out[i] &= 0xf8
	}
	return out
}

// SplitLeaf cuts one leaf's bytes into K+1 chunks of C bits, big-endian.
func (e Equi) SplitLeaf(b []byte) []uint32 {
	c := e.C()
	out := make([]uint32, e.K+1)
	for i := range out {
		for j := uint32(0); j < c; j++ {
			bit := uint32(i)*c + j
			out[i] = out[i]<<1 | uint32(b[bit/8]>>(7-bit%8))&1
		}
	}
	return out
}

// Leaf is the chunked hash of one index.
func (e Equi) Leaf(header []byte, idx uint32) []uint32 {
	p, w := e.perHash(), e.width()
	h := e.HashBlock(header, idx/p)
	return e.SplitLeaf(h[idx%p*w : idx%p*w+w])
}

// Unpack reads the 2^K big-endian packed (C+1)-bit indices.
func (e Equi) Unpack(sol []byte) []uint32 {
	w := int(e.C() + 1)
	out := make([]uint32, 1<<e.K)
	for i := range out {
		for j := 0; j < w; j++ {
			bit := i*w + j
			out[i] = out[i]<<1 | uint32(sol[bit/8]>>(7-bit%8))&1
		}
	}
	return out
}

func (e Equi) Pack(idx []uint32) []byte {
	w := int(e.C() + 1)
	out := make([]byte, (len(idx)*w+7)/8)
	for i, v := range idx {
		for j := 0; j < w; j++ {
			if v>>(w-1-j)&1 == 1 {
				bit := i*w + j
				out[bit/8] |= 0x80 >> (bit % 8)
			}
		}
	}
	return out
}

// Verdict lists every rule a candidate breaks (empty: valid).
type Verdict struct {
	Length    bool
	Duplicate bool
	Order     []int // tree levels (1 = pairs of leaves) with an order violation
	Collide   []int // tree levels at which some pair fails to collide
	Final     bool
}

func (v Verdict) Valid() bool {
	return !v.Length && !v.Duplicate && len(v.Order) == 0 && len(v.Collide) == 0 && !v.Final
}

func distinct(idx []uint32) bool {
	s := append([]uint32(nil), idx...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	for i := 1; i < len(s); i++ {
		if s[i] == s[i-1] {
			return false
		}
	}
	return true
}

func orderViolations(idx []uint32, k int) (out []int) {
	for l := 1; l <= k; l++ {
		for b := 0; b < len(idx); b += 1 << l {
			if idx[b+1<<(l-1)] <= idx[b] {
				out = append(out, l)
				break
			}
		}
	}
	return
}

// Check judges a solution by the definition: independent global conditions
// on the XOR of every aligned subtree, not the verifier's recursion.
func (e Equi) Check(header, sol []byte) (v Verdict) {
	if len(sol) != e.SolLen() {
		v.Length = true
		return
	}
	return e.CheckIdx(header, e.Unpack(sol))
}

func (e Equi) CheckIdx(header []byte, idx []uint32) (v Verdict) {
	v.Duplicate = !distinct(idx)
	v.Order = orderViolations(idx, int(e.K))
	leaves := make([][]uint32, len(idx))
	for i, x := range idx {
		leaves[i] = e.Leaf(header, x)
	}
	for l := 1; l <= int(e.K); l++ {
		bad := false
		for b := 0; b < len(idx); b += 1 << l {
			var x uint32
			for i := b; i < b+1<<l; i++ {
				x ^= leaves[i][l-1]
			}
			bad = bad || x != 0
		}
		if bad {
			v.Collide = append(v.Collide, l)
		}
	}
	var x uint32
	for i := range leaves {
		x ^= leaves[i][e.K]
	}
	v.Final = x != 0
	return
}
