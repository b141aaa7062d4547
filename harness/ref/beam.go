//go:build go1.24

package ref

import (
	"encoding/binary"
	"math/bits"
)

// BeamKey is the SipHash key of a (header, extra nonce) pair.
func BeamKey(header, extra []byte) (k [4]uint64) {
	pers := append([]byte("Beam-PoW"), 0xc0, 1, 0, 0, 5, 0, 0, 0) // 448, 5
	h := Blake2b(append(append([]byte{}, header...), extra...), pers, 32)
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return
}

// BeamNode is a BeamHash III step element: 448 work bits, little-endian words.
type BeamNode struct {
	W   [7]uint64
	Idx []uint32
}

func BeamLeaf(k [4]uint64, idx uint32) BeamNode {
	var n BeamNode
	for i := range n.W {
		n.W[i] = Sip24(k, uint64(idx)<<3+uint64(i))
	}
	n.Idx = []uint32{idx}
	return n
}

// Mix replaces the low word by the mix of work bits and padded-in indices.
func (n *BeamNode) Mix(remLen int) {
	var t [8]uint64
	copy(t[:], n.W[:])
	pad := ((512 - remLen) + 24) / 25
	for i := 0; i < pad && i < len(n.Idx); i++ {
		for b := 0; b < 25; b++ {
			if p := remLen + 25*i + b; p < 512 && n.Idx[i]>>b&1 == 1 {
				t[p/64] |= 1 << (p % 64)
			}
		}
	}
	var r uint64
	for i, w := range t {
		r += bits.RotateLeft64(w, 29*(i+1)%64)
	}
	n.W[0] = bits.RotateLeft64(r, 24)
}

// Merge combines two mixed nodes: XOR, drop the 24 collision bits, keep remLen.
func (a *BeamNode) Merge(b *BeamNode, remLen int) BeamNode {
	var o BeamNode
	for i := range o.W {
		o.W[i] = a.W[i] ^ b.W[i]
	}
	for i := range o.W {
		o.W[i] >>= 24
		if i < 6 {
			o.W[i] |= o.W[i+1] << 40
		}
	}
	for i := range o.W {
		switch keep := remLen - 64*i; {
		case keep <= 0:
			o.W[i] = 0
		case keep < 64:
			o.W[i] &= 1<<keep - 1
		}
	}
	o.Idx = append(append([]uint32{}, a.Idx...), b.Idx...)
	return o
}

// BeamRem gives the remaining lengths before and after a round (1..5).
func BeamRem(round int) (before, after int) {
	before = 448 - 24*(round-1)
	if round == 5 {
		before -= 64
	}
	after = 448 - 24*round
	if round == 4 {
		after -= 64
	}
	if round == 5 {
		after = 24
	}
	return
}

func BeamUnpack(sol []byte) []uint32 {
	out := make([]uint32, 32)
	for i := range out {
		for b := 0; b < 25; b++ {
			p := 25*i + b
			out[i] |= uint32(sol[p/8]>>(p%8)&1) << b
		}
	}
	return out
}

func BeamPack(idx []uint32, extra []byte) []byte {
	out := make([]byte, 100, 104)
	for i, v := range idx {
		for b := 0; b < 25; b++ {
			p := 25*i + b
			out[p/8] |= byte(v>>b&1) << (p % 8)
		}
	}
	return append(out, extra...)
}

// BeamCheck judges a 40-byte header and 104-byte solution. Collide lists the
// levels at which some pair fails to collide (the tree is built regardless).
func BeamCheck(header, sol []byte) (v Verdict) {
	if len(header) != 40 || len(sol) != 104 {
		v.Length = true
		return
	}
	k := BeamKey(header, sol[100:])
	idx := BeamUnpack(sol)
	v.Duplicate = !distinct(idx)
	v.Order = orderViolations(idx, 5)
	row := make([]BeamNode, 32)
	for i, x := range idx {
		row[i] = BeamLeaf(k, x)
	}
	for r := 1; r <= 5; r++ {
		before, after := BeamRem(r)
		bad := false
		next := make([]BeamNode, len(row)/2)
		for i := range next {
			a, b := &row[2*i], &row[2*i+1]
			a.Mix(before)
			b.Mix(before)
			bad = bad || (a.W[0]^b.W[0])&0xffffff != 0
			next[i] = a.Merge(b, after)
		}
		if bad {
			v.Collide = append(v.Collide, r)
		}
		row = next
	}
	v.Final = row[0].W != [7]uint64{}
	return
}
