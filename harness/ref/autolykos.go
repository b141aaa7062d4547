//go:build go1.24

package ref

import (
	"encoding/binary"
	"math/big"
	"sync"
)

// ErgoN is Autolykos v2's table size at a height: 2^26 before block 614400,
// then 5% more (in steps rounded to 100) from there and at every further
// 51200th block, constant from block 4198400 on.
func ErgoN(height uint64) uint32 { return AutolykosN(26, height) }

// AutolykosN is the same for a table of 2^bits to begin with.
func AutolykosN(bits uint, height uint64) uint32 {
	if height > 4198400 {
		height = 4198400
	}
	n := uint32(1) << bits
	for h := uint64(614400); h <= height; h += 51200 {
		n = n / 100 * 105
	}
	return n
}

var ergoM = sync.OnceValue(func() []byte {
	var m []byte
	for i := uint64(0); i < 1024; i++ {
		m = binary.BigEndian.AppendUint64(m, i)
	}
	return m
})

// Autolykos2 is Ergo's hit function with k = 32.
func Autolykos2(msg []byte, height, nonce uint64) []byte {
	return AutolykosKN(32, 26, msg, height, nonce)
}

// AutolykosKN is Autolykos v2 with k elements of a table of 2^bits to begin
// with (Ergo's AutolykosPowScheme(k, n)).
func AutolykosKN(k int, bits uint, msg []byte, height, nonce uint64) []byte {
	n := AutolykosN(bits, height)
	h := binary.BigEndian.AppendUint32(nil, uint32(height))
	cat := func(parts ...[]byte) []byte {
		var o []byte
		for _, p := range parts {
			o = append(o, p...)
		}
		return o
	}
	gen := func(idx uint32) []byte {
		return Blake2b256(cat(binary.BigEndian.AppendUint32(nil, idx), h, ergoM()))[1:]
	}
	m := cat(msg, binary.BigEndian.AppendUint64(nil, nonce))
	pre := binary.BigEndian.Uint64(Blake2b256(m)[24:])
	f := gen(uint32(pre % uint64(n)))
	hh := Blake2b256(cat(f, m))
	sum := new(big.Int)
	for i := 0; i < k; i++ {
		var idx uint32
		for b := 0; b < 4; b++ {
			idx = idx<<8 | uint32(hh[(i+b)%32])
		}
		sum.Add(sum, new(big.Int).SetBytes(gen(idx%n)))
	}
	return Blake2b256(sum.FillBytes(make([]byte, 32)))
}
