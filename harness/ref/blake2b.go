//go:build go1.24

package ref

import "encoding/binary"

var blakeIV = [8]uint64{
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
}

var blakeSigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

func blakeCompress(h *[8]uint64, block []byte, t uint64, last bool) {
	var m, v [16]uint64
	for i := range m {
		m[i] = binary.LittleEndian.Uint64(block[8*i:])
	}
	copy(v[:8], h[:])
	copy(v[8:], blakeIV[:])
	v[12] ^= t
	if last {
		v[14] = ^v[14]
	}
	for r := 0; r < 12; r++ {
		s := &blakeSigma[r%10]
		for i := 0; i < 8; i++ {
			var a, b, c, d int
			if i < 4 {
				a, b, c, d = i, 4+i, 8+i, 12+i
			} else {
				j := i - 4
				a, b, c, d = j, 4+(j+1)%4, 8+(j+2)%4, 12+(j+3)%4
			}
			va, vb, vc, vd := v[a], v[b], v[c], v[d]
			va += vb + m[s[2*i]]
			vd ^= va
			vd = vd>>32 | vd<<32
			vc += vd
			vb ^= vc
			vb = vb>>24 | vb<<40
			va += vb + m[s[2*i+1]]
			vd ^= va
			vd = vd>>16 | vd<<48
			vc += vd
			vb ^= vc
			vb = vb>>63 | vb<<1
			v[a], v[b], v[c], v[d] = va, vb, vc, vd
		}
	}
	for i := range h {
		h[i] ^= v[i] ^ v[i+8]
	}
}

// Blake2b is unkeyed sequential BLAKE2b with a personalization of up to 16 bytes.
func Blake2b(data, personal []byte, size int) []byte {
	var p [64]byte
	p[0], p[2], p[3] = byte(size), 1, 1
	copy(p[48:64], personal)
	h := blakeIV
	for i := range h {
		h[i] ^= binary.LittleEndian.Uint64(p[8*i:])
	}
	var t uint64
	for len(data) > 128 {
		t += 128
		blakeCompress(&h, data[:128], t, false)
		data = data[128:]
	}
	var block [128]byte
	copy(block[:], data)
	t += uint64(len(data))
	blakeCompress(&h, block[:], t, true)
	var out [64]byte
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return append([]byte(nil), out[:size]...)
}

func Blake2b256(data []byte) []byte { return Blake2b(data, nil, 32) }
