//go:build go1.24

// Package ref holds independent executable specifications of everything
// powkit computes. Nothing in it imports powkit or the libraries powkit uses.
package ref

import "encoding/binary"

// Round constants and rotation offsets are derived from the Keccak
// specification (LFSR and the (t+1)(t+2)/2 walk), not copied from a table.
var (
	keccakRC  [24]uint64
	keccakRot [5][5]uint // [x][y]
)

func init() {
	rcBit := func(t int) uint64 {
		r := uint(1)
		for i := 0; i < t%255; i++ {
			r <<= 1
			if r&0x100 != 0 {
				r ^= 0x171
			}
		}
		return uint64(r & 1)
	}
	for ir := 0; ir < 24; ir++ {
		for j := 0; j <= 6; j++ {
			keccakRC[ir] |= rcBit(j+7*ir) << ((1 << uint(j)) - 1)
		}
	}
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		keccakRot[x][y] = uint((t + 1) * (t + 2) / 2)
		x, y = y, (2*x+3*y)%5
	}
}

func rol64(v uint64, n uint) uint64 { n &= 63; return v<<n | v>>((64-n)&63) }
func rol32(v uint32, n uint) uint32 { n &= 31; return v<<n | v>>((32-n)&31) }

// KeccakF1600 applies Keccak-f[1600]; lane (x,y) is a[x+5y].
func KeccakF1600(a *[25]uint64) {
	var c, d [5]uint64
	var b [25]uint64
	for ir := 0; ir < 24; ir++ {
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ rol64(c[(x+1)%5], 1)
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = rol64(a[x+5*y]^d[x], keccakRot[x][y])
			}
		}
		for y := 0; y < 25; y += 5 {
			for x := 0; x < 5; x++ {
				a[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
			}
		}
		a[0] ^= keccakRC[ir]
	}
}

// KeccakF800 applies Keccak-f[800] (32-bit lanes, 22 rounds).
func KeccakF800(a *[25]uint32) {
	var c, d [5]uint32
	var b [25]uint32
	for ir := 0; ir < 22; ir++ {
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ rol32(c[(x+1)%5], 1)
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = rol32(a[x+5*y]^d[x], keccakRot[x][y])
			}
		}
		for y := 0; y < 25; y += 5 {
			for x := 0; x < 5; x++ {
				a[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
			}
		}
		a[0] ^= uint32(keccakRC[ir])
	}
}

func sponge(rate int, suffix byte, data []byte, n int) []byte {
	var st [25]uint64
	for len(data) >= rate {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(data[8*i:])
		}
		keccakF1600Fast(&st)
		data = data[rate:]
	}
	for i, b := range data {
		st[i/8] ^= uint64(b) << (8 * (i % 8))
	}
	st[len(data)/8] ^= uint64(suffix) << (8 * (len(data) % 8))
	st[rate/8-1] ^= 0x80 << 56
	keccakF1600Fast(&st)
	out := make([]byte, n)
	for o := 0; ; {
		for i := 0; i < rate && o < n; i++ {
			out[o] = byte(st[i/8] >> (8 * (i % 8)))
			o++
		}
		if o == n {
			return out
		}
		keccakF1600Fast(&st)
	}
}

func Keccak256(data []byte) []byte { return sponge(136, 0x01, data, 32) }
func Keccak512(data []byte) []byte { return sponge(72, 0x01, data, 64) }
func Sha3_256(data []byte) []byte  { return sponge(136, 0x06, data, 32) }
func Sha3_512(data []byte) []byte  { return sponge(72, 0x06, data, 64) }
func Shake256(data []byte, n int) []byte {
	return sponge(136, 0x1f, data, n)
}

func leftEncode(v uint64) []byte {
	var b []byte
	for {
		b = append([]byte{byte(v)}, b...)
		v >>= 8
		if v == 0 {
			break
		}
	}
	return append([]byte{byte(len(b))}, b...)
}

// CShake256 is NIST SP 800-185 cSHAKE256 with empty function name.
func CShake256(data, custom []byte, n int) []byte {
	if len(custom) == 0 {
		return Shake256(data, n)
	}
	p := leftEncode(136)
	p = append(p, leftEncode(0)...)
	p = append(p, leftEncode(uint64(len(custom))*8)...)
	p = append(p, custom...)
	for len(p)%136 != 0 {
		p = append(p, 0)
	}
	return sponge(136, 0x04, append(p, data...), n)
}

// CShake256Padded is what golang.org/x/crypto before v0.22 computes when the
// encoded customization prefix is a multiple of the rate: one block of zero
// padding too many. It only serves to recognise that known defect exactly.
func CShake256Padded(data, custom []byte, n int) []byte {
	p := leftEncode(136)
	p = append(p, leftEncode(0)...)
	p = append(p, leftEncode(uint64(len(custom))*8)...)
	p = append(p, custom...)
	p = append(p, make([]byte, 136-len(p)%136)...)
	return sponge(136, 0x04, append(p, data...), n)
}
