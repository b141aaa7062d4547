//go:build go1.24

package ref

// Eaglesong is the RFC 0010 sponge: 43 rounds, rate 256, 32-byte output,
// delimiter 0x06.
func Eaglesong(in []byte) []byte { return EaglesongWith(43, 32, 0x06, in) }

// EaglesongWith is the sponge with another number of rounds (up to 43), number
// of output bytes (a multiple of 32) and delimiter.
func EaglesongWith(rounds, length int, delim byte, in []byte) []byte {
	var s [16]uint32
	// Absorb: the message with the delimiter appended, cut into 32-byte blocks.
	// A word that the message only partly covers holds its bytes right-aligned.
	msg := append(append([]byte{}, in...), delim)
	for off := 0; off < len(msg); off += 32 {
		for w := 0; w < 8; w++ {
			var v uint32
			for b := off + 4*w; b < off+4*w+4 && b < len(msg); b++ {
				v = v<<8 | uint32(msg[b])
			}
			s[w] ^= v
		}
		eaglePermute(rounds, &s)
	}
	var out []byte
	for len(out) < length {
		for _, v := range s[:8] {
			out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
		}
		eaglePermute(rounds, &s)
	}
	return out
}

func eaglePermute(rounds int, s *[16]uint32) {
	for r := 0; r < rounds; r++ {
		var t [16]uint32
		for k := 0; k < 16; k++ {
			for j := 0; j < 16; j++ {
				if eagleMatrix[k]>>j&1 == 1 {
					t[j] ^= s[k]
				}
			}
		}
		for j := range t {
			t[j] = t[j] ^ rol32(t[j], eagleRot[j][0]) ^ rol32(t[j], eagleRot[j][1]) ^ eagleInject[16*r+j]
		}
		for j := 0; j < 16; j += 2 {
			a := rol32(t[j]+t[j+1], 8)
			b := rol32(t[j+1], 24)
			t[j], t[j+1] = a, a+b
		}
		*s = t
	}
}
