//go:build go1.24

package ref

import "encoding/binary"

const (
	octMod = 1032193
	octGen = 11
)

type OctStats struct{ Retries, GcdReductions int }

func octRemap(v uint64, st *OctStats) uint64 {
	e := v%(octMod-2) + 1
	// strip every factor e shares with the group order
	for {
		a, b := e, uint64(octMod-1)
		for b != 0 {
			a, b = b, a%b
		}
		if a == 1 {
			break
		}
		e /= a
		st.GcdReductions++
	}
	return powmod(octGen, e, octMod)
}

// Octopus is the Conflux Octopus hash over this cache's 256-byte dataset pages.
func (c *Cache) Octopus(hash []byte, nonce, datasetSize uint64, st *OctStats) []byte {
	if st == nil {
		st = &OctStats{}
	}
	var k [4]uint64
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(hash[8*i:])
	}
	a, b, w := octRemap(k[0], st), octRemap(k[1], st), octRemap(k[3], st)
	var cc uint64
	for h := k[2]; ; h++ {
		cc = octRemap(h, st)
		if (b*b+4*(octMod-a)*cc)%octMod != 0 { // discriminant
			break
		}
		st.Retries++
	}

	// polynomial coefficients: 32 per thread of this nonce's warp
	var d [1024]uint64
	for t := uint64(0); t < 32; t++ {
		s := Sip(k)
		s.Absorb(nonce-nonce%32+t, 2, 4)
		for j := uint64(0); j < 32; j++ {
			s.Round()
			d[j*32+t] = s.Xor() & 0xffffffff % octMod
		}
	}

	var res [32]uint64
	var acc uint64
	for i := uint64(0); i < 32; i++ {
		p := powmod(w, nonce%32+32*i, octMod)
		x := (a*(p*p%octMod) + b*p + cc) % octMod
		var pv, xp uint64 = 0, 1
		for j := range d { // evaluate in ascending powers
			pv = (pv + d[j]*xp) % octMod
			xp = xp * x % octMod
		}
		res[i] = pv
		acc = acc*fnvPrime ^ pv
	}

	half := Keccak512(append(append([]byte{}, hash...), binary.LittleEndian.AppendUint64(nil, acc)...))
	var mix [64]uint32
	for i := range mix {
		mix[i] = binary.LittleEndian.Uint32(half[4*(i%16):])
	}
	pages := uint32(datasetSize / 256)
	s0 := mix[0]
	for i := uint32(0); i < 32; i++ {
		p := fnv1(s0^i^uint32(res[i]), mix[i]) % pages
		page := c.Items(p, 4)
		for j := range mix {
			mix[j] = fnv1(mix[j], page[j])
		}
	}
	cm := make([]byte, 32)
	for i := 0; i < 8; i++ {
		red := func(o int) uint32 {
			v := mix[o]
			for q := 1; q < 4; q++ {
				v = fnv1(v, mix[o+q])
			}
			return v
		}
		binary.LittleEndian.PutUint32(cm[4*i:], fnv1(red(4*i), red(32+4*i)))
	}
	return Keccak256(append(append([]byte{}, half...), cm...))
}
