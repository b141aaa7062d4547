//go:build go1.24

package hx

import (
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// hard are composites that weak primality tests call prime: strong pseudoprimes
// (to base 2, to the first two, three, ... primes), Carmichael numbers, Lucas
// and strong Lucas pseudoprimes, squares of primes.
var hard = []uint64{
	341, 561, 645, 1105, 1387, 1729, 2047, 2465, 2821, 3277, 4033, 4369, 4681, 6601, 8321, 8911, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751,
	1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
	4759123141, 1122004669633, 75792980677, 9080191, 1050535501, 350269456337, 55245642489451, 7999252175582851,
	825265, 321197185, 5394826801, 232250619601, 9746347772161, 1436697831295441, 60977817398996785,
	323, 377, 1159, 1829, 3827, 5459, 5777, 9071, 9179, 10877, 11419, 11663, 13919, 14839, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439, 100127, 113573, 115639, 130139,
	1093 * 1093, 3511 * 3511, 251 * 251, 257 * 257, 65521 * 65521, 65537 * 65537, 46337 * 46341, 16777213 * 16777213,
}

// HardRows draws a row count whose primality is easily misjudged.
func HardRows(g *mon.Rand) uint64 {
	prime := func(from uint64) uint64 {
		for from |= 1; !ref.IsPrime(from); from += 2 {
		}
		return from
	}
	switch g.N(6) {
	case 0, 1: // p * ((p-1)*m + 1), both prime: pseudoprime to many bases
		m := uint64(g.In(2, 5))
		for {
			p := prime(5 + g.U64()>>g.In(40, 60))
			if q := (p-1)*m + 1; ref.IsPrime(q) {
				return p * q
			}
		}
	case 2: // Carmichael
		for {
			k := 1 + g.U64()>>g.In(50, 62)
			a, b, c := 6*k+1, 12*k+1, 18*k+1
			if ref.IsPrime(a) && ref.IsPrime(b) && ref.IsPrime(c) {
				return a * b * c
			}
		}
	case 3: // two primes of about the same size
		p := prime(uint64(1)<<g.In(4, 27) + g.U64()%64 - 8)
		return p * prime(p+2)
	case 4: // a prime square
		p := prime(3 + g.U64()>>g.In(37, 60))
		return p * p
	}
	return hard[g.N(len(hard))]
}
