//go:build go1.24

// c29js is the part of c29 that needs no memory protection, for WebAssembly
// (the portable code's path for platforms without unaligned access).
package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/sencha-dev/powkit/internal/common/bitutil"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

func main() {
	r := mon.Start("C29", "portable")
	const size = 1024
	n := 0
	fail := func(what string, v ...int) {
		fmt.Println("FAIL", what, v)
		os.Exit(0)
	}
	for l := 0; l <= r.N(200, 700); l++ {
		g := r.Rand(fmt.Sprint(l))
		for k := 0; k < 40; k++ {
			A, B, D := g.Bytes(size), g.Bytes(size), g.Bytes(size)
			oa, ob, od := g.N(33), g.N(33), g.N(33)
			la, lb := l, l
			if k%4 == 1 {
				la += g.N(40)
			} else if k%4 == 2 {
				lb += g.N(40)
			}
			a, b := A[oa:oa+la:oa+la], B[ob:ob+lb:ob+lb]
			dl := l
			if k%4 == 3 {
				dl += g.N(40)
			}
			if k >= 36 && l > 0 {
				dl = g.N(l)
			}
			d, base, p := D[od:od+dl:od+dl], D, od
			if k >= 30 && k < 33 {
				d, base, p, dl = a, A, oa, la
			} else if k >= 33 && k < 36 {
				d, base, p, dl = b, B, ob, lb
			}
			sa, sb, sd := append([]byte(nil), A...), append([]byte(nil), B...), append([]byte(nil), base...)
			got := -1
			msg := mon.Try(func() { got = bitutil.XORBytes(d, a, b) })
			n++
			if dl < l && msg == "" {
				fail("XORBytes accepts a destination that is too short", l, dl)
			}
			if dl >= l && msg != "" {
				fail("XORBytes panics: "+msg, l, dl)
			}
			if dl >= l && got != l {
				fail("XORBytes returns the wrong length", l, got)
			}
			for i := range base {
				w := sd[i]
				if i >= p && i < p+l && dl >= l {
					w = sa[oa+i-p] ^ sb[ob+i-p]
				}
				if dl < l && i >= p && i < p+dl {
					continue // a prefix may have been written
				}
				if base[i] != w {
					fail("XORBytes wrote a wrong byte", l, i-p)
				}
			}
			if &base[0] != &A[0] && string(A) != string(sa) || &base[0] != &B[0] && string(B) != string(sb) {
				fail("XORBytes changed an operand", l)
			}
		}
	}
	fmt.Println("OK", n, runtime.GOARCH)
}
