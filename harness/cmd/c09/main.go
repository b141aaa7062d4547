//go:build go1.24

package main

import (
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

func main() {
	r := mon.Start("C09", "solutions found by a Wagner solver at small parameter sets and a committed corpus at the shipped ones: valid, and broken in exactly one rule (one loosened collision bit at one level, one final bit, one swapped subtree, shared indices), plus tree, byte, length, header and personalization mutants; the verdict compared with an independent global definition; distinct by (parameters, header, solution)")
	hx.CheckEqui(r, false)
	r.Finish()
}
