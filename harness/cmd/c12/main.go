//go:build go1.24

package main

import (
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

func main() {
	r := mon.Start("C12", "all small bipartite multigraphs (2, 4, 6 edges), random topologies of any proof size (one cycle, several short cycles, figure eights, branches, dead ends with zero XOR) through an injected node function, cycles found in real hash graphs, and the coin's own proofs, each with permuted, duplicated, out-of-range, replaced-edge and other-header mutants; the verdict and every named error judged from graph facts; distinct by (graph, header, edges)")
	hx.CheckCuckoo(r, false)
	r.Finish()
}
