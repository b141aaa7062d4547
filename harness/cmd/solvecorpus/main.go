//go:build go1.24

// solvecorpus is the offline tool that made harness/corpus: valid and
// near-valid proofs at the shipped parameters.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/internal/zzverif/solve"
)

var sets = map[string]ref.Equi{
	"ZEC": {N: 200, K: 9, Personal: "ZcashPoW"}, "BTG": {N: 144, K: 5, Personal: "BgoldPoW"},
	"ZCL": {N: 192, K: 7, Personal: "ZcashPoW"}, "AION": {N: 210, K: 9, Personal: "AION0PoW"},
	"FLUX": {N: 125, K: 4, Personal: "ZelProof", Twist: true},
}

// usage: solvecorpus COIN SEED ROUNDS [HEADERLENGTH...] -> lines "coin header
// solution"; with header lengths, valid solutions for headers of those, the tag
// becoming COINLEN and the header ending in a dot.
func main() {
	coin := os.Args[1]
	seed, _ := strconv.Atoi(os.Args[2])
	rounds, _ := strconv.Atoi(os.Args[3])
	g := mon.NewRand(uint64(seed), "corpus "+coin)
	var lens []int
	for _, a := range os.Args[4:] {
		n, _ := strconv.Atoi(a)
		lens = append(lens, n)
	}
	tag, dot := coin, ""
	if len(lens) > 0 {
		rounds *= len(lens)
		tag, dot = tag+"LEN", "."
	}
	for i := 0; i < rounds; i++ {
		t := time.Now()
		if coin == "BEAM" {
			h, ex := g.Bytes(40), g.Bytes(4)
			loose := i % 7
			if len(lens) > 0 {
				h, loose = g.Bytes(lens[i%len(lens)]), 0
			}
			m := uint32(1) << g.N(24)
			ss := solve.BeamJob{Header: h, Extra: ex, Loose: loose, Mask: m, MaxNodes: 1<<25 + 1<<23}.Run()
			for _, s := range ss {
				sol := ref.BeamPack(s, ex)
				fmt.Printf("%s %x%s %x\n", tag, h, dot, sol)
				fmt.Fprintf(os.Stderr, "%s loose %d %+v\n", coin, loose, ref.BeamCheck(h, sol))
			}
			fmt.Fprintln(os.Stderr, i, loose, len(ss), time.Since(t))
			continue
		}
		e := sets[coin]
		h := g.Bytes(140)
		binary.LittleEndian.PutUint32(h, 4)
		loose := i % (int(e.K) + 2)
		if len(lens) > 0 {
			h, loose = g.Bytes(lens[i%len(lens)]), 0
		}
		m := uint32(1) << g.N(int(e.C()))
		ss := solve.Job{E: e, Header: h, Loose: loose, Mask: m, MaxNodes: 1<<(e.C()+1) + 1<<(e.C()-1), MaxSol: 12}.Run()
		for _, s := range ss {
			sol := e.Pack(s)
			fmt.Printf("%s %x%s %x\n", tag, h, dot, sol)
			fmt.Fprintf(os.Stderr, "%s loose %d %+v\n", coin, loose, e.Check(h, sol))
		}
		fmt.Fprintln(os.Stderr, i, loose, len(ss), time.Since(t))
	}
}
