//go:build go1.24

package ref

// CuckooParams describes a cycle proof system.
type CuckooParams struct {
	EdgeBits, ProofSize int
	Roo                 bool // Cuckaroo (SipBlock endpoints) instead of Cuckoo
	Legacy              bool // Cuckoo: rotated node hash
	C, D                int  // Cuckaroo: SipHash rounds
}

var (
	Aeternity = CuckooParams{EdgeBits: 29, ProofSize: 42, Legacy: true}
	Cortex    = CuckooParams{EdgeBits: 30, ProofSize: 42, Roo: true, C: 4, D: 8}
)

func (p CuckooParams) Mask() uint64 { return 1<<p.EdgeBits - 1 }

func CuckooKeys(header []byte) (k [4]uint64) {
	h := Blake2b256(header)
	for i := range k {
		for b := 7; b >= 0; b-- {
			k[i] = k[i]<<8 | uint64(h[8*i+b])
		}
	}
	return
}

// Ends gives an edge's endpoints on the two sides.
func (p CuckooParams) Ends(k [4]uint64, edge uint64) (u, v uint64) {
	if p.Roo {
		e := SipBlock(k, edge, p.C, p.D)
		return e & p.Mask(), e >> 32 & p.Mask()
	}
	return SipNode24(p.Mask(), k, edge, 0, p.Legacy), SipNode24(p.Mask(), k, edge, 1, p.Legacy)
}

// CuckooVerdict states which facts hold of a candidate edge list.
type CuckooVerdict struct {
	Length, TooBig, NotAscending       bool
	XorNonZero                         bool
	MaxDegree, MinDegree, Components   int // of the multigraph the edges span
	Valid, Branch, DeadEnd, ShortCycle bool
}

func (p CuckooParams) Check(header []byte, edges []uint64) (v CuckooVerdict) {
	keys := CuckooKeys(header)
	return p.CheckEnds(edges, func(e uint64) (uint64, uint64) { return p.Ends(keys, e) })
}

// CheckEnds judges an edge list in the graph given by a function.
func (p CuckooParams) CheckEnds(edges []uint64, endsOf func(uint64) (uint64, uint64)) (v CuckooVerdict) {
	if len(edges) != p.ProofSize {
		v.Length = true
		return
	}
	type nd struct {
		side int
		v    uint64
	}
	adj := map[nd][]int{}
	ends := make([][2]nd, len(edges))
	var x0, x1 uint64
	for i, e := range edges {
		v.TooBig = v.TooBig || e > p.Mask()
		v.NotAscending = v.NotAscending || i > 0 && e <= edges[i-1]
		a, b := endsOf(e)
		ends[i] = [2]nd{{0, a}, {1, b}}
		x0 ^= a
		x1 ^= b
		for _, n := range ends[i] {
			adj[n] = append(adj[n], i)
		}
	}
	v.XorNonZero = x0|x1 != 0
	v.MinDegree = len(edges) + 1
	for _, l := range adj {
		v.MaxDegree = max(v.MaxDegree, len(l))
		v.MinDegree = min(v.MinDegree, len(l))
	}
	// connected components over edges
	seen := make([]bool, len(edges))
	for s := range edges {
		if seen[s] {
			continue
		}
		v.Components++
		for st := []int{s}; len(st) > 0; {
			e := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[e] {
				continue
			}
			seen[e] = true
			for _, n := range ends[e] {
				st = append(st, adj[n]...)
			}
		}
	}
	v.Branch = v.MaxDegree > 2
	v.DeadEnd = v.MinDegree == 1
	v.ShortCycle = !v.Branch && !v.DeadEnd && v.Components > 1
	v.Valid = !v.TooBig && !v.NotAscending && v.MaxDegree == 2 && v.MinDegree == 2 && v.Components == 1
	return
}

// SipBlockAll is the whole block of 64 edges that starts at base.
func SipBlockAll(k [4]uint64, base uint64, c, d int) (out [64]uint64) {
	s := Sip(k)
	for i := range out {
		s.Absorb(base+uint64(i), c, d)
		out[i] = s.Xor()
	}
	for i := range 63 {
		out[i] ^= out[63]
	}
	return
}
