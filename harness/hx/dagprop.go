//go:build go1.24

package hx

import (
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// RandSpec makes a small-cache DAG of the algorithm's family: the cache is
// tiny so that it can be generated often, the dataset may be anything.
func RandSpec(g *mon.Rand, a Algo) ref.DagSpec {
	var s ref.DagSpec
	s.Mix = 128
	if a == Oct {
		s.Mix = 256
	}
	s.CacheInit = 64 * 2 * uint64(g.In(2, 400))
	s.CacheGrowth = 64 * 2 * uint64([]int{0, 1, 3, g.N(50)}[g.N(4)])
	page := 2 * s.Mix
	switch g.N(5) {
	case 0:
		s.DatasetInit = page * uint64(g.In(2, 20))
	case 1:
		s.DatasetInit = page * uint64(g.In(100, 1<<20))
	case 2:
		s.DatasetInit = 1<<32 - page*uint64(g.N(4)) + page*uint64(g.N(4))
	case 3:
		s.DatasetInit = page * (uint64(1)<<g.In(20, 28) + uint64(g.N(1000)))
	case 4:
		s.DatasetInit = 1<<30 + page*uint64(g.N(1<<20))
	}
	s.DatasetGrowth = page * uint64([]int{0, 1, 32768, g.N(1 << 16)}[g.N(4)])
	s.Parents = []uint32{1, 2, 15, 16, 17, 64, 256, 512, uint32(g.In(1, 600))}[g.N(9)]
	s.Epoch = []uint64{4, 2, 3, 7, 100, 1300, 30000, 1 << 20, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 60}[g.N(12)]
	s.SeedEpoch = s.Epoch
	switch g.N(5) {
	case 0:
		if s.Epoch > 2 && s.Epoch%2 == 0 {
			s.SeedEpoch /= 2
		}
	case 1:
		s.SeedEpoch = OddSeedEpoch(g, s.Epoch)
	}
	s.Rounds = []int{0, 1, 2, 3, 3, 5}[g.N(6)]
	if a == Kaw || a == Firo {
		s.L1Words = 4096
	}
	return s
}

// OddSeedEpoch picks a seed epoch length that need not divide the epoch length.
// No seed epoch may begin with the second block of an epoch, there the seed of an
// epoch would depend on which of its blocks is meant.
func OddSeedEpoch(g *mon.Rand, epoch uint64) uint64 {
	for try := 0; try < 20 && epoch >= 7 && epoch < 1<<50; try++ {
		se := epoch/5 + 2 + g.U64()%(epoch*4/5)
		if se >= epoch {
			continue
		}
		ok := true
		for e := uint64(0); e < 700 && ok; e++ {
			ok = (e*epoch+1)%se != 0
		}
		if ok {
			return se
		}
	}
	return epoch
}

// RandHeight picks a height whose epoch is small enough to be cheap, at or
// around an epoch boundary half of the time.
func RandHeight(g *mon.Rand, s ref.DagSpec, maxEpoch int) uint64 {
	if s.Epoch >= 1<<60 && maxEpoch > 13 {
		maxEpoch = 13
	}
	e := uint64(g.N(maxEpoch + 1))
	switch g.N(4) {
	case 0:
		return e * s.Epoch
	case 1:
		return e*s.Epoch + s.Epoch - 1
	}
	return e*s.Epoch + g.U64()%s.Epoch
}

// octHashes builds octopus header hashes whose quadratic needs one or more
// discriminant retries.
type octCrafter struct {
	once sync.Once
	inv  map[uint64][]uint64 // generator power -> exponents' seeds h with remap(h) = power
}

var oct octCrafter

const octP = 1032193

func (o *octCrafter) init() {
	o.once.Do(func() {
		o.inv = map[uint64][]uint64{}
		pw := make([]uint64, octP)
		pw[0] = 1
		for i := 1; i < octP; i++ {
			pw[i] = pw[i-1] * 11 % octP
		}
		for h := uint64(0); h < octP-2; h++ {
			e := h + 1
			for {
				a, b := e, uint64(octP-1)
				for b != 0 {
					a, b = b, a%b
				}
				if a == 1 {
					break
				}
				e /= a
			}
			c := pw[e]
			if l := o.inv[c]; len(l) < 8 {
				o.inv[c] = append(l, h)
			}
		}
	})
}

// lift turns a residue into a 64-bit word with that residue mod p-2.
func lift(g *mon.Rand, h uint64) uint64 {
	k := g.U64() / (octP - 2) / 2
	return h + k*(octP-2)
}

// Retry makes a hash for which computeC must retry.
func (o *octCrafter) hash(g *mon.Rand) []byte {
	o.init()
	for {
		h2 := uint64(g.N(octP - 2))
		if g.N(2) == 0 {
			h2 = uint64(g.N(3)) // seeds 1,2,3 map to the same power: several retries
		}
		// find c for this seed by searching the table lazily
		c := remapOf(h2)
		v0 := g.U64()
		a := remapOf(v0)
		need := 4 * a % octP * c % octP
		for try := 0; try < 64; try++ {
			b := g.U64() % octP
			if b*b%octP != need {
				// solve b^2 = need by exponentiation when need is a residue
				b = sqrtMod(need)
				if b == 0 {
					break
				}
			}
			for _, cand := range []uint64{b, octP - b} {
				if l := o.inv[cand]; len(l) > 0 {
					out := make([]byte, 32)
					binary.LittleEndian.PutUint64(out[0:], v0)
					binary.LittleEndian.PutUint64(out[8:], lift(g, l[g.N(len(l))]))
					binary.LittleEndian.PutUint64(out[16:], lift(g, h2))
					binary.LittleEndian.PutUint64(out[24:], g.U64())
					return out
				}
			}
			break
		}
	}
}

func remapOf(v uint64) uint64 {
	e := v%(octP-2) + 1
	for {
		a, b := e, uint64(octP-1)
		for b != 0 {
			a, b = b, a%b
		}
		if a == 1 {
			break
		}
		e /= a
	}
	r, x := uint64(1), uint64(11)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * x % octP
		}
		x = x * x % octP
	}
	return r
}

var (
	sqrtOnce sync.Once
	sqrts    []uint32
)

func sqrtMod(v uint64) uint64 {
	sqrtOnce.Do(func() {
		sqrts = make([]uint32, octP)
		for b := uint64(1); b < octP/2; b++ {
			sqrts[b*b%octP] = uint32(b)
		}
	})
	return uint64(sqrts[v])
}

// DagHash picks a header hash: random, patterned, or algorithm-specific.
func DagHash(g *mon.Rand, a Algo) []byte {
	if a == Oct && g.N(6) == 0 {
		return oct.hash(g)
	}
	return g.EdgeBytes(32)
}

// Observed accumulates what the executions actually exercised.
type Observed struct {
	mu        sync.Mutex
	prog      ref.ProgStats
	retries   int
	multi     int
	residues  [32]bool
	bigData   int
	highBlock int
}

func (o *Observed) add(ps *ref.ProgStats, os *ref.OctStats, nonce, height, size uint64) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for i, v := range ps.Math {
		o.prog.Math[i] += v
	}
	for i, v := range ps.Merge {
		o.prog.Merge[i] += v
	}
	if os.Retries > 0 {
		o.retries++
	}
	if os.Retries > 1 {
		o.multi++
	}
	o.residues[nonce%32] = true
	if size >= 1<<32 {
		o.bigData++
	}
	if height>>32 != 0 {
		o.highBlock++
	}
}

// CheckDag decides "every result equals the specification" for an algorithm
// on custom DAGs and on the coins' presets.
func CheckDag(r *mon.R, a Algo, presets []string) {
	var obs Observed
	eval := func(in *Inst, m *ref.Memo, hash []byte, height, nonce uint64, tag string) {
		var ps ref.ProgStats
		var os ref.OctStats
		arg := append([]byte(nil), hash...)
		var mix, d []byte
		var err error
		cs := Case(in, hash, height, nonce)
		if !r.Call("Compute", cs, func() { mix, d, err = in.Compute(arg, height, nonce) }) {
			return
		}
		wm, wd := in.Expect(m, hash, height, nonce, &ps, &os)
		r.Eval(true, tag, hash, height, nonce, in.Spec.CacheInit, in.Spec.DatasetInit, in.Spec.Parents)
		obs.add(&ps, &os, nonce, height, in.Spec.DatasetSize(in.Spec.EpochOf(height)))
		if !Same(mix, d, err, wm, wd) {
			r.Violate(fmt.Sprintf("%s result differs from the specification", AlgoName[a]), cs,
				fmt.Sprintf("got mix=%x digest=%x err=%v want mix=%x digest=%x", mix, d, err, wm, wd))
		}
		r.Sample(tag, map[string]any{"case": cs, "mix": H(mix), "digest": H(d)})
	}

	// custom DAGs
	specs, per := r.N(64, 640), r.N(14, 40)
	r.Par("custom", specs, func(i int, g *mon.Rand) {
		s := RandSpec(g, a)
		dir := ""
		if i%3 == 0 {
			dir = Tmp("dag")
		}
		in := New(a, s, Cfg(s, "T", dir, g.In(1, 4)))
		m := &ref.Memo{}
		var hash []byte
		for k := 0; k < per; k++ {
			if k%4 == 0 || hash == nil { // several nonces and heights per hash
				hash = DagHash(g, a)
			}
			h := RandHeight(g, s, 5)
			nonce := g.Edge64()
			if a == Oct && g.N(2) == 0 {
				nonce = nonce&^31 | uint64(k%32)
			}
			eval(in, m, hash, h, nonce, "custom")
		}
		r.Count("custom_dags", 1)
	})

	// in volume: large datasets of cheap items, for what only meets in many hashes
	r.Par("volume", r.N(96, 400), func(i int, g *mon.Rand) {
		s := SmallSpec(g, a)
		s.Parents = uint32(g.N(4))
		s.DatasetInit = []uint64{1 << 24, 1 << 30, 1 << 31, 1 << 32, 1 << 34, 1<<36 + 1<<33}[g.N(6)] + g.U64()%(1<<22)
		s.DatasetInit -= s.DatasetInit % (2 * s.Mix)
		s.DatasetGrowth = 2 * s.Mix * uint64(g.N(4))
		in := New(a, s, Cfg(s, "T", "", 2))
		m := &ref.Memo{}
		hash := DagHash(g, a)
		for k := 0; k < r.N(600, 6000); k++ {
			if k%16 == 0 {
				hash = DagHash(g, a)
			}
			eval(in, m, hash, RandHeight(g, s, 3), g.Edge64()^uint64(g.N(1<<16)), "volume")
		}
		r.Count("volume", 1)
	})
	r.Require("volume", 90)

	// the shipped coins, real sizes
	per = r.N(10, 60)
	for _, coin := range presets {
		in := Preset(coin, "")
		var m ref.Memo
		g := r.Rand("preset " + coin)
		epochs := []uint64{0, 1, uint64(g.In(2, 40))}
		if r.Thorough() {
			epochs = append(epochs, uint64(g.In(41, 400)), uint64(g.In(401, 900)), 2044, 2048, 2050)
		}
		for _, e := range epochs {
			e := e
			var done int64
			r.Par(fmt.Sprintf("preset %s %d", coin, e), per, func(i int, g *mon.Rand) {
				h := e*in.Spec.Epoch + g.U64()%in.Spec.Epoch
				switch i {
				case 0:
					h = e * in.Spec.Epoch
				case 1:
					h = e*in.Spec.Epoch + in.Spec.Epoch - 1
				}
				eval(in, &m, DagHash(g, a), h, g.Edge64(), "preset "+coin)
				atomic.AddInt64(&done, 1)
			})
			r.Count("preset_epochs", 1)
		}
	}

	if a == Kaw || a == Firo {
		for i, v := range obs.prog.Math {
			r.Count(fmt.Sprintf("math_op_%d", i), int64(v))
			r.Require(fmt.Sprintf("math_op_%d", i), 1000)
		}
		for i, v := range obs.prog.Merge {
			r.Count(fmt.Sprintf("merge_op_%d", i), int64(v))
			r.Require(fmt.Sprintf("merge_op_%d", i), 1000)
		}
	}
	if a == Oct {
		r.Count("discriminant_retry", int64(obs.retries))
		r.Count("discriminant_multi_retry", int64(obs.multi))
		r.Require("discriminant_retry", 5)
		r.Require("discriminant_multi_retry", 1)
		n := 0
		for _, b := range obs.residues {
			if b {
				n++
			}
		}
		r.Count("warp_residues", int64(n))
		r.Require("warp_residues", 32)
	}
	r.Count("dataset_ge_4GiB", int64(obs.bigData))
	r.Count("height_ge_2^32", int64(obs.highBlock))
	r.Require("dataset_ge_4GiB", 10)
	r.Require("height_ge_2^32", 10)
	r.Require("custom_dags", 60)
	r.Finish()
}
