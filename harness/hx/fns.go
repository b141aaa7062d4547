//go:build go1.24

package hx

import (
	"fmt"
	"strings"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// CallArgs are the arguments of one public call.
type CallArgs struct {
	Data  [][]byte // hash, message, header, solution
	Edges []uint64
	H, N  uint64
}

func (c CallArgs) Clone() (o CallArgs) {
	o = CallArgs{H: c.H, N: c.N}
	for _, d := range c.Data {
		o.Data = append(o.Data, append([]byte(nil), d...))
	}
	o.Edges = append([]uint64(nil), c.Edges...)
	return
}

func (c CallArgs) Case(fn string) map[string]any {
	m := map[string]any{"function": fn, "height": c.H, "nonce": c.N}
	for i, d := range c.Data {
		if len(d) > 3000 {
			m[fmt.Sprintf("data%d", i)] = fmt.Sprintf("%d bytes, %x...", len(d), d[:32])
		} else {
			m[fmt.Sprintf("data%d", i)] = H(d)
		}
	}
	if c.Edges != nil {
		e := c.Edges
		m["edges_len"] = len(e)
		if len(e) > 64 {
			e = e[:64]
		}
		m["edges"] = e
	}
	return m
}

// Ans is what it returned.
type Ans struct {
	Outs [][]byte
	OK   bool
	Err  error
}

// String is a comparable rendering; messages are not part of the result.
func (a Ans) String() string {
	return fmt.Sprintf("%x ok=%v err=%v", a.Outs, a.OK, a.Err != nil)
}

// Fn is a public Compute or Verify of a client.
type Fn struct {
	Name   string
	Verify bool
	Lens   []int // the only accepted length of each argument; -1: any
	Size   int   // proof length, 0 if it takes no edges
	Mask   uint64
	New    func() func(CallArgs) Ans
	Valid  []CallArgs // some arguments that Verify accepts
}

func comp(f func(h []byte, a, b uint64) ([]byte, []byte, error)) func(CallArgs) Ans {
	return func(c CallArgs) Ans {
		m, d, err := f(c.Data[0], c.H, c.N)
		return Ans{Outs: [][]byte{m, d}, Err: err}
	}
}

// DagFns are the DAG algorithms over small caches. dir returns a storage
// directory ("" for memory).
func DagFns(specs map[Algo]ref.DagSpec, dir string) (out []Fn) {
	for _, a := range []Algo{Eth, Kaw, Firo, Oct} {
		a, s := a, specs[a]
		out = append(out, Fn{Name: AlgoName[a], Lens: []int{32}, New: func() func(CallArgs) Ans {
			return comp(New(a, s, Cfg(s, AlgoName[a], dir, 2)).Compute)
		}})
	}
	return
}

// HashFns are the algorithms without a DAG that compute a digest.
func HashFns() []Fn {
	return []Fn{
		{Name: "autolykos2", Lens: []int{32}, New: func() func(CallArgs) Ans {
			c := autolykos2.NewErgo()
			return func(x CallArgs) Ans {
				d, err := c.Compute(x.Data[0], x.H, x.N)
				return Ans{Outs: [][]byte{d}, Err: err}
			}
		}},
		{Name: "heavyhash", Lens: []int{32}, New: func() func(CallArgs) Ans {
			c := heavyhash.NewKaspa()
			return func(x CallArgs) Ans {
				d, err := c.Compute(x.Data[0], int64(x.H), x.N)
				return Ans{Outs: [][]byte{d}, Err: err}
			}
		}},
		{Name: "eaglesong", Lens: []int{-1}, New: func() func(CallArgs) Ans {
			c := eaglesong.NewNervos()
			return func(x CallArgs) Ans { return Ans{Outs: [][]byte{c.Compute(x.Data[0])}} }
		}},
	}
}

// ExtraFns are clients of the same algorithms with other parameters, as far as
// their constructors take any.
func ExtraFns() (out []Fn) {
	for _, p := range [][2]uint32{{32, 20}, {16, 24}, {32, 12}} {
		p := p
		out = append(out, Fn{Name: fmt.Sprintf("autolykos2_%d_%d", p[0], p[1]), Lens: []int{32}, New: func() func(CallArgs) Ans {
			c := autolykos2.New(p[0], p[1])
			return func(x CallArgs) Ans {
				d, err := c.Compute(x.Data[0], x.H, x.N)
				return Ans{Outs: [][]byte{d}, Err: err}
			}
		}})
	}
	for _, p := range [][4]int{{43, 32, 256, 0x80}, {20, 32, 256, 6}, {43, 64, 256, 6}} {
		p := p
		out = append(out, Fn{Name: fmt.Sprintf("eaglesong_%v", p), Lens: []int{-1}, New: func() func(CallArgs) Ans {
			c := eaglesong.New(p[0], p[1], p[2], 32, byte(p[3]))
			return func(x CallArgs) Ans { return Ans{Outs: [][]byte{c.Compute(x.Data[0])}} }
		}})
	}
	for _, e := range []ref.Equi{{N: 200, K: 9, Personal: "ZcashPoX"}, {N: 192, K: 7, Personal: "BgoldPoW"}, {N: 125, K: 4, Personal: "ZelProog", Twist: true}, {N: 48, K: 5, Personal: "ZcashPoW"}, {N: 96, K: 5, Personal: "ZcashPoW"}} {
		e := e
		out = append(out, Fn{Name: fmt.Sprintf("equihash_%d_%d_%s", e.N, e.K, e.Personal), Verify: true, Lens: []int{-1, int((1 << e.K) * (e.C() + 1) / 8)}, New: func() func(CallArgs) Ans {
			c := equihash.New(uint32(e.N), uint32(e.K), e.Personal, e.Twist)
			return func(x CallArgs) Ans {
				ok, err := c.Verify(x.Data[0], x.Data[1])
				return Ans{OK: ok, Err: err}
			}
		}})
	}
	out = append(out, Fn{Name: "beamhashiii_other", Verify: true, Lens: []int{40, 104}, New: func() func(CallArgs) Ans {
		c := beamhashiii.New(150, 5, "Bean-PoW")
		return func(x CallArgs) Ans {
			ok, err := c.Verify(x.Data[0], x.Data[1])
			return Ans{OK: ok, Err: err}
		}
	}})
	return
}

// VerifyFns are the algorithms that verify a proof.
func VerifyFns() (out []Fn) {
	ver := func(f func(h, s []byte) (bool, error)) func(CallArgs) Ans {
		return func(x CallArgs) Ans {
			ok, err := f(x.Data[0], x.Data[1])
			return Ans{OK: ok, Err: err}
		}
	}
	eq := func(name string, e ref.Equi, mk func() *equihash.Client) {
		f := Fn{Name: "equihash_" + name, Verify: true, Lens: []int{-1, int((1 << e.K) * (e.C() + 1) / 8)}, New: func() func(CallArgs) Ans { return ver(mk().Verify) }}
		for _, l := range Corpus("equihash*.txt", name) {
			f.Valid = append(f.Valid, CallArgs{Data: [][]byte{Unhex(l[1]), Unhex(l[2])}})
		}
		out = append(out, f)
	}
	eq("FLUX", ref.Equi{N: 125, K: 4, Personal: "ZelProof", Twist: true}, equihash.NewFlux)
	eq("BTG", ref.Equi{N: 144, K: 5, Personal: "BgoldPoW"}, equihash.NewBitcoinGold)
	eq("ZCL", ref.Equi{N: 192, K: 7, Personal: "ZcashPoW"}, equihash.NewZClassic)
	eq("ZEC", ref.Equi{N: 200, K: 9, Personal: "ZcashPoW"}, equihash.NewZCash)
	eq("AION", ref.Equi{N: 210, K: 9, Personal: "AION0PoW"}, equihash.NewAion)
	b := Fn{Name: "beamhashiii", Verify: true, Lens: []int{40, 104}, New: func() func(CallArgs) Ans { return ver(beamhashiii.NewBeam().Verify) }}
	for _, l := range append(Corpus("equihash_kats.txt", "BEAM"), Corpus("beam*.txt", "BEAM")...) {
		b.Valid = append(b.Valid, CallArgs{Data: [][]byte{Unhex(l[1]), Unhex(l[2])}})
	}
	out = append(out, b)
	ck := func(name string, bits, size int, mk func() *cuckoo.Client) {
		f := Fn{Name: "cuckoo_" + name, Verify: true, Lens: []int{-1}, Size: size, Mask: 1<<bits - 1, New: func() func(CallArgs) Ans {
			c := mk()
			return func(x CallArgs) Ans {
				ok, err := c.Verify(x.Data[0], x.Edges)
				return Ans{OK: ok, Err: err}
			}
		}}
		for _, l := range Corpus("cuckoo.txt", name) {
			f.Valid = append(f.Valid, CallArgs{Data: [][]byte{Unhex(l[1])}, Edges: Edges(l[2])})
		}
		out = append(out, f)
	}
	ck("AE", 29, 42, cuckoo.NewAeternity)
	ck("CTXC", 30, 42, cuckoo.NewCortex)
	for _, sz := range [][2]int{{3, 2}, {4, 4}, {5, 6}, {6, 8}} {
		sz := sz
		ck(fmt.Sprintf("tiny%d_%d", sz[0], sz[1]), sz[0], sz[1], func() *cuckoo.Client {
			return cuckoo.NewCuckoo(sz[0], sz[1], crypto.SipNode24Legacy, nil)
		})
		ck(fmt.Sprintf("tinyroo%d_%d", sz[0], sz[1]), sz[0], sz[1], func() *cuckoo.Client {
			return cuckoo.NewCuckaroo(sz[0], sz[1], nil, crypto.SipBlock48)
		})
	}
	return
}

// Draw makes arguments that a call must digest: right lengths, odd contents.
func (f *Fn) Draw(g *mon.Rand) CallArgs {
	var c CallArgs
	if len(f.Valid) > 0 && g.N(3) > 0 {
		c = f.Valid[g.N(len(f.Valid))].Clone()
		switch g.N(4) {
		case 0:
			if f.Size > 0 {
				a, b := g.N(len(c.Edges)), g.N(len(c.Edges))
				c.Edges[a], c.Edges[b] = c.Edges[b], c.Edges[a]
			} else {
				d := c.Data[len(c.Data)-1]
				d[g.N(len(d))] ^= 1 << g.N(8)
			}
		case 1:
			d := c.Data[0]
			if len(d) > 0 {
				d[g.N(len(d))] ^= 1 << g.N(8)
			}
		}
		return c
	}
	for i, n := range f.Lens {
		if n < 0 {
			n = []int{0, 1, 32, 80, 108, 136, 140, 200}[g.N(8)]
		}
		b := g.EdgeBytes(n)
		if i == 1 && g.N(4) == 0 { // a solution made of one repeated index
			b = make([]byte, n)
		}
		c.Data = append(c.Data, b)
	}
	if f.Size > 0 {
		c.Edges = make([]uint64, f.Size)
		for i := range c.Edges {
			c.Edges[i] = g.U64() & f.Mask
		}
		switch g.N(5) {
		case 0: // ascending
			step := f.Mask / uint64(f.Size+1)
			for i := range c.Edges {
				c.Edges[i] = uint64(i)*step + g.U64()%(step+1)
			}
		case 1: // all equal
			for i := range c.Edges {
				c.Edges[i] = c.Edges[0]
			}
		case 2:
			for i := range c.Edges {
				c.Edges[i] = uint64(i)
			}
		case 3:
			c.Edges[g.N(f.Size)] = g.Edge64()
		}
	}
	c.N = g.Edge64()
	switch strings.SplitN(f.Name, "_", 2)[0] {
	case "autolykos2":
		c.H = []uint64{g.Edge64(), uint64(g.N(6000000)), 614400, 614399, 4198400, 4198401}[g.N(6)]
	case "heavyhash":
		c.H = g.Edge64()
		if string(c.Data[0]) == string(make([]byte, 32)) {
			c.Data[0][g.N(32)] = 1
		}
	default:
		c.H = uint64(g.N(400))
	}
	return c
}
