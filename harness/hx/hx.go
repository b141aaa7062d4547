//go:build go1.24

// Package hx adapts powkit's exported API to the checks.
package hx

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"unsafe"

	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

type Algo int

const (
	Eth Algo = iota
	Kaw
	Firo
	Oct
)

var AlgoName = [...]string{"ethash", "kawpow", "firopow", "octopus"}

// Inst is a client of one DAG algorithm with the specification of its DAG.
type Inst struct {
	Algo   Algo
	Spec   ref.DagSpec
	Client any
	run    func(hash []byte, height, nonce uint64) ([]byte, []byte, error)
}

// Cfg builds a configuration for a specification; dir "" keeps it in memory.
func Cfg(s ref.DagSpec, name, dir string, count int) dag.Config {
	c := dag.Config{
		Name: name, Revision: 1, StorageDir: dir,
		DatasetInitBytes: s.DatasetInit, DatasetGrowthBytes: s.DatasetGrowth,
		CacheInitBytes: s.CacheInit, CacheGrowthBytes: s.CacheGrowth,
		MixBytes: s.Mix, DatasetParents: s.Parents,
		EpochLength: s.Epoch, SeedEpochLength: s.SeedEpoch,
		CacheRounds: s.Rounds, CachesCount: count,
	}
	if s.L1Words > 0 {
		c.L1Enabled = true
		c.L1CacheSize = uint64(s.L1Words) * 4
		c.L1CacheNumItems = uint(s.L1Words)
	}
	return c
}

// New makes a client from a configuration.
func New(a Algo, s ref.DagSpec, cfg dag.Config) *Inst {
	in := &Inst{Algo: a, Spec: s}
	switch a {
	case Eth:
		in.Client = ethash.New(cfg)
	case Kaw:
		in.Client = kawpow.New(cfg)
	case Firo:
		in.Client = firopow.New(cfg)
	case Oct:
		in.Client = octopus.New(cfg)
	}
	in.bind()
	return in
}

// Presets of the DAG coins.
var PresetNames = []string{"ETH", "ETC", "RVN", "FIRO", "CFX"}

// Preset is a coin's own constructor with its storage directory replaced.
func Preset(coin, dir string) *Inst {
	in := &Inst{}
	switch coin {
	case "ETH":
		in.Algo, in.Spec, in.Client = Eth, ref.ETH, ethash.NewEthereum()
	case "ETC":
		in.Algo, in.Spec, in.Client = Eth, ref.ETC, ethash.NewEthereumClassic()
	case "RVN":
		in.Algo, in.Spec, in.Client = Kaw, ref.RVN, kawpow.NewRavencoin()
	case "FIRO":
		in.Algo, in.Spec, in.Client = Firo, ref.FIRO, firopow.NewFiro()
	case "CFX":
		in.Algo, in.Spec, in.Client = Oct, ref.CFX, octopus.NewConflux()
	}
	in.bind()
	in.DAG().StorageDir = dir
	return in
}

func (in *Inst) bind() {
	switch c := in.Client.(type) {
	case *ethash.Client:
		in.run = c.Compute
	case *kawpow.Client:
		in.run = c.Compute
	case *firopow.Client:
		in.run = c.Compute
	case *octopus.Client:
		in.run = func(h []byte, height, nonce uint64) ([]byte, []byte, error) {
			d, err := c.Compute(h, height, nonce)
			return nil, d, err
		}
	}
}

// DAG finds the client's DAG, whatever the field is called.
func (in *Inst) DAG() *dag.DAG { return FindDAG(reflect.ValueOf(in.Client), 0) }

var dagType = reflect.TypeOf(dag.DAG{})

func FindDAG(v reflect.Value, depth int) *dag.DAG {
	if depth > 4 {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem() == dagType {
			return (*dag.DAG)(v.UnsafePointer())
		}
		return FindDAG(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == dagType && f.CanAddr() {
				return (*dag.DAG)(unsafe.Pointer(f.UnsafeAddr()))
			}
			if f.Kind() == reflect.Pointer || f.Kind() == reflect.Struct {
				if d := FindDAG(f, depth+1); d != nil {
					return d
				}
			}
		}
	}
	return nil
}

func (in *Inst) Compute(hash []byte, height, nonce uint64) (mix, digest []byte, err error) {
	return in.run(hash, height, nonce)
}

// Expect is the specified result.
func (in *Inst) Expect(m *ref.Memo, hash []byte, height, nonce uint64, ps *ref.ProgStats, os *ref.OctStats) (mix, digest []byte) {
	return Expect(in.Algo, in.Spec, m, hash, height, nonce, ps, os)
}

func Expect(a Algo, s ref.DagSpec, m *ref.Memo, hash []byte, height, nonce uint64, ps *ref.ProgStats, os *ref.OctStats) (mix, digest []byte) {
	e := s.EpochOf(height)
	c := m.Get(s, e)
	size := s.DatasetSize(e)
	switch a {
	case Eth:
		return c.Hashimoto(hash, nonce, size)
	case Kaw:
		return c.ProgPow(ref.Kaw, ref.StdProg(3), hash, height, nonce, size, ps)
	case Firo:
		return c.ProgPow(ref.Firo, ref.StdProg(1), hash, height, nonce, size, ps)
	}
	return nil, c.Octopus(hash, nonce, size, os)
}

// Same compares results; it also demands that an error means no result.
func Same(m1, d1 []byte, err error, m2, d2 []byte) bool {
	return err == nil && bytes.Equal(m1, m2) && bytes.Equal(d1, d2)
}

func H(b []byte) string { return hex.EncodeToString(b) }

// Tmp makes a scratch directory under the run's scratch root.
func Tmp(tag string) string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), tag)
	if err != nil {
		panic(err)
	}
	return d
}

// OddTmp is Tmp with a name that patterns, formats and shells would mind.
func OddTmp(g *mon.Rand, tag string) string {
	return Tmp(tag + []string{"", "", "[a-c]", " x ", "{a,b}?", "%d%s%!", "ü€", "'$HOME\"", "~", "..."}[g.N(10)])
}

// Spell is another way to name a directory that Tmp made.
func Spell(g *mon.Rand, dir string) string {
	up, leaf := filepath.Split(dir)
	switch g.N(8) {
	case 0:
		return dir + "/"
	case 1:
		return dir + "//."
	case 2:
		return up + "./" + leaf
	case 3:
		return up + "../" + filepath.Base(filepath.Clean(up)) + "/" + leaf
	case 4, 5:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, dir); err == nil {
				return rel
			}
		}
	case 6:
		link := dir + ".link"
		if err := os.Symlink(leaf, link); err == nil || os.IsExist(err) {
			return link
		}
	}
	return dir
}

// Quiesce waits until at most base goroutines are left (background
// generation done); helpers of the code under test that stay parked do not
// count. It is bounded by operations, not a verdict.
func Quiesce(base int) bool {
	return quiesce(func() bool { return runtime.NumGoroutine() <= base }, func(of, parked int) bool {
		return of == parked && runtime.NumGoroutine()-parked <= base
	})
}

// Case renders a compute case.
func Case(in *Inst, hash []byte, height, nonce uint64) map[string]any {
	return map[string]any{"algo": AlgoName[in.Algo], "spec": fmt.Sprintf("%+v", in.Spec), "hash": H(hash), "height": height, "nonce": nonce}
}

// Contents copies an epoch's cache and L1 cache while holding the cache.
func Contents(d *dag.DAG, epoch uint64) (words, l1 []uint32) {
	defer mon.Watch("GetCache")()
	c := d.GetCache(epoch)
	words = append([]uint32(nil), c.Cache()...)
	l1 = append([]uint32(nil), c.L1()...)
	runtime.KeepAlive(c)
	return
}

// SameWords compares two word slices.
func SameWords(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SmallSpec is a DAG whose caches are generated in about a millisecond.
func SmallSpec(g *mon.Rand, a Algo) ref.DagSpec {
	s := ref.DagSpec{DatasetInit: 1 << 20, DatasetGrowth: 1 << 12, Mix: 128, Parents: 4, Epoch: 100, SeedEpoch: 100, Rounds: 1}
	s.CacheInit = 64 * 2 * uint64(g.In(20, 80))
	s.CacheGrowth = 64 * 2 * uint64(g.N(4))
	if a == Oct {
		s.Mix = 256
	}
	if a == Kaw || a == Firo {
		s.L1Words = 4096
	}
	if g.N(3) == 0 {
		s.SeedEpoch = 50
	}
	return s
}
