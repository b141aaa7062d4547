//go:build go1.24

package ref

import (
	"encoding/binary"
	"sync"
)

// DagSpec is a coin's DAG schedule, as published.
type DagSpec struct {
	DatasetInit, DatasetGrowth uint64
	CacheInit, CacheGrowth     uint64
	Mix                        uint64 // bytes per dataset page
	Parents                    uint32
	Epoch, SeedEpoch           uint64
	Rounds                     int
	L1Words                    int // 0 = no L1 cache
}

var (
	ETH  = DagSpec{1 << 30, 1 << 23, 1 << 24, 1 << 17, 128, 256, 30000, 30000, 3, 0}
	ETC  = DagSpec{1 << 30, 1 << 23, 1 << 24, 1 << 17, 128, 256, 60000, 30000, 3, 0}
	RVN  = DagSpec{1 << 30, 1 << 23, 1 << 24, 1 << 17, 128, 512, 7500, 7500, 3, 4096}
	FIRO = DagSpec{3 << 29, 1 << 23, 1 << 24, 1 << 17, 128, 512, 1300, 1300, 3, 4096}
	CFX  = DagSpec{4 << 30, 1 << 24, 1 << 24, 1 << 16, 256, 256, 524288, 524288, 3, 0}
)

func primeSize(sz, unit uint64) uint64 {
	rows := sz / unit
	rem := sz % unit
	for !IsPrime(rows) {
		rows -= 2
	}
	return rows*unit + rem
}

func (s DagSpec) CacheSize(epoch uint64) uint64 {
	return primeSize(s.CacheInit+s.CacheGrowth*epoch-64, 64)
}

func (s DagSpec) DatasetSize(epoch uint64) uint64 {
	return primeSize(s.DatasetInit+s.DatasetGrowth*epoch-s.Mix, s.Mix)
}

func (s DagSpec) EpochOf(height uint64) uint64 { return height / s.Epoch }

// Seed is the seed of an epoch, i.e. of the height epoch*Epoch+1.
func (s DagSpec) Seed(epoch uint64) []byte { return SeedAt(epoch*s.Epoch+1, s.SeedEpoch) }

// SeedAt is Keccak-256 iterated once per whole seed epoch below height.
func SeedAt(height, seedEpoch uint64) []byte {
	seed := make([]byte, 32)
	for n := height / seedEpoch; n > 0; n-- {
		seed = Keccak256(seed)
	}
	return seed
}

// Cache is a light verification cache with its L1 cache.
type Cache struct {
	Spec  DagSpec
	Epoch uint64
	Words []uint32
	L1    []uint32
	rows  uint32
}

func (s DagSpec) NewCache(epoch uint64) *Cache {
	c := &Cache{Spec: s, Epoch: epoch}
	c.Words = MakeCache(int(s.CacheSize(epoch)), s.Rounds, s.Seed(epoch))
	c.rows = uint32(len(c.Words) / 16)
	c.L1 = make([]uint32, 0, s.L1Words)
	for i := uint32(0); len(c.L1) < s.L1Words; i++ {
		it := c.Item(i)
		c.L1 = append(c.L1, it[:]...)
	}
	return c
}

// MakeCache is the specification's mkcache: sequential Keccak-512 chain, then
// RandMemoHash passes.
func MakeCache(size, rounds int, seed []byte) []uint32 {
	n := size / 64
	o := make([][]byte, n)
	o[0] = Keccak512(seed)
	for i := 1; i < n; i++ {
		o[i] = Keccak512(o[i-1])
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < n; i++ {
			v := int(binary.LittleEndian.Uint32(o[i]) % uint32(n))
			prev := o[(i-1+n)%n]
			x := make([]byte, 64)
			for b := range x {
				x[b] = prev[b] ^ o[v][b]
			}
			o[i] = Keccak512(x)
		}
	}
	words := make([]uint32, 0, n*16)
	for _, row := range o {
		for b := 0; b < 64; b += 4 {
			words = append(words, binary.LittleEndian.Uint32(row[b:]))
		}
	}
	return words
}

func bytes16(w *[16]uint32) []byte {
	b := make([]byte, 64)
	for i, v := range w {
		binary.LittleEndian.PutUint32(b[4*i:], v)
	}
	return b
}

// Item is the 64-byte dataset item with the given index.
func (c *Cache) Item(i uint32) [16]uint32 {
	var mix [16]uint32
	copy(mix[:], c.Words[16*(i%c.rows):])
	mix[0] ^= i
	load := func(b []byte) {
		for k := range mix {
			mix[k] = binary.LittleEndian.Uint32(b[4*k:])
		}
	}
	load(Keccak512(bytes16(&mix)))
	for j := uint32(0); j < c.Spec.Parents; j++ {
		p := fnv1(i^j, mix[j%16]) % c.rows
		row := c.Words[16*p : 16*p+16]
		for k := range mix {
			mix[k] = fnv1(mix[k], row[k])
		}
	}
	load(Keccak512(bytes16(&mix)))
	return mix
}

// Items concatenates n consecutive 64-byte items starting at n*index.
func (c *Cache) Items(index uint32, n uint32) []uint32 {
	var out []uint32
	for k := uint32(0); k < n; k++ {
		it := c.Item(index*n + k)
		out = append(out, it[:]...)
	}
	return out
}

// Hashimoto is light Ethash evaluation.
func (c *Cache) Hashimoto(hash []byte, nonce, datasetSize uint64) (mixOut, digest []byte) {
	pages := uint32(datasetSize / 128)
	s := Keccak512(binary.LittleEndian.AppendUint64(append([]byte(nil), hash...), nonce))
	var mix [32]uint32
	for i := range mix {
		mix[i] = binary.LittleEndian.Uint32(s[(4*i)%64:])
	}
	head := binary.LittleEndian.Uint32(s)
	for i := uint32(0); i < 64; i++ {
		p := fnv1(i^head, mix[i%32]) % pages
		page := c.Items(p, 2)
		for k := range mix {
			mix[k] = fnv1(mix[k], page[k])
		}
	}
	for i := 0; i < 32; i += 4 {
		v := fnv1(fnv1(fnv1(mix[i], mix[i+1]), mix[i+2]), mix[i+3])
		mixOut = binary.LittleEndian.AppendUint32(mixOut, v)
	}
	digest = Keccak256(append(append([]byte(nil), s...), mixOut...))
	return mixOut, digest
}

// Memo caches verification caches by (spec, epoch) for the oracles.
type Memo struct {
	mu sync.Mutex
	m  map[memoKey]*memoEnt
}
type memoKey struct {
	s DagSpec
	e uint64
}
type memoEnt struct {
	once sync.Once
	c    *Cache
}

func (m *Memo) Get(s DagSpec, epoch uint64) *Cache {
	m.mu.Lock()
	if m.m == nil {
		m.m = map[memoKey]*memoEnt{}
	}
	e := m.m[memoKey{s, epoch}]
	if e == nil {
		e = &memoEnt{}
		m.m[memoKey{s, epoch}] = e
	}
	m.mu.Unlock()
	e.once.Do(func() { e.c = s.NewCache(epoch) })
	return e.c
}
