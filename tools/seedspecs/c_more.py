CFX1500, CFX1500B = 115080512, 115080256

seed('c18-unlocked-gap', 'C18', 'two goroutines that miss different epochs at the same time',
     'the lock is released between making room and inserting the new cache, so concurrent misses overfill the map',
     [('internal/dag/dag.go', '''			delete(dag.caches, evict.epoch)
		}

		// use the pre generated dag if exists
		if dag.future''', '''			delete(dag.caches, evict.epoch)

			// let waiting requests for resident epochs pass before the new cache is set up
			dag.mu.Unlock()
			runtime.Gosched()
			dag.mu.Lock()
			if c = dag.caches[epoch]; c != nil {
				c.used = time.Now()
				dag.mu.Unlock()
				c.generate(dag)

				return c
			}
		}

		// use the pre generated dag if exists
		if dag.future'''), ('internal/dag/dag.go', '	"path/filepath"\n', '	"path/filepath"\n	"runtime"\n')],
     'internal/dag', ['sync', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		d := New(tiny(""))
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for e := 0; e < 6; e++ {
					d.GetCache(uint64(e*16 + g))
				}
			}(g)
		}
		wg.Wait()
		if len(d.caches) > 2 {
			t.Fatalf("%d caches are kept", len(d.caches))
		}
	}
}
''')

seed('c19-started-flag', 'C19', 'a second request for an epoch while its cache is still being generated',
     'a started generation counts as done, so a concurrent request gets a cache that is not filled yet',
     [('internal/dag/cache.go', '''	c.once.Do(func() {
		size''', '''	// a cheaper check than the once for the many calls after the first
	if !atomic.CompareAndSwapInt32(&c.started, 0, 1) && atomic.LoadInt32(&c.started) != 0 && c.cache.data != nil {
		return
	}

	c.once.Do(func() {
		size'''), ('internal/dag/cache.go', '	epoch uint64\n	once  sync.Once\n', '	epoch   uint64\n	started int32\n	once    sync.Once\n'),
      ('internal/dag/cache.go', '	"sync"\n', '	"sync"\n	"sync/atomic"\n')],
     'internal/dag', ['sync', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	cfg := tiny("")
	cfg.CacheInitBytes = 1 << 20
	want := New(cfg).GetCache(0).Cache()
	last := want[len(want)-1]
	for i := 0; i < 30; i++ {
		d := New(cfg)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 100; n++ {
					if w := d.GetCache(0).Cache(); w[len(w)-1] != last {
						t.Error("a partly generated cache is returned")
						return
					}
				}
			}()
		}
		wg.Wait()
	}
}
''')

seed('c23-stop-at-gap', 'C23', 'a gap in the epochs on disk: an old dump below an epoch that was never generated',
     'pruning stops at the first epoch that has no dump',
     [('internal/dag/cache.go', '''			os.Remove(cachePath)

			l1Path := cfg.l1StorageLocation(seed[:8])
			os.Remove(l1Path)''', '''			l1Path := cfg.l1StorageLocation(seed[:8])
			os.Remove(l1Path)

			// everything before has been removed already
			if err := os.Remove(cachePath); os.IsNotExist(err) {
				break
			}''')],
     'internal/dag', ['os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tiny(dir))
	d.GetCache(1)
	New(tiny(dir)).GetCache(12)
	if _, err := os.Stat(d.cacheStorageLocation(d.SeedHash(11)[:8])); err == nil {
		t.Fatal("the dump of epoch 1 is left")
	}
}
''')

seed('c24-loaded-never-closed', 'C24', 'many epochs that are loaded from disk rather than generated',
     'only generated caches get a finalizer, the mappings of loaded ones are never released',
     [('internal/dag/cache.go', '''		// We're about to mmap the file, ensure that the mapping is cleaned up when the
		// cache becomes unused.
		runtime.SetFinalizer(c, (*cache).finalizer)

''', ''), ('internal/dag/cache.go', '''		// No usable previous cache available, create a new cache file to fill
''', '''		// We're about to mmap the file, ensure that the mapping is cleaned up when the
		// cache becomes unused.
		runtime.SetFinalizer(c, (*cache).finalizer)

		// No usable previous cache available, create a new cache file to fill
''')],
     'internal/dag', ['io/ioutil', 'runtime', 'strings', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cfg := tiny(dir)
	cfg.CachesCount = 50
	d := New(cfg)
	for e := uint64(0); e < 40; e++ {
		d.GetCache(e)
	}
	cfg.CachesCount = 2
	d = New(cfg)
	for e := uint64(0); e < 39; e++ {
		d.GetCache(e)
	}
	n := 0
	for i := 0; i < 30; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
		b, _ := ioutil.ReadFile("/proc/self/maps")
		// the caches of the first client are released as well
		if n = strings.Count(string(b), "/cache-TST"); n <= 4 {
			return
		}
	}
	t.Fatalf("%d mappings are left", n)
}
''')

seed('c32-l1-drags-cache', 'C32', 'only the L1 dump is missing',
     'a missing L1 dump makes the cache dump be written again',
     [('internal/dag/cache.go', '''			needsL1 = err != nil
''', '''			needsL1 = err != nil

			// both belong together
			needsCache = needsCache || needsL1
''')],
     'internal/dag', ['os', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tinyL1(dir))
	d.GetCache(0)
	seed := d.SeedHash(1)[:8]
	before, err := os.Stat(d.cacheStorageLocation(seed))
	if err != nil {
		t.Fatal(err)
	}
	os.Remove(d.l1StorageLocation(seed))
	New(tinyL1(dir)).GetCache(0)
	after, err := os.Stat(d.cacheStorageLocation(seed))
	if err != nil || !os.SameFile(before, after) {
		t.Fatal("the cache dump was written again")
	}
}
''')

seed('c25-clean-leftovers', 'C25', 'two processes with the same pseudo-random seed generate one epoch, the second starting while the first is filling its file',
     'leftover temporary files are removed before generating, also those another process is filling: with equal random names the first process then publishes the unfinished file of the second',
     [('internal/dag/mmap.go', '''	// Create a huge temporary empty file to fill with data
''', '''	// Remove what interrupted runs have left behind
	if stale, err := filepath.Glob(path + ".*"); err == nil {
		for _, name := range stale {
			os.Remove(name)
		}
	}

	// Create a huge temporary empty file to fill with data
''')],
     'internal/dag', ['os', 'path/filepath', 'testing'], '''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "dump")
	memoryMapAndGenerate(p, 4096, false, func(b []uint32) {
		// a second process generates the same dump meanwhile
		mine, _ := filepath.Glob(p + ".*")
		memoryMapAndGenerate(p, 4096, false, func(b []uint32) {
			if len(mine) != 1 {
				t.Fatal(mine)
			}
			if _, err := os.Stat(mine[0]); err != nil {
				t.Error("the file another process is filling was removed")
			}
		})
	})
}
''')

seed('c17-seed-memo', 'C17', 'two goroutines asking for seeds of different epochs at the same time',
     'the last seed is remembered and read without the lock while another call advances it in place',
     [('internal/dag/dag.go', '''	seed := make([]byte, 32)
	if height < d.SeedEpochLength {
		return seed
	}

	keccak256Hasher := crypto.NewKeccak256Hasher()
	for i := 0; i < int(height/d.SeedEpochLength); i++ {
		keccak256Hasher(seed, seed)
	}

	return seed
''', '''	n := height / d.SeedEpochLength
	if d.seed != nil && d.seedEpoch == n {
		return append([]byte(nil), d.seed...)
	}

	d.seedMu.Lock()
	defer d.seedMu.Unlock()

	// Heights mostly rise, continue from the last seed
	if d.seed == nil || n < d.seedEpoch {
		d.seed, d.seedEpoch = make([]byte, 32), 0
	}

	keccak256Hasher := crypto.NewKeccak256Hasher()
	for ; d.seedEpoch < n; d.seedEpoch++ {
		keccak256Hasher(d.seed, d.seed)
	}

	return append([]byte(nil), d.seed...)
'''), ('internal/dag/dag.go', '''	future *cache            // Pre-generated cache for the estimated future DAG
}''', '''	future *cache            // Pre-generated cache for the estimated future DAG

	seedMu    sync.Mutex // Protects the last seed
	seed      []byte
	seedEpoch uint64
}''')],
     'internal/dag', ['bytes', 'sync', 'sync/atomic', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	want := map[uint64][]byte{}
	for h := uint64(0); h < 800; h += 10 {
		want[h] = append([]byte{}, New(tiny("")).SeedHash(h)...)
	}
	var bad int32
	var wg sync.WaitGroup
	end := time.Now().Add(4 * time.Second)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := g; time.Now().Before(end) && atomic.LoadInt32(&bad) == 0; k++ {
				h := uint64(k%80) * 10
				if !bytes.Equal(d.SeedHash(h), want[h]) {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(g)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("wrong seed under concurrency")
	}
}
''')

seed('c04-cache-mask', 'C04', 'an L1 cache whose size is no power of two',
     'cache offsets are masked instead of reduced',
     [('internal/progpow/algorithm.go', 'offset := mix[l][src] % (cfg.CacheBytes / 4)', 'offset := mix[l][src] & (cfg.CacheBytes/4 - 1)')],
     'internal/progpow', ['testing'], '''
func TestDemo(t *testing.T) {
	lookup := func(i uint32) []uint32 {
		v := make([]uint32, 64)
		for j := range v {
			v[j] = i*31 + uint32(j)*77777777
		}
		return v
	}
	cfg := *progpow094Cfg
	cfg.CacheBytes = 4 * 3000
	// only words that a modulus reaches and the mask 2999 does not
	run := func(v uint32) byte {
		l1 := make([]uint32, 3000)
		for i := range l1 {
			if i&2999 != i {
				l1[i] = v
			}
		}
		return Hash(&cfg, 100, 5, 1<<20, lookup, l1)[0]
	}
	a := run(0)
	for v := uint32(1); v < 20; v++ {
		if run(v*0x9e3779b9) != a {
			return
		}
	}
	t.Fatal("a part of the cache is never used")
}
''')

seed('c04-lane-fold', 'C04', 'a lane count that is not a multiple of eight',
     'the lane hashes are folded in whole groups of eight, the lanes behind the last group are dropped',
     [('internal/progpow/algorithm.go', '''	for l := 0; l < cfg.LaneCount; l++ {
		mixHash[l%numWords] = crypto.Fnv1a(mixHash[l%numWords], laneHash[l])
	}''', '''	for l := 0; l+numWords <= cfg.LaneCount; l += numWords {
		for i := range mixHash {
			mixHash[i] = crypto.Fnv1a(mixHash[i], laneHash[l+i])
		}
	}''')],
     'internal/progpow', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	lookup := func(i uint32) []uint32 { return make([]uint32, 64) }
	cfg := *progpow094Cfg
	cfg.LaneCount = 4
	l1 := make([]uint32, 4096)
	if bytes.Equal(Hash(&cfg, 100, 5, 1<<20, lookup, l1), Hash(&cfg, 100, 6, 1<<20, lookup, l1)) {
		t.Fatal("two seeds give one hash")
	}
}
''')

seed('c12-last-edge', 'C12', 'a proof that holds the largest edge index of the graph',
     'the largest edge index is taken for too big',
     [('cuckoo/cuckoo.go', '		if edges[n] > c.edgeMask {', '		if edges[n] >= c.edgeMask {')],
     'cuckoo', ['testing'], CUCKOO + '''
func TestDemo(t *testing.T) {
	g := map[uint64][2]uint64{0: {0, 0}, 1: {1, 0}, 2: {1, 1}, 1<<29 - 1: {0, 1}}
	c := NewCuckoo(29, 4, func(mask uint64, k [4]uint64, e, side uint64) uint64 { return g[e][side] }, nil)
	if ok, err := c.Verify(nil, []uint64{0, 1, 2, 1<<29 - 1}); !ok {
		t.Fatal("a valid proof is refused", err)
	}
}
''')

seed('c13-branch-side', 'C13', 'two cycles that share a node on one side only',
     'a branching node is only refused on the first side of the graph',
     [('cuckoo/cuckaroo.go', '				if j != i {', '				if j != i && i&1 == 0 {')],
     'cuckoo', ['testing'], CUCKOO + '''
func TestDemo(t *testing.T) {
	swap := func(g [][2]uint64) (s [][2]uint64) {
		for _, e := range g {
			s = append(s, [2]uint64{e[1], e[0]})
		}
		return
	}
	eight := [][2]uint64{{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0, 2}, {2, 2}, {2, 3}, {0, 3}}
	for i := 0; i < 8; i++ {
		g := append(append([][2]uint64{}, eight[i:]...), eight[:i]...)
		if ok, _ := fakeroo(g).Verify(nil, edges(8)); ok {
			t.Fatal("two cycles sharing a node are accepted")
		}
		if ok, _ := fakeroo(swap(g)).Verify(nil, edges(8)); ok {
			t.Fatal("two cycles sharing a node are accepted")
		}
	}
}
''')

seed('c11-extra-nonce', 'C11', 'a solution whose extra nonce (its last four bytes) is not zero',
     'the extra nonce is read in the wrong byte order',
     [('beamhashiii/beamhashiii.go', 'binary.LittleEndian.PutUint32(state[len(header):], binary.LittleEndian.Uint32(soln[100:]))', 'binary.BigEndian.PutUint32(state[len(header):], binary.LittleEndian.Uint32(soln[100:]))')],
     'beamhashiii', ['encoding/binary', 'testing', 'github.com/sencha-dev/powkit/internal/crypto'], '''
func TestDemo(t *testing.T) {
	header, soln := make([]byte, 40), make([]byte, 104)
	copy(soln[100:], []byte{1, 2, 3, 4})
	person := append([]byte("Beam-PoW"), 0xc0, 1, 0, 0, 5, 0, 0, 0)
	h := crypto.Blake2b(append(append([]byte{}, header...), 1, 2, 3, 4), person, 32)
	if got := initializePrePow([]byte("Beam-PoW"), header, soln); got[0] != binary.LittleEndian.Uint64(h) {
		t.Fatal("wrong hash state")
	}
}
''')

seed('c02-nonce-high', 'C02', 'a nonce above 2^63',
     'the upper half of the nonce is taken from a signed number, saturating above 2^63',
     [('kawpow/kawpow.go', '	seed[9] = uint32(nonce >> 32)', '	seed[9] = uint32(nonce >> 32 & 0x7fffffff)')],
     'kawpow', ['testing'], '''
func TestDemo(t *testing.T) {
	h := make([]byte, 32)
	if a, _ := initialize(h, 5); true {
		if b, _ := initialize(h, 5|1<<63); a == b {
			t.Fatal("two nonces give one seed")
		}
	}
}
''')

seed('c27-heavy-alias', 'C27', 'a caller that keeps a digest while computing the next one',
     'the digest is returned in a buffer of the client that the next call overwrites',
     [('heavyhash/client.go', 'type Client struct{}', '''type Client struct {
	mu  sync.Mutex
	out [32]byte
}'''), ('heavyhash/client.go', '''	digest := heavyHash(hash, timestamp, nonce)

	return digest, nil''', '''	c.mu.Lock()
	defer c.mu.Unlock()
	copy(c.out[:], heavyHash(hash, timestamp, nonce))

	return c.out[:], nil'''), ('heavyhash/client.go', '	"fmt"\n', '	"fmt"\n	"sync"\n')],
     'heavyhash', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	c := NewKaspa()
	h := []byte("0123456789abcdef0123456789abcdef")
	a, _ := c.Compute(h, 1, 1)
	b := append([]byte{}, a...)
	c.Compute(h, 1, 2)
	if !bytes.Equal(a, b) {
		t.Fatal("a digest changes after it was returned")
	}
}
''')

seed('c33-dir', 'C33', 'a process that finds the caches of an earlier version',
     'the default storage directory of Firo differs from the one of the other coins',
     [('firopow/client.go', 'common.DefaultDir(".powcache")', 'common.DefaultDir(".firocache")')],
     'firopow', ['path/filepath', 'testing'], '''
func TestDemo(t *testing.T) {
	if d := NewFiro().data.StorageDir; filepath.Base(d) != ".powcache" {
		t.Fatal("wrong directory", d)
	}
}
''')

seed('c14-table-typo', 'C14', 'one epoch of Conflux',
     'one entry of the shipped table is the next smaller candidate, not the largest prime',
     [('octopus/octopus_lookup.go', '%d' % CFX1500, '%d' % CFX1500B)],
     'octopus', ['testing', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	d := NewConflux().data.Config
	d.CacheSizes, d.DatasetSizes = nil, nil
	for e := uint64(0); e < 2048; e++ {
		if dag.New(d).CacheSize(e) != NewConflux().data.CacheSize(e) {
			t.Fatalf("the table is wrong for epoch %d", e)
		}
	}
}
''')

seed('c10-order-twisted', 'C10', 'a ZelHash solution with the children of one inner node swapped',
     'the order of subtrees is judged by their last indices',
     [('equihash/equihash.go', '	if b.indices[0] < a.indices[0] {\n		return fmt.Errorf("out of order")', '	if last := len(a.indices) - 1; b.indices[last] < a.indices[last] && b.indices[0] < a.indices[0] {\n		return fmt.Errorf("out of order")')],
     'equihash', ['testing'], WAGNER + '''
func TestDemo(t *testing.T) {
	c := New(32, 3, "ZelProof", true)
	for s := 0; s < 300; s++ {
		header := []byte{byte(s), byte(s >> 8)}
		for _, r := range solve(t, header, "ZelProof", true) {
			if !distinct(r.idx) {
				continue
			}
			for w := 1; w < 8; w *= 2 {
				for i := 0; i < 8; i += 2 * w {
					p := append([]uint32{}, r.idx[:i]...)
					p = append(p, r.idx[i+w:i+2*w]...)
					p = append(p, r.idx[i:i+w]...)
					p = append(p, r.idx[i+2*w:]...)
					if ok, _ := c.Verify(header, minimal(p)); ok {
						t.Fatal("a permuted solution is accepted")
					}
				}
			}
		}
	}
}
''')
