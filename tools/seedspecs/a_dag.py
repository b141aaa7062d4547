# Planted bugs in internal/dag. The demonstrations share this little coin.
TINY = '''
func tiny(dir string) Config {
	return Config{Name: "TST", Revision: 7, StorageDir: dir,
		DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 12, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 8, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 3, CachesCount: 2,
	}
}
'''
L1 = '''
func tinyL1(dir string) Config {
	c := tiny(dir)
	c.L1Enabled, c.L1CacheSize, c.L1CacheNumItems = true, 1024, 256
	return c
}
'''

seed('c18-fifo', 'C18', 'a request sequence in which the oldest created cache is requested again before a new epoch needs room',
     'the use time is only recorded when a cache enters the map, so the first created cache is evicted instead of the least recently used one',
     [('internal/dag/dag.go', '''			go dag.future.generate(dag)
		}
	}

	c.used = time.Now()
	dag.mu.Unlock()''', '''			go dag.future.generate(dag)
		}

		c.used = time.Now()
	}
	dag.mu.Unlock()''')],
     'internal/dag', ['testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	first := d.GetCache(1)
	time.Sleep(2 * time.Millisecond)
	d.GetCache(10)
	time.Sleep(2 * time.Millisecond)
	d.GetCache(1)
	time.Sleep(2 * time.Millisecond)
	d.GetCache(20)
	if d.GetCache(1) != first {
		t.Fatal("the recently used cache was evicted")
	}
}
''')

seed('c18-one-too-many', 'C18', 'more distinct epochs than the configured count, with a pre-generated successor taken over when the map is full',
     'taking over the pre-generated successor skips the eviction, so the map outgrows the configured count along ascending epochs',
     [('internal/dag/dag.go', '		if len(dag.caches) >= dag.CachesCount {', '		if len(dag.caches) >= dag.CachesCount && (dag.future == nil || dag.future.epoch != epoch) {')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	for e := uint64(0); e < 6; e++ {
		d.GetCache(e)
	}
	if n := len(d.caches); n > 2 {
		t.Fatalf("%d caches are kept, 2 are allowed", n)
	}
}
''')

seed('c19-future-lost', 'C19', 'a lower epoch is requested after a higher one whose successor has been prepared, then that successor is requested',
     'any miss replaces the prepared cache by its own successor, so the prepared cache of the highest epoch is thrown away and generated again',
     [('internal/dag/dag.go', 'if dag.future == nil || dag.future.epoch <= epoch {', 'if dag.future == nil || dag.future.epoch != nextEpoch {')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	c := tiny("")
	c.CachesCount = 4
	d := New(c)
	d.GetCache(8)
	prepared := d.future
	d.GetCache(3)
	if d.GetCache(9) != prepared {
		t.Fatal("the prepared cache of epoch 9 was not used")
	}
}
''')

seed('c19-two-ahead', 'C19', 'the successor is taken over: the next one is only prepared when none of it exists',
     'after a prepared cache has been taken over, no new successor is prepared',
     [('internal/dag/dag.go', '''		dag.caches[epoch] = c
		nextEpoch := epoch + 1
		if dag.future == nil ||''', '''		known := len(dag.caches) > 0
		dag.caches[epoch] = c
		nextEpoch := epoch + 1
		if dag.future == nil && !known ||'''),
      ('internal/dag/dag.go', '|| dag.future.epoch <= epoch {', '|| dag.future != nil && dag.future.epoch <= epoch {')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	d.GetCache(4)
	d.GetCache(5)
	if d.future == nil || d.future.epoch != 6 {
		t.Fatal("epoch 6 is not being prepared")
	}
}
''')

seed('c17-late-future', 'C17', 'two requests that each install a successor, or take it over, before the background goroutine of the first has started',
     'the background goroutine reads the shared future field when it starts, without the lock: it races, may generate another cache or dereference nil',
     [('internal/dag/dag.go', 'go dag.future.generate(dag)', 'go func() { dag.future.generate(dag) }()')],
     'internal/dag', ['sync', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		d := New(tiny(""))
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for e := 0; e < 4; e++ {
					d.GetCache(uint64(e + g))
				}
			}(g)
		}
		wg.Wait()
	}
}
''', flags='-race', env='CGO_ENABLED=1')

seed('c17-shared-hasher', 'C17', 'two goroutines computing on one client at the same time',
     'one Keccak state is shared by every lookup function of a client, concurrent calls corrupt each other',
     [('internal/dag/dag.go', '''	future *cache            // Pre-generated cache for the estimated future DAG
}''', '''	future *cache            // Pre-generated cache for the estimated future DAG
	hasher crypto.Hasher     // Keccak-512 state reused by the lookups
}'''),
      ('internal/dag/dag.go', '		caches: make(map[uint64]*cache),\n	}\n\n	return dag', '		caches: make(map[uint64]*cache),\n		hasher: crypto.NewKeccak512Hasher(),\n	}\n\n	return dag'),
      ('internal/dag/dag.go', '''	keccak512Hasher := crypto.NewKeccak512Hasher()
	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(c.Cache(), index, 4, keccak512Hasher)''', '''	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(c.Cache(), index, 4, dag.hasher)''')],
     'internal/dag', ['reflect', 'sync', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	c := d.GetCache(0)
	var want [][]uint32
	l := d.NewLookupFunc2048(c, 0)
	for i := 0; i < 64; i++ {
		want = append(want, l(uint32(i)))
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := d.NewLookupFunc2048(c, 0)
			for n := 0; n < 50; n++ {
				for i := range want {
					if !reflect.DeepEqual(l(uint32(i)), want[i]) {
						t.Error("a concurrent lookup differs")
						return
					}
				}
			}
		}()
	}
	wg.Wait()
}
''', flags='-race', env='CGO_ENABLED=1')

seed('c20-second-magic', 'C20', 'a dump of the right size whose first magic word is right and the second is not, with damaged data behind it',
     'only the first magic word is compared, so a damaged dump is used',
     [('internal/dag/mmap.go', '''	for i, magic := range dumpMagic {
		if buffer[i] != magic {
			mem.Unmap()
			file.Close()
			return df, errors.New("invalid dump magic")
		}
	}
''', '''	if buffer[0] != dumpMagic[0] {
		mem.Unmap()
		file.Close()
		return df, errors.New("invalid dump magic")
	}
''')],
     'internal/dag', ['io/ioutil', 'path/filepath', 'reflect', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	want := append([]uint32{}, New(tiny("")).GetCache(0).Cache()...)
	New(tiny(dir)).GetCache(0)
	files, _ := filepath.Glob(filepath.Join(dir, "cache-TST-R7-0000000000000000"))
	if len(files) != 1 {
		t.Fatal(files)
	}
	b, err := ioutil.ReadFile(files[0])
	if err != nil {
		t.Fatal(err)
	}
	for i := 4; i < len(b); i++ {
		b[i] = 0
	}
	ioutil.WriteFile(files[0], b, 0644)
	c := New(tiny(dir)).GetCache(0)
	if !reflect.DeepEqual(c.Cache(), want) {
		t.Fatal("a damaged dump was used")
	}
}
''')

seed('c22-no-l1-fallback', 'C22', 'a coin with an L1 cache whose storage directory cannot be used',
     'when the cache falls back to memory the L1 cache is never generated, so Compute panics',
     [('internal/dag/cache.go', '''				c.cache.data = make([]uint32, size/4)
				cfg.generateCache(c.cache.data, c.epoch, seed)
			}
		}
''', '''				// nothing is stored, so there is nothing to replace or to prune
				c.cache.data = make([]uint32, size/4)
				cfg.generateCache(c.cache.data, c.epoch, seed)
				return
			}
		}
''')],
     'internal/dag', ['io/ioutil', 'path/filepath', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "file")
	ioutil.WriteFile(file, nil, 0644)
	c := New(tinyL1(filepath.Join(file, "store"))).GetCache(0)
	if len(c.L1()) != 256 {
		t.Fatal("no L1 cache")
	}
	if c = New(tinyL1(t.TempDir())).GetCache(0); len(c.L1()) != 256 {
		t.Fatal("no L1 cache")
	}
}
''')

seed('c22-l1-from-disk-only', 'C22', 'the L1 cache cannot be published (its final name is a non-empty directory) while the cache can',
     'the memory fallback of the L1 cache leaves room for a magic that is only in the file',
     [('internal/dag/cache.go', '''				c.l1.data = make([]uint32, cfg.L1CacheNumItems)
				cfg.generateL1Cache(c.l1.data, c.cache.data)
			}
		}

		// Iterate''', '''				c.l1.data = make([]uint32, cfg.L1CacheNumItems)
				l1Generator(c.l1.data[len(dumpMagic):])
			}
		}

		// Iterate''')],
     'internal/dag', ['os', 'path/filepath', 'reflect', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	want := New(tinyL1("")).GetCache(0).L1()
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "l1-TST-R7-0000000000000000", "x"), 0755)
	if got := New(tinyL1(dir)).GetCache(0).L1(); !reflect.DeepEqual(got, want) {
		t.Fatal("the L1 cache in memory is wrong")
	}
}
''')

seed('c23-prune-etc-seeds', 'C23', 'a coin whose seed epochs are shorter than its epochs (Ethereum Classic), advanced over several epochs',
     'old dumps are looked for under the wrong seeds, so stale caches stay behind',
     [('internal/dag/cache.go', 'seed := cfg.SeedHash(uint64(ep)*cfg.EpochLength + 1)', 'seed := cfg.SeedHash(uint64(ep)*cfg.SeedEpochLength + 1)')],
     'internal/dag', ['io/ioutil', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	c := tiny(dir)
	c.EpochLength = 20
	for e := uint64(0); e < 12; e += 1 {
		d := New(c)
		d.GetCache(e)
		for i := 0; i < 200; i++ {
			time.Sleep(5 * time.Millisecond)
			if fs, _ := ioutil.ReadDir(dir); i > 20 && len(fs) <= 4 {
				break
			}
		}
	}
	fs, _ := ioutil.ReadDir(dir)
	if len(fs) > 4 {
		t.Fatalf("%d files are left", len(fs))
	}
}
''')

seed('c23-prune-window', 'C23', 'epochs are requested out of order, so that dumps newer than the window exist when a lower epoch is generated',
     'the walk over previous dumps removes every dump of the coin except the newest few around the generated one: newer epochs are deleted',
     [('internal/dag/cache.go', '''		for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {''', '''		for ep := int(c.epoch) + 2*cfg.CachesCount; ep >= 0; ep-- {
			if ep <= int(c.epoch)+cfg.CachesCount && ep > int(c.epoch)-cfg.CachesCount {
				continue
			}
''')],
     'internal/dag', ['os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tiny(dir))
	d.GetCache(13)
	d.GetCache(9)
	if _, err := os.Stat(d.cacheStorageLocation(d.SeedHash(131)[:8])); err != nil {
		t.Fatal("the dump of the newer epoch is gone")
	}
}
''')

seed('c23-glob', 'C23', 'two coins of which one has the name of the other as a prefix, or another revision of the same coin, in one directory',
     'pruning lists the dumps of the coin by a name pattern that also matches longer coin names and other revisions',
     [('internal/dag/cache.go', '''			cachePath := cfg.cacheStorageLocation(seed[:8])
			os.Remove(cachePath)
''', '''			stale, _ := filepath.Glob(filepath.Join(cfg.StorageDir, fmt.Sprintf("cache-%s*-%x", cfg.Name, seed[:8])))
			for _, cachePath := range stale {
				os.Remove(cachePath)
			}
'''), ('internal/dag/cache.go', 'import (\n\t"os"\n', 'import (\n\t"fmt"\n\t"os"\n\t"path/filepath"\n')],
     'internal/dag', ['os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	old := tiny(dir)
	old.Revision = 6
	o := New(old)
	o.GetCache(2)
	New(tiny(dir)).GetCache(8)
	if _, err := os.Stat(o.cacheStorageLocation(o.SeedHash(21)[:8])); err != nil {
		t.Fatal("another revision's dump was removed")
	}
}
''')

seed('c24-l1-mapping', 'C24', 'many epochs of a coin with an L1 cache, storage enabled, garbage collection in between',
     'evicted caches close the L1 dump but never unmap it: one mapping leaks per epoch',
     [('internal/dag/cache.go', '''		c.l1.mmap.Unmap()
		c.l1.dump.Close()''', '''		c.l1.dump.Close()''')],
     'internal/dag', ['io/ioutil', 'runtime', 'strings', 'testing', 'time'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tinyL1(dir))
	for e := uint64(0); e < 40; e++ {
		d.GetCache(e)
		runtime.GC()
	}
	n := 0
	for i := 0; i < 20; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
		b, _ := ioutil.ReadFile("/proc/self/maps")
		if n = strings.Count(string(b), "/l1-TST"); n <= 4 {
			return
		}
	}
	t.Fatalf("%d L1 mappings are left", n)
}
''')

seed('c24-rejected-mapping', 'C24', 'dumps with a wrong magic are found again and again',
     'a rejected dump is closed but stays mapped',
     [('internal/dag/mmap.go', '''		if buffer[i] != magic {
			mem.Unmap()
			file.Close()''', '''		if buffer[i] != magic {
			file.Close()''')],
     'internal/dag', ['io/ioutil', 'path/filepath', 'strings', 'testing'], '''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "dump-of-demo")
	ioutil.WriteFile(p, make([]byte, 4104), 0644)
	for i := 0; i < 50; i++ {
		if _, err := memoryMap(p, 4096, false); err == nil {
			t.Fatal("accepted")
		}
	}
	b, _ := ioutil.ReadFile("/proc/self/maps")
	if n := strings.Count(string(b), "dump-of-demo"); n > 2 {
		t.Fatalf("%d mappings of a rejected dump are left", n)
	}
}
''')

seed('c24-early-unmap', 'C24', 'a cache is evicted and collected while a caller is still computing with it',
     'the lookups hold on to the mapped data only, and Ethash no longer keeps the cache alive: the collector unmaps it under a running computation',
     [('internal/dag/dag.go', '''	keccak512Hasher := crypto.NewKeccak512Hasher()
	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(c.Cache(), index, 1, keccak512Hasher)''', '''	keccak512Hasher := crypto.NewKeccak512Hasher()
	data := c.Cache()
	lookup := func(index uint32) []uint32 {
		return dag.generateDatasetItemUint(data, index, 1, keccak512Hasher)'''),
      ('ethash/client.go', '	runtime.KeepAlive(cache)\n', ''), ('ethash/client.go', '	"runtime"\n', '')],
     'ethash', ['runtime', 'sync', 'testing', 'time', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	c := New(dag.Config{Name: "TST", Revision: 7, StorageDir: t.TempDir(),
		DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 12, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 2048, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 1, CachesCount: 1,
	})
	end := time.Now().Add(8 * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := uint64(0); time.Now().Before(end); n++ {
				c.Compute(make([]byte, 32), (n*7+uint64(g)*3)%40*10, n)
			}
		}(g)
	}
	for time.Now().Before(end) {
		runtime.GC()
	}
	wg.Wait()
}
''')

seed('c21-publish-early', 'C21', 'the process is killed while the generator is filling the dump',
     'the dump gets its final name as soon as it is mapped and bears the magic, before its contents are generated',
     [('internal/dag/mmap.go', '''	data := buffer[len(dumpMagic):]
	generator(data)
''', '''	data := buffer[len(dumpMagic):]
	os.Rename(temp, path)
	generator(data)
'''), ('internal/dag/mmap.go', '''	if err := os.Rename(temp, path); err != nil {
		os.Remove(temp)
		return df, err
	}

	return memoryMap''', '''	return memoryMap''')],
     'internal/dag', ['os', 'path/filepath', 'testing'], '''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "dump")
	memoryMapAndGenerate(p, 4096, false, func(b []uint32) {
		if _, err := os.Stat(p); err == nil {
			t.Error("the dump is published before it is filled")
		}
	})
	if _, err := os.Stat(p); err != nil {
		t.Error("the dump is never published")
	}
}
''')

seed('c32-l1-rewritten', 'C32', 'the cache dump is missing while a valid L1 dump is present',
     'a missing cache always makes the L1 dump be written again',
     [('internal/dag/cache.go', '''		if needsL1 {
			l1Generator''', '''		if cfg.L1Enabled {
			l1Generator''')],
     'internal/dag', ['os', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tinyL1(dir))
	d.GetCache(0)
	seed := d.SeedHash(1)[:8]
	before, err := os.Stat(d.l1StorageLocation(seed))
	if err != nil {
		t.Fatal(err)
	}
	os.Remove(d.cacheStorageLocation(seed))
	New(tinyL1(dir)).GetCache(0)
	after, err := os.Stat(d.l1StorageLocation(seed))
	if err != nil || !os.SameFile(before, after) {
		t.Fatal("the L1 dump was written again")
	}
}
''')

seed('c25-own-temp', 'C25', 'two processes that generate the same epoch at the same time, one cleaning up what it takes for leftovers while the other is filling its file',
     'before a dump is generated its final name is emptied for reuse: another process that has it mapped or loads it now sees a dump that changes',
     [('internal/dag/mmap.go', '''	// Create a huge temporary empty file to fill with data
''', '''	// Refresh a dump that could not be used in place, whoever has it open sees the
	// new contents
	if file, err := os.OpenFile(path, os.O_RDWR, 0666); err == nil {
		info, err := file.Stat()
		if err == nil && info.Size() == int64(len(dumpMagic))*4+int64(size) {
			if mem, buffer, err := memoryMapFile(file, true); err == nil {
				for i := range buffer {
					buffer[i] = 0
				}
				generator(buffer[len(dumpMagic):])
				copy(buffer, dumpMagic)
				mem.Unmap()
				file.Close()
				return memoryMap(path, size, lock)
			}
		}
		file.Close()
	}

	// Create a huge temporary empty file to fill with data
''')],
     'internal/dag', ['os', 'path/filepath', 'testing'], '''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "dump")
	fill := func(b []uint32) {
		for i := range b {
			b[i] = 7
		}
	}
	// another process has published the dump since this one found it missing
	df, err := memoryMapAndGenerate(p, 4096, false, fill)
	if err != nil {
		t.Fatal(err)
	}
	before, _ := os.Stat(p)
	memoryMapAndGenerate(p, 4096, false, func(b []uint32) {
		for _, v := range df.data {
			if v != 7 {
				t.Fatal("the mapped dump changes under its user")
			}
		}
		fill(b)
	})
	if after, _ := os.Stat(p); os.SameFile(before, after) {
		t.Log("the dump was written in place")
	}
}
''')

seed('c16-parents-tail', 'C16', 'a configuration whose dataset parent count is no multiple of sixteen',
     'the parent loop is unrolled by mix words and drops the remainder',
     [('internal/dag/generate.go', '''	for i := uint32(0); i < d.DatasetParents; i++ {
		parent := crypto.Fnv1(index^i, intMix[i%16]) % rows
		crypto.FnvHash(intMix, cache[parent*hashWords:])
	}''', '''	for i := uint32(0); i+hashWords <= d.DatasetParents; i += hashWords {
		for j := uint32(0); j < hashWords; j++ {
			parent := crypto.Fnv1(index^(i+j), intMix[j]) % rows
			crypto.FnvHash(intMix, cache[parent*hashWords:])
		}
	}''')],
     'internal/dag', ['bytes', 'testing', 'github.com/sencha-dev/powkit/internal/crypto'], TINY + '''
func TestDemo(t *testing.T) {
	c := tiny("")
	c.DatasetParents = 17
	a := New(c)
	cache := a.GetCache(0).Cache()
	c.DatasetParents = 16
	b := New(c)
	h := crypto.NewKeccak512Hasher()
	for i := uint32(0); i < 4; i++ {
		if bytes.Equal(a.generateDatasetItem(cache, i, h), b.generateDatasetItem(cache, i, h)) {
			t.Fatal("the seventeenth parent is not mixed in")
		}
	}
}
''')

seed('c16-l1-tail', 'C16', 'an L1 cache generated in the file rather than in memory, of more items than a page holds',
     'when the L1 cache is generated into a mapping, its length is rounded down to a multiple of 64 items',
     [('internal/dag/cache.go', 'cfg.generateL1Cache(buffer, c.cache.data) }', 'cfg.generateL1Cache(buffer[:uint64(len(buffer))&^63], c.cache.data) }')],
     'internal/dag', ['reflect', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	c := tinyL1("")
	c.L1CacheSize, c.L1CacheNumItems = 1024+192, 256+48
	mem := New(c).GetCache(0).L1()
	c.StorageDir = t.TempDir()
	if !reflect.DeepEqual(New(c).GetCache(0).L1(), mem) {
		t.Fatal("the L1 cache on disk differs from the one in memory")
	}
}
''')

seed('c15-float', 'C15', 'a height above 2^53 right before an epoch boundary',
     'the epoch is computed in floating point',
     [('internal/dag/dag.go', 'epoch := height / d.EpochLength', 'epoch := uint64(float64(height) / float64(d.EpochLength))')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	c := tiny("")
	c.EpochLength = 1 << 56
	if New(c).CalcEpoch(1<<56-1) != 0 {
		t.Fatal("wrong epoch")
	}
}
''')

seed('c15-etc-seed-drift', 'C15', 'a coin whose epoch length is not a multiple of its seed epoch length, or Ethereum Classic beyond a few epochs',
     'the seed of an epoch is derived by whole ratios of the two lengths',
     [('internal/dag/cache.go', 'seed := cfg.SeedHash(c.epoch*cfg.EpochLength + 1)', 'seed := cfg.SeedHash(c.epoch*(cfg.EpochLength/cfg.SeedEpochLength)*cfg.SeedEpochLength + 1)')],
     'internal/dag', ['os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	c := tiny(t.TempDir())
	c.EpochLength = 25
	d := New(c)
	d.GetCache(2)
	if _, err := os.Stat(d.cacheStorageLocation(d.SeedHash(51)[:8])); err != nil {
		t.Fatal("the cache of epoch 2 is not seeded by its fifth seed epoch")
	}
}
''')

seed('c14-table-end', 'C14', 'the first epoch behind the lookup table',
     'the bound of the dataset table is inclusive: a size query for the first epoch beyond it panics',
     [('internal/dag/dag.go', 'epoch < d.DatasetSizes.maxEpoch', 'epoch <= d.DatasetSizes.maxEpoch')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	var table []uint64
	for e := uint64(0); e < 5; e++ {
		table = append(table, d.DatasetSize(e))
	}
	want := d.DatasetSize(5)
	c := tiny("")
	c.DatasetSizes = NewLookupTable(table, 5)
	if New(c).DatasetSize(5) != want {
		t.Fatal("wrong size beyond the table")
	}
}
''')

seed('c14-fermat', 'C14', 'an epoch whose row count comes by a base-2 pseudoprime on the way down to the largest prime',
     'primality is decided by a Fermat test to base two, which pseudoprimes pass',
     [('internal/dag/dag.go', '''	size := d.CacheInitBytes + d.CacheGrowthBytes*epoch - hashBytes

	// Always accurate for n < 2^64
	for !new(big.Int).SetUint64(size / hashBytes).ProbablyPrime(1) {
		size -= 2 * hashBytes
	}
''', '''	size := d.CacheInitBytes + d.CacheGrowthBytes*epoch - hashBytes

	two := big.NewInt(2)
	for {
		n := new(big.Int).SetUint64(size / hashBytes)
		if new(big.Int).Exp(two, n, n).Cmp(two) == 0 {
			break
		}
		size -= 2 * hashBytes
	}
''')],
     'internal/dag', ['math/big', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	for init := uint64(300); init < 6000; init++ {
		c := tiny("")
		c.CacheInitBytes, c.CacheGrowthBytes = (2*init+2)*64, 0
		if n := New(c).CacheSize(0) / 64; !new(big.Int).SetUint64(n).ProbablyPrime(20) {
			t.Fatalf("%d rows are not a prime number", n)
		}
	}
}
''')
