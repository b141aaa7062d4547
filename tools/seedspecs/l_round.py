# Round l: planted from the property texts and the code.

seed('c21-l1-direct', 'C21', 'a kill between the creation of the L1 dump and its single write',
     'dumps of up to 64 KiB are written straight to their final name',
     [('internal/dag/mmap.go', '''	// Create a huge temporary empty file to fill with data
	dump, err := createTemp(path)
''', '''	// Small dumps are done with a single write
	if size <= 1<<16 {
		view := make([]uint32, uint64(len(dumpMagic))+size/4)
		copy(view, dumpMagic)
		generator(view[len(dumpMagic):])

		raw := unsafe.Slice((*byte)(unsafe.Pointer(&view[0])), len(view)*4)
		if err := os.WriteFile(path, raw, 0644); err != nil {
			return df, err
		}

		return memoryMap(path, size, lock)
	}

	// Create a huge temporary empty file to fill with data
	dump, err := createTemp(path)
''')],
     'internal/dag', ['bytes', 'os', 'path/filepath', 'sync/atomic', 'testing'], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "dump")
	var want []byte
	var done, bad int32
	fill := func(b []uint32) {
		for i := range b {
			b[i] = 7
		}
	}
	df, err := memoryMapAndGenerate(path, 4096, false, fill)
	if err != nil {
		t.Fatal(err)
	}
	want, _ = os.ReadFile(path)
	_ = df
	fin := make(chan bool)
	go func() {
		for atomic.LoadInt32(&done) == 0 {
			if b, err := os.ReadFile(path); err == nil && !bytes.Equal(b, want) {
				atomic.StoreInt32(&bad, 1)
			}
		}
		close(fin)
	}()
	for i := 0; i < 20000 && atomic.LoadInt32(&bad) == 0; i++ {
		os.Remove(path)
		df, err := memoryMapAndGenerate(path, 4096, false, fill)
		if err != nil {
			t.Fatal(err)
		}
		df.mmap.Unmap()
		df.dump.Close()
	}
	atomic.StoreInt32(&done, 1)
	<-fin
	if bad != 0 {
		t.Fatal("the dump was seen incomplete")
	}
}
''')

seed('c18-keep-neighbour', 'C18', 'the least recently used epoch directly precedes the requested one',
     'the eviction spares the epoch before the requested one, another one has to go',
     [('internal/dag/dag.go', '''				if evict == nil || evict.used.After(cache.used) {''', '''				// blocks around an epoch boundary still need the one before
				if cache.epoch+1 == epoch && len(dag.caches) > 1 {
					continue
				}
				if evict == nil || evict.used.After(cache.used) {''')],
     'internal/dag', ['testing', 'time'], '''
func TestDemo(t *testing.T) {
	d := New(Config{DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 12, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 2, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 1, CachesCount: 2})
	for _, e := range []uint64{5, 9, 6} {
		d.GetCache(e)
		time.Sleep(2 * time.Millisecond)
	}
	if d.caches[5] != nil || d.caches[9] == nil {
		t.Fatal("the least recently used epoch was kept")
	}
}
''')

seed('c19-jump', 'C19', 'a request beyond the prepared epoch',
     'an epoch is only prepared once the last prepared one was used, a jump ahead ends the preparation',
     [('internal/dag/dag.go', '''		if dag.future == nil || dag.future.epoch <= epoch {''', '''		if dag.future == nil {''')],
     'internal/dag', ['testing'], '''
func TestDemo(t *testing.T) {
	d := New(Config{DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 12, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 2, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 1, CachesCount: 2})
	d.GetCache(3)
	d.GetCache(7)
	if d.future == nil || d.future.epoch != 8 {
		t.Fatal("the next epoch is not prepared")
	}
}
''')


seed('c27-key-digits', 'C27', 'two calls on one client with one hash whose height and nonce have the same digits one after the other',
     'KawPow keeps its latest results under a printed key, in which height and nonce are not told apart',
     [('kawpow/client.go', '''type Client struct {
	data *dag.DAG
}
''', '''type Client struct {
	data *dag.DAG

	mu     sync.Mutex
	latest map[string][2]string // miners submit a share more than once
}
'''), ('kawpow/client.go', '''	epoch := c.data.CalcEpoch(height)
''', '''	key := fmt.Sprintf("%x%d%d", hash, height, nonce)
	c.mu.Lock()
	known, ok := c.latest[key]
	c.mu.Unlock()
	if ok {
		return []byte(known[0]), []byte(known[1]), nil
	}

	epoch := c.data.CalcEpoch(height)
'''), ('kawpow/client.go', '''	runtime.KeepAlive(cache)
''', '''	runtime.KeepAlive(cache)

	c.mu.Lock()
	if c.latest == nil || len(c.latest) >= 1024 {
		c.latest = make(map[string][2]string)
	}
	c.latest[key] = [2]string{string(mix), string(digest)}
	c.mu.Unlock()
'''), ('kawpow/client.go', '	"runtime"\n', '	"runtime"\n	"sync"\n')],
     'kawpow', ['bytes', 'testing', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	c := New(dag.Config{DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 12, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 2, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 1, CachesCount: 2,
		L1Enabled: true, L1CacheSize: 1 << 14, L1CacheNumItems: 1 << 12})
	a, _, _ := c.Compute(make([]byte, 32), 1, 23)
	b, _, _ := c.Compute(make([]byte, 32), 12, 3)
	if bytes.Equal(a, b) {
		t.Fatal("one result for two inputs")
	}
}
''')
