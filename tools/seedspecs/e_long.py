seed('c18-wrap', 'C18', 'more than 65535 requests on one client, then a new epoch that needs room',
     'uses are counted in 16 bits instead of timed, after a wrap the cache used last looks like the oldest',
     [('internal/dag/dag.go', 'evict.used.After(cache.used)', 'evict.used > cache.used'),
      ('internal/dag/dag.go', '	c.used = time.Now()\n', '	dag.uses++\n	c.used = dag.uses\n'),
      ('internal/dag/dag.go', '	"sync"\n	"time"\n', '	"sync"\n'),
      ('internal/dag/dag.go', '	future *cache            // Pre-generated cache for the estimated future DAG\n}', '	future *cache            // Pre-generated cache for the estimated future DAG\n	uses   uint16            // Requests so far, orders the caches by use\n}'),
      ('internal/dag/cache.go', '	used  time.Time\n', '	used  uint16\n'),
      ('internal/dag/cache.go', '	"sync"\n	"time"\n', '	"sync"\n')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	d.GetCache(30)
	a := d.GetCache(50)
	for i := 0; i < 65534; i++ {
		d.GetCache(50)
	}
	d.GetCache(10)
	if d.GetCache(50) != a {
		t.Fatal("the cache used last was evicted")
	}
}
''')

seed('c23-last-hundred', 'C23', 'a dump more than a hundred epochs older than the one generated',
     'only the last hundred epochs are looked at when old dumps are removed',
     [('internal/dag/cache.go', 'for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {', 'for ep := int(c.epoch) - cfg.CachesCount; ep >= 0 && ep > int(c.epoch)-100; ep-- {')],
     'internal/dag', ['os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(t.TempDir()))
	p := d.cacheStorageLocation(d.SeedHash(3*d.EpochLength + 1)[:8])
	if err := os.MkdirAll(d.StorageDir, 0755); err != nil {
		t.Fatal(err)
	}
	os.WriteFile(p, []byte("old"), 0644)
	d.GetCache(150)
	if _, err := os.Stat(p); err == nil {
		t.Fatal("a stale dump is still there")
	}
}
''')

seed('c23-first-names', 'C23', 'a directory with more than a hundred entries',
     'old dumps are only looked for among the first hundred names of the directory',
     [('internal/dag/cache.go', '''		for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {
''', '''		present := map[string]bool{}
		if dir, err := os.Open(cfg.StorageDir); err == nil {
			names, _ := dir.Readdirnames(100)
			for _, name := range names {
				present[name] = true
			}
			dir.Close()
		}
		for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {
'''), ('internal/dag/cache.go', '''			os.Remove(cachePath)

			l1Path''', '''			if present[filepath.Base(cachePath)] {
				os.Remove(cachePath)
			}

			l1Path'''), ('internal/dag/cache.go', '	"os"\n', '	"os"\n	"path/filepath"\n')],
     'internal/dag', ['fmt', 'os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(t.TempDir()))
	for i := 0; i < 600; i++ {
		os.WriteFile(fmt.Sprintf("%s/other-%d", d.StorageDir, i), nil, 0644)
	}
	var old []string
	for e := uint64(0); e < 10; e++ {
		p := d.cacheStorageLocation(d.SeedHash(e*d.EpochLength + 1)[:8])
		os.WriteFile(p, []byte("old"), 0644)
		old = append(old, p)
	}
	d.GetCache(30)
	for _, p := range old {
		if _, err := os.Stat(p); err == nil {
			t.Fatal("a stale dump is still there")
		}
	}
}
''')

seed('c26-slot-leak', 'C26', 'a few dozen calls with hashes of a wrong length on one client, then a valid one',
     'every refused call keeps one of the slots that bound the concurrent computations, in the end every call blocks',
     [('kawpow/client.go', 'type Client struct {\n	data *dag.DAG\n', 'type Client struct {\n	data  *dag.DAG\n	slots chan struct{}\n'),
      ('kawpow/client.go', '		data: dag.New(cfg),\n', '		data:  dag.New(cfg),\n		slots: make(chan struct{}, 64),\n'),
      ('kawpow/client.go', '''	if len(hash) != 32 {
''', '''	// bound the memory of concurrent computations
	c.slots <- struct{}{}
	if len(hash) != 32 {
'''), ('kawpow/client.go', '	runtime.KeepAlive(cache)\n', '	runtime.KeepAlive(cache)\n	<-c.slots\n')],
     'kawpow', ['testing', 'time'], '''
func TestDemo(t *testing.T) {
	c := NewRavencoin()
	done := make(chan bool)
	go func() {
		for i := 0; i < 100; i++ {
			c.Compute(nil, 0, 0)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("a refused call blocks")
	}
}
''')

seed('c27-octopus-memo', 'C27', 'one hash and nonce at heights of two epochs, one after the other',
     'the last digest is remembered by hash and nonce, the height is forgotten',
     [('octopus/client.go', '	epoch := c.data.CalcEpoch(height)\n', '''	// miners ask for one share several times
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.lastDigest != nil && c.lastNonce == nonce && bytes.Equal(c.lastHash, hash) {
		return append([]byte(nil), c.lastDigest...), nil
	}

	epoch := c.data.CalcEpoch(height)
'''), ('octopus/client.go', '	runtime.KeepAlive(cache)\n', '	runtime.KeepAlive(cache)\n	c.lastHash, c.lastNonce, c.lastDigest = append([]byte(nil), hash...), nonce, append([]byte(nil), digest...)\n'),
      ('octopus/client.go', 'type Client struct {\n', 'type Client struct {\n	mu         sync.Mutex\n	lastHash   []byte\n	lastNonce  uint64\n	lastDigest []byte\n'),
      ('octopus/client.go', '	"runtime"\n', '	"runtime"\n	"sync"\n'), ('octopus/client.go', '	"fmt"\n', '	"bytes"\n	"fmt"\n')],
     'octopus', ['bytes', 'testing', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	c := New(dag.Config{Name: "TST", DatasetInitBytes: 1 << 20, DatasetGrowthBytes: 1 << 18, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 256, DatasetParents: 8, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 3, CachesCount: 2})
	h := make([]byte, 32)
	for i := range h {
		h[i] = byte(i)
	}
	a, _ := c.Compute(h, 1, 5)
	b, _ := c.Compute(h, 51, 5)
	if bytes.Equal(a, b) {
		t.Fatal("two epochs have one digest")
	}
}
''')

seed('c24-map-fails', 'C24', 'mapping a dump fails again and again',
     'a dump that cannot be mapped stays open',
     [('internal/dag/mmap.go', '''	mem, buffer, err := memoryMapFile(file, false)
	if err != nil {
		file.Close()
''', '''	mem, buffer, err := memoryMapFile(file, false)
	if err != nil {
		rejected = append(rejected, file)
'''), ('internal/dag/mmap.go', '''var (
	dumpMagic ''', '''var (
	rejected  []*os.File // kept for a look at what is wrong with them
	dumpMagic ''')],
     'internal/dag', ['os', 'testing'], '''
func TestDemo(t *testing.T) {
	// an empty dump cannot be mapped
	p := t.TempDir() + "/dump"
	if err := os.WriteFile(p, nil, 0644); err != nil {
		t.Fatal(err)
	}
	count := func() int {
		fds, _ := os.ReadDir("/proc/self/fd")
		return len(fds)
	}
	before := count()
	for i := 0; i < 20; i++ {
		size := -8
		memoryMap(p, uint64(size), false)
	}
	if n := count(); n > before+5 {
		t.Fatalf("%d descriptors are left open", n-before)
	}
}
''')


seed('c29-short-dst', 'C29', 'a destination that is shorter than the sources but has spare capacity',
     'the length check of the destination looks at its capacity, the kernel writes behind its end',
     [('internal/common/bitutil/xor_amd64.go', '	_ = dst[n-1]\n', '	dst = dst[:n]\n')],
     'internal/common/bitutil', ['testing'], '''
func TestDemo(t *testing.T) {
	buf := make([]byte, 64)
	a, b := make([]byte, 32), make([]byte, 32)
	for i := range a {
		a[i] = 1
	}
	defer func() {
		recover()
		if buf[20] != 0 {
			t.Fatal("bytes behind the destination were written")
		}
	}()
	XORBytes(buf[:16], a, b)
}
''')
