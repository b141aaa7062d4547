# Round m: planted from the property texts and the code.

CFG34 = '''
func conf(name string, growth uint64) Config {
	return Config{Name: name, DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 12, CacheInitBytes: 1 << 13, CacheGrowthBytes: growth,
		MixBytes: 128, DatasetParents: 2, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 8, CachesCount: 3}
}

// during tells whether f came back while g was still running.
func during(t *testing.T, g, f func()) {
	done := make(chan bool)
	go func() {
		g()
		close(done)
	}()
	time.Sleep(20 * time.Millisecond)
	f()
	select {
	case <-done:
		t.Fatal("the request was answered only after the other generation")
	default:
	}
	<-done
}
'''

seed('c34-under-lock', 'C34', 'a request while the same client generates another epoch because a caller asked for it',
     'an epoch is generated before the lock is released, so that nobody evicts it half done',
     [('internal/dag/dag.go', '''	c.used = time.Now()
	dag.mu.Unlock()

	c.generate(dag)

	return c
''', '''	c.used = time.Now()
	c.generate(dag)
	dag.mu.Unlock()

	return c
''')],
     'internal/dag', ['testing', 'time'], CFG34 + '''
func TestDemo(t *testing.T) {
	d := New(conf("D", 8<<20))
	d.GetCache(0)
	during(t, func() { d.GetCache(3) }, func() { d.GetCache(0) })
}
''')

seed('c34-stored-future', 'C34', 'a client with a storage directory and an epoch whose successor takes long',
     'the successor is written to disk before the call goes on',
     [('internal/dag/dag.go', '''			go dag.future.generate(dag)
''', '''			if dag.StorageDir != "" {
				// a process that ends early would leave its dump behind
				next := dag.future
				defer next.generate(dag)
			} else {
				go dag.future.generate(dag)
			}
''')],
     'internal/dag', ['testing', 'time'], CFG34 + '''
func TestDemo(t *testing.T) {
	cfg := conf("D", 16<<20)
	cfg.StorageDir = t.TempDir()
	d := New(cfg)
	start := time.Now()
	d.GetCache(0)
	first := time.Since(start)
	d.GetCache(1)
	if whole := time.Since(start); whole > 300*time.Millisecond && first*5 > whole {
		t.Fatal("the first epoch waited for the second one", first, whole)
	}
	time.Sleep(10 * time.Millisecond)
	d.GetCache(2)
}
''')

seed('c34-one-at-a-time', 'C34', 'two clients (or a client and its own successor epoch) that generate at the same time',
     'caches are generated one at a time in the whole process, to bound the memory traffic',
     [('internal/dag/cache.go', '''type cache struct {
''', '''// generating keeps several generations from slowing each other down.
var generating sync.Mutex

type cache struct {
'''), ('internal/dag/cache.go', '''		size := cfg.CacheSize(c.epoch)
''', '''		generating.Lock()
		defer generating.Unlock()

		size := cfg.CacheSize(c.epoch)
''')],
     'internal/dag', ['testing', 'time'], CFG34 + '''
func TestDemo(t *testing.T) {
	d, e := New(conf("D", 8<<20)), New(conf("E", 8<<20))
	during(t, func() { d.GetCache(3) }, func() { e.GetCache(0) })
}
''')

seed('c34-evict-wait', 'C34', 'a client that keeps its full number of epochs, one of them in generation, when another one is asked for',
     'the eviction looks at every cache under a lock that its generation holds',
     [('internal/dag/cache.go', '''	used  time.Time
''', '''	mu    sync.Mutex // Protects used
	used  time.Time
'''), ('internal/dag/cache.go', '''// generate ensures that the cache content is generated before use.
func (c *cache) generate(cfg *DAG) {
	c.once.Do(func() {
''', '''// lastUse returns when the cache was last asked for.
func (c *cache) lastUse() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()

	return c.used
}

// generate ensures that the cache content is generated before use.
func (c *cache) generate(cfg *DAG) {
	c.once.Do(func() {
		c.mu.Lock()
		defer c.mu.Unlock()

'''), ('internal/dag/dag.go', '''				if evict == nil || evict.used.After(cache.used) {
''', '''				if evict == nil || evict.lastUse().After(cache.lastUse()) {
''')],
     'internal/dag', ['testing', 'time'], CFG34 + '''
func TestDemo(t *testing.T) {
	cfg := conf("D", 8<<20)
	cfg.CachesCount = 2
	d := New(cfg)
	d.GetCache(0)
	go d.GetCache(5)
	time.Sleep(10 * time.Millisecond)
	during(t, func() { d.GetCache(3) }, func() { d.GetCache(0) })
}
''')
