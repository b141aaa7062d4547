seed('c24-stale-future', 'C24', 'a height that skips the epoch prepared in the background: the goroutine that prepared it waits for ever to be asked for it',
     'the background goroutine of every prepared epoch that is passed over stays blocked on its channel',
     [('internal/dag/cache.go', '''	l1    dataFile
}''', '''	l1    dataFile
	ready chan struct{} // handed over by the background generation, if any
}'''),
      ('internal/dag/dag.go', '''			dag.future = &cache{epoch: nextEpoch}
			go dag.future.generate(dag)
''', '''			next := &cache{epoch: nextEpoch, ready: make(chan struct{})}
			dag.future = next
			go func() {
				next.generate(dag)
				next.ready <- struct{}{}
			}()
'''),
      ('internal/dag/dag.go', '''	var c *cache

	dag.mu.Lock()''', '''	var c *cache
	var ready chan struct{}

	dag.mu.Lock()'''),
      ('internal/dag/dag.go', '''			c, dag.future = dag.future, nil
''', '''			c, dag.future = dag.future, nil
			ready = c.ready
'''),
      ('internal/dag/dag.go', '''	dag.mu.Unlock()

	c.generate(dag)
''', '''	dag.mu.Unlock()

	if ready != nil {
		<-ready
	}
	c.generate(dag)
''')],
     'internal/dag', ['testing', 'runtime', 'time'], '''
func TestDemo(t *testing.T) {
	d := New(Config{Name: "T", EpochLength: 100, SeedEpochLength: 100, CachesCount: 2, CacheInitBytes: 64 * 40, CacheGrowthBytes: 64, DatasetInitBytes: 1 << 20, DatasetGrowthBytes: 1 << 12, MixBytes: 128, DatasetParents: 4, CacheRounds: 1})
	before := runtime.NumGoroutine()
	for e := uint64(0); e < 100; e += 2 {
		d.GetCache(e)
	}
	for i := 0; i < 200 && runtime.NumGoroutine() > before+5; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatalf("%d goroutines, %d before", n, before)
	}
}
''')
seed('c11-header-length', 'C11', 'a header of fewer than forty bytes with a solution found for it',
     'only longer headers are refused, shorter ones are hashed as they are',
     [('beamhashiii/client.go', 'if len(header) != 40 {', 'if len(header) > 40 {')],
     'beamhashiii', ['testing', 'encoding/hex'], '''
func TestDemo(t *testing.T) {
	header, _ := hex.DecodeString("efdcbdb00d4485c9e3ef9555f94ed36748e3c152a36eadb26d34ff00f2142c7e77ec49c2dd24c4")
	soln, _ := hex.DecodeString("1e890d88ec4884ddaa4b2ca0389966a2e48aa1c93e3194197428c6a738d9330a1d16333d0a8a16ae2b0ab9fbf6e8bd38a4e9036a6c4697e5d6343154a0260bc4a6b521dd32c2865cf4b0c780df919ed790e6729e3b16f639aa704f69577824afca49efd9710f5f99")
	ok, err := NewBeam().Verify(header, soln)
	if ok || err == nil {
		t.Fatal(len(header), ok, err)
	}
}
''')
