seed('c02-mulhi', 'C02', 'two registers whose product lies within a few hundred below a multiple of 2^32 and above 2^53',
     'the upper half of a product is computed in floating point, which rounds up there',
     [('internal/progpow/math.go', '	return uint32((uint64(a) * uint64(b)) >> 32)\n', '''	const scale = 1.0 / (1 << 32)

	return uint32(float64(a) * float64(b) * scale)
''')],
     'internal/progpow', ['testing'], '''
func TestDemo(t *testing.T) {
	x := uint64(1)
	for i := 0; i < 50000000; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		y := x*6364136223846793005 + 1442695040888963407
		a, b := uint32(x>>32), uint32(y>>32)
		if v := randomMath(a, b, 2); uint64(v) != uint64(a)*uint64(b)>>32 {
			t.Fatal(a, b, v)
		}
	}
}
''')

seed('c21-adopt-leftover', 'C21', 'a process that is killed while it fills the file, and another that needs the same epoch later',
     'the temporary file has a fixed name, and one of the right size with a magic is taken for complete',
     [('internal/dag/mmap.go', '''	// Create a huge temporary empty file to fill with data
	dump, err := createTemp(path)
''', '''	// A complete file may be left over if renaming it was interrupted
	part := path + ".part"
	if df, err := memoryMap(part, size, lock); err == nil {
		if err := os.Rename(part, path); err == nil {
			return df, nil
		}
		df.mmap.Unmap()
		df.dump.Close()
	}
	os.Remove(part)

	// Create a huge temporary empty file to fill with data
	dump, err := os.OpenFile(part, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
''')],
     'internal/dag', ['testing', 'path/filepath'], '''
func TestDemo(t *testing.T) {
	for _, cut := range []string{"fill", "end"} {
		path := filepath.Join(t.TempDir(), "dump")
		func() {
			defer func() { recover() }()
			memoryMapAndGenerate(path, 4096, false, func(b []uint32) {
				for i := range b {
					b[i] = 7
					if cut == "fill" && i == 100 {
						panic("killed")
					}
				}
			})
		}()
		df, err := memoryMapAndGenerate(path, 4096, false, func(b []uint32) {
			for i := range b {
				b[i] = 7
			}
		})
		if err != nil {
			t.Fatal(err)
		}
		for i, v := range df.data {
			if v != 7 {
				t.Fatal(cut, i, v)
			}
		}
	}
}
''')

seed('c28-hasher-empty', 'C28', 'an empty message hashed right after another one by the same hasher',
     'a hasher is only reset where there is something to write',
     [('internal/crypto/hasher.go', '''		rh.Reset()
		rh.Write(data)
''', '''		if len(data) > 0 {
			rh.Reset()
			rh.Write(data)
		}
''')],
     'internal/crypto', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	h, a, b := NewKeccak256Hasher(), make([]byte, 32), make([]byte, 32)
	h(a, nil)
	h(b, []byte("x"))
	h(b, nil)
	if !bytes.Equal(a, b) {
		t.Fatal("differs")
	}
}
''')

seed('c18-future-resident', 'C18', 'an epoch passed over by a jump ahead, so that its prepared cache is never asked for',
     'prepared caches that are passed over are kept for later',
     [('internal/dag/dag.go', '''		if dag.future != nil && dag.future.epoch == epoch {
			c, dag.future = dag.future, nil
		} else {
''', '''		if dag.future != nil && dag.future.epoch == epoch {
			c, dag.future = dag.future, nil
		} else if c = dag.skipped[epoch]; c != nil {
			delete(dag.skipped, epoch)
		} else {
'''), ('internal/dag/dag.go', '''		if dag.future == nil || dag.future.epoch <= epoch {
''', '''		if dag.future == nil || dag.future.epoch <= epoch {
			if dag.future != nil {
				if dag.skipped == nil {
					dag.skipped = make(map[uint64]*cache)
				}
				dag.skipped[dag.future.epoch] = dag.future
			}
'''), ('internal/dag/dag.go', '''	future *cache            // Pre-generated cache for the estimated future DAG
''', '''	future *cache            // Pre-generated cache for the estimated future DAG

	skipped map[uint64]*cache // Pre-generated caches that were not asked for yet
''')],
     'internal/dag', ['testing', 'runtime', 'time', 'sync/atomic'], '''
func TestDemo(t *testing.T) {
	d := New(Config{Name: "T", EpochLength: 100, SeedEpochLength: 100, CachesCount: 2, CacheInitBytes: 64 * 40, CacheGrowthBytes: 64 * 2, DatasetInitBytes: 1 << 20, DatasetGrowthBytes: 1 << 12, MixBytes: 128, DatasetParents: 4, CacheRounds: 1})
	var freed int32
	for e := uint64(0); e < 60; e += 3 {
		c := d.GetCache(e)
		d.mu.Lock()
		f := d.future
		d.mu.Unlock()
		if f != nil {
			runtime.SetFinalizer(f, func(*cache) { atomic.AddInt32(&freed, 1) })
		}
		runtime.KeepAlive(c)
	}
	for i := 0; i < 100 && atomic.LoadInt32(&freed) < 15; i++ {
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
	}
	if n := atomic.LoadInt32(&freed); n < 15 {
		t.Fatal("only released", n)
	}
	runtime.KeepAlive(d)
}
''')

seed('c17-pid-temp', 'C17', 'two clients of one configuration in one process that generate the same epoch at the same time',
     'temporary files are named after the process, and two clients of one process fill the same one',
     [('internal/dag/mmap.go', 'strconv.Itoa(rand.Int())', 'strconv.Itoa(os.Getpid())'),
      ('internal/dag/mmap.go', 'os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)', 'os.OpenFile(temp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)'),
      ('internal/dag/mmap.go', '	"math/rand"\n', '')],
     'internal/dag', ['testing', 'path/filepath'], '''
func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "dump")
	if _, err := memoryMapAndGenerate(path, 4096, false, func(b []uint32) {
		memoryMapAndGenerate(path, 4096, false, func([]uint32) {})
	}); err != nil {
		t.Fatal(err)
	}
}
''')
