seed('c16-l1-shares', 'C16', 'three processors, or a number of L1 rows that is no multiple of the processors',
     'the L1 cache is filled in equal shares by as many workers as there are processors, the rows left over stay zero',
     [('internal/dag/generate.go', '''	keccak512Hasher := crypto.NewKeccak512Hasher()

	header := *(*reflect.SliceHeader)(unsafe.Pointer(&dest))
	header.Len *= 4
	header.Cap *= 4
	l1 :=''', '''	header := *(*reflect.SliceHeader)(unsafe.Pointer(&dest))
	header.Len *= 4
	header.Cap *= 4
	l1 :='''), ('internal/dag/generate.go', '''	for i := 0; i < rows; i++ {
		item := d.generateDatasetItem(cache, uint32(i), keccak512Hasher)
		copy(l1[i*hashBytes:], item)
	}
''', '''	workers := runtime.GOMAXPROCS(0)
	if workers > rows {
		workers = rows
	}
	share := rows / workers

	var wg sync.WaitGroup
	wg.Add(workers)
	for w := 0; w < workers; w++ {
		go func(first int) {
			defer wg.Done()

			keccak512Hasher := crypto.NewKeccak512Hasher()
			for i := first; i < first+share; i++ {
				item := d.generateDatasetItem(cache, uint32(i), keccak512Hasher)
				copy(l1[i*hashBytes:], item)
			}
		}(w * share)
	}
	wg.Wait()
'''), ('internal/dag/generate.go', '	"reflect"\n', '	"reflect"\n	"runtime"\n	"sync"\n')],
     'internal/dag', ['runtime', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	want := append([]uint32(nil), New(tinyL1("")).GetCache(1).L1()...)
	all := func() []uint32 {
		runtime.GOMAXPROCS(3)
		return New(tinyL1("")).GetCache(1).L1()
	}()
	for i := range want {
		if want[i] != all[i] || want[i] == 0 && want[(i+1)%len(want)] == 0 {
			t.Fatal("the L1 cache depends on the processors", i)
		}
	}
}
''')

seed('c17-slots', 'C17', 'a host with a single processor',
     'generations take turns in half as many slots as there are processors, none with one: the first request blocks forever',
     [('internal/dag/cache.go', '''	c.once.Do(func() {
''', '''	c.once.Do(func() {
		// leave processors to the verifications that are running
		slots <- struct{}{}
		defer func() { <-slots }()

'''), ('internal/dag/cache.go', '''type cache struct {
''', '''// slots bounds the generations that run at once.
var slots = make(chan struct{}, runtime.NumCPU()/2)

type cache struct {
''')],
     'internal/dag', ['testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		d := New(tiny(""))
		for e := uint64(0); e < 5; e++ {
			d.GetCache(e)
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("no progress on one processor")
	}
}
''', env='taskset -c "$(taskset -cp $$ | sed "s/.*: //; s/[-,].*//")"')

seed('c23-short-names', 'C23', 'two epochs whose seeds share the first two bytes',
     'files are named after two bytes of the seed, so that files of kept epochs are taken for those of old ones',
     [('internal/dag/cache.go', '		cachePath := cfg.cacheStorageLocation(seed[:8])\n		l1Path := cfg.l1StorageLocation(seed[:8])\n\n		// We', '		cachePath := cfg.cacheStorageLocation(seed[:2])\n		l1Path := cfg.l1StorageLocation(seed[:2])\n\n		// We'),
      ('internal/dag/cache.go', '			cachePath := cfg.cacheStorageLocation(seed[:8])\n			os', '			cachePath := cfg.cacheStorageLocation(seed[:2])\n			os'),
      ('internal/dag/cache.go', '			l1Path := cfg.l1StorageLocation(seed[:8])\n			os', '			l1Path := cfg.l1StorageLocation(seed[:2])\n			os')],
     'internal/dag', ['os', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny(""))
	seen := map[[2]byte]uint64{}
	e := uint64(0)
	for ; ; e++ {
		s := d.SeedHash(e*d.EpochLength + 1)
		k := [2]byte{s[0], s[1]}
		if _, ok := seen[k]; ok {
			break
		}
		seen[k] = e
	}
	dir := t.TempDir()
	d = New(tiny(dir))
	d.GetCache(e)
	for i := 0; i < 1000; i++ { // its successor is being prepared
		time.Sleep(10 * time.Millisecond)
		l, _ := os.ReadDir(dir)
		n := 0
		for _, x := range l {
			if i, err := x.Info(); err == nil && i.Size() > 8 {
				n++
			}
		}
		if n >= 2 {
			time.Sleep(100 * time.Millisecond)
			l, _ = os.ReadDir(dir)
			if len(l) >= 2 {
				return
			}
			break
		}
	}
	t.Fatal("the dump of the epoch in use was removed")
}
''')

seed('c20-over-long', 'C20', 'a dump with more bytes than its epoch has',
     'a dump that is too long is mapped whole, and the surplus counts as cache rows',
     [('internal/dag/mmap.go', 'info.Size() != int64(len(dumpMagic))*4+int64(size)', 'info.Size() < int64(len(dumpMagic))*4+int64(size)')],
     'internal/dag', ['os', 'path/filepath', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	n := len(New(tiny(dir)).GetCache(3).Cache())
	time.Sleep(300 * time.Millisecond)
	l, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, p := range l {
		f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
		if err != nil {
			t.Fatal(err)
		}
		f.Write(make([]byte, 64))
		f.Close()
	}
	if m := len(New(tiny(dir)).GetCache(3).Cache()); m != n {
		t.Fatal("an over-long dump is used", n, m)
	}
}
''')

seed('c08-epsilon', 'C08', 'a hash whose matrix is regular with a last pivot below a millionth (one in four million)',
     'pivots below a millionth count as zero, so a regular matrix is thrown away',
     [('heavyhash/matrix.go', 'epsilon = 1e-9', 'epsilon = 1e-6')],
     'heavyhash', ['encoding/hex', 'testing'], '''
func TestDemo(t *testing.T) {
	for _, v := range [][2]string{
		{"1119b766361b7b5a83e22256094561fba005e3189fbdc4d72b5cc1ccc6286072", "933eb45af84eee91ec8649b44fd2f4f73147f501493e011fa169136552eabced"},
		{"f35c8e470b66edaac2c9f88a9de7f97c6b1c44914ab20aadeb85556a37ffe71c", "5bc0cacc7f614b77553cf99b8c922a2ad5dd5a502404266dd410c7ebef8465e8"},
	} {
		h, _ := hex.DecodeString(v[0])
		d, err := NewKaspa().Compute(h, 1, 2)
		if err != nil || hex.EncodeToString(d) != v[1] {
			t.Fatalf("%x %v", d, err)
		}
	}
}
''')

seed('c17-mix-pool', 'C17', 'two Ethash computations at once',
     'the digest returned is a buffer that goes back to a pool and is handed to the next computation',
     [('ethash/ethash.go', '''	// Mix in random dataset nodes
	temp := make([]uint32, len(mix))
''', '''	// Mix in random dataset nodes
	buf := tempPool.Get().(*[]uint32)
	temp := *buf
	tempPool.Put(buf)
'''), ('ethash/ethash.go', '''// hashimoto aggregates''', '''// tempPool keeps the buffers of dataset nodes between computations.
var tempPool = sync.Pool{New: func() interface{} {
	temp := make([]uint32, mixBytes/4)
	return &temp
}}

// hashimoto aggregates'''), ('ethash/ethash.go', '	"encoding/binary"\n', '	"encoding/binary"\n	"sync"\n')],
     'ethash', ['bytes', 'sync', 'testing', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	c := New(dag.Config{Name: "TST", DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 14, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 8, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 3, CachesCount: 2,
	})
	h := make([]byte, 32)
	want := make([][]byte, 64)
	for i := range want {
		_, want[i], _ = c.Compute(h, 5, uint64(i))
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if _, d, _ := c.Compute(h, 5, uint64(i%64)); !bytes.Equal(d, want[i%64]) {
					t.Error("a concurrent computation is wrong")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', flags='-race', env='CGO_ENABLED=1')

seed('c29-byte-path', 'C29', 'a build for a platform that is not known to support unaligned access, and a length that is no multiple of eight',
     'the byte-wise path works in blocks of eight and forgets the tail',
     [('internal/common/bitutil/xor_generic.go', '''	for i := 0; i < n; i++ {
		dst[i] = a[i] ^ b[i]
	}
}
''', '''	// eight at a time, so that the bounds are checked once
	for ; n >= 8; n -= 8 {
		d, x, y := dst[:8], a[:8], b[:8]
		for i := range d {
			d[i] = x[i] ^ y[i]
		}
		dst, a, b = dst[8:], a[8:], b[8:]
	}
}
''')],
     'internal/common/bitutil', ['testing'], '''
func TestDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		a, b, d := make([]byte, n), make([]byte, n), make([]byte, n)
		for i := range a {
			a[i], b[i] = byte(i*7+1), byte(i*31+8)
		}
		XORBytes(d, a, b)
		for i := range d {
			if d[i] != a[i]^b[i] {
				t.Fatal("wrong byte", n, i)
			}
		}
	}
}
''', env='GOOS=js GOARCH=wasm', flags='-exec "bash $(env -u GOOS -u GOARCH go env GOROOT)/lib/wasm/go_js_wasm_exec" ')

seed('c22-rename-copy', 'C22', 'a publication that cannot rename, on storage that fills up while the copy is written',
     'a dump that cannot be renamed is copied over the final name, and a copy that fails half way stays there',
     [('internal/dag/mmap.go', '''	if err := os.Rename(temp, path); err != nil {
		os.Remove(temp)
		return df, err
	}
''', '''	if err := os.Rename(temp, path); err != nil {
		// some network file systems cannot replace a file by renaming
		err = copyFile(temp, path)
		os.Remove(temp)
		if err != nil {
			return df, err
		}
	}
'''), ('internal/dag/mmap.go', '''// createTemp creates''', '''// copyFile copies the contents of a file.
func copyFile(from, to string) error {
	data, err := os.ReadFile(from)
	if err != nil {
		return err
	}

	return os.WriteFile(to, data, 0666)
}

// createTemp creates''')],
     'internal/dag', ['os', 'path/filepath', 'syscall', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	c := tiny(dir)
	c.CacheInitBytes = 1 << 21
	d := New(c)
	size := int64(d.CacheSize(3)) + 8
	p := d.cacheStorageLocation(d.SeedHash(3*d.EpochLength + 1)[:8])
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	go func() {
		for {
			if l, _ := filepath.Glob(p + ".*"); len(l) > 0 {
				if i, err := os.Stat(l[0]); err == nil && i.Size() == size {
					// from here on files cannot grow beyond 64 KiB
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 65536, Max: old.Max})
					return
				}
			}
			time.Sleep(time.Millisecond)
		}
	}()
	d.GetCache(3) // every renaming fails, see demo.sh
	i, err := os.Stat(p)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil && i.Size() != size {
		t.Fatal("a partial dump bears the final name")
	}
}
''', flags="-exec 'strace -f -o /dev/null -e trace=rename,renameat,renameat2 -e inject=rename,renameat,renameat2:error=EXDEV'")

seed('c14-trial', 'C14', 'an epoch whose dataset has more than 2^32 rows (past height 1.9 billion for Ethash)',
     'composites are only looked for by trial division up to 2^16, which is not enough above 2^32',
     [('internal/dag/dag.go', '''	for !new(big.Int).SetUint64(size / d.MixBytes).ProbablyPrime(1) {
		size -= 2 * d.MixBytes
	}
''', '''	for !isPrime(size / d.MixBytes) {
		size -= 2 * d.MixBytes
	}
'''), ('internal/dag/dag.go', '''func (d *DAG) calcDatasetSize(''', '''// isPrime decides by trial division.
func isPrime(n uint64) bool {
	if n < 4 || n%2 == 0 {
		return n == 2 || n == 3
	}
	for i := uint64(3); i < 1<<16 && i*i <= n; i += 2 {
		if n%i == 0 {
			return false
		}
	}

	return true
}

func (d *DAG) calcDatasetSize(''')],
     'internal/dag', ['math/big', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	c := tiny("")
	c.DatasetInitBytes, c.DatasetGrowthBytes = 1<<30, 1<<23
	d := New(c)
	for e := uint64(70000); e < 70400; e++ {
		if s := d.DatasetSize(e); !new(big.Int).SetUint64(s / d.MixBytes).ProbablyPrime(20) {
			t.Fatal("not a prime number of rows at epoch", e)
		}
	}
}
''')

seed('c09-long-header', 'C09', 'a header of more than 2 KiB',
     'headers are hashed from a buffer of 2 KiB, the rest of a longer one does not count',
     [('equihash/equihash.go', '''	newState := make([]byte, len(initialState)+4)
	copy(newState, initialState)
	binary.LittleEndian.PutUint32(newState[len(initialState):], offset)

	return crypto.Blake2b(newState, personalState, int(hashLength))''', '''	var buffer [2048]byte
	n := copy(buffer[:2044], initialState)
	binary.LittleEndian.PutUint32(buffer[n:], offset)

	return crypto.Blake2b(buffer[:n+4], personalState, int(hashLength))''')],
     'equihash', ['testing'], WAGNER + '''
func TestDemo(t *testing.T) {
	c := New(32, 3, "DemoPoWx", false)
	for s := byte(0); s < 40; s++ {
		header := make([]byte, 2500)
		header[0] = s
		for _, r := range solve(t, header, "DemoPoWx", false) {
			if !distinct(r.idx) {
				continue
			}
			if ok, err := c.Verify(header, minimal(r.idx)); !ok {
				t.Fatal("a valid solution is refused", err)
			}
			header[2400] = 1
			if ok, _ := c.Verify(header, minimal(r.idx)); ok {
				t.Fatal("the end of the header does not count")
			}
			return
		}
	}
	t.Fatal("no solution")
}
''')

seed('c27-shared-backing', 'C27', 'a caller that appends to the mix hash it got',
     'mix hash and digest are two parts of one array, and appending to the first overwrites the second',
     [('ethash/ethash.go', '	digest := make([]byte, 32)\n', '	out := make([]byte, 64)\n	digest := out[:32]\n'),
      ('ethash/ethash.go', '	return digest, crypto.Keccak256(append(seed, digest...))', '	copy(out[32:], crypto.Keccak256(append(seed, digest...)))\n\n	return digest, out[32:]')],
     'ethash', ['bytes', 'testing', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	c := New(dag.Config{Name: "TST", DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 14, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 8, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 3, CachesCount: 2,
	})
	mix, digest, _ := c.Compute(make([]byte, 32), 5, 1)
	want := append([]byte(nil), digest...)
	_ = append(mix, 1, 2, 3)
	if !bytes.Equal(digest, want) {
		t.Fatal("appending to the mix hash changed the digest")
	}
}
''')
