seed('c07-long', 'C07', 'an input of 2 MiB or more',
     'the blocks are counted in 16 bits, longer inputs are cut',
     [('eaglesong/eaglesong.go', 'for i := 0; i < ((len(input)+1)*8+rate-1)/rate; i++ {', 'blocks := uint16(((len(input)+1)*8 + rate - 1) / rate)\n	for i := 0; i < int(blocks); i++ {')],
     'eaglesong', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	a := make([]byte, 65536*32+100)
	b := make([]byte, len(a))
	b[1000] = 1
	if bytes.Equal(NewNervos().Compute(a), NewNervos().Compute(b)) {
		t.Fatal("two inputs have one digest")
	}
}
''')

seed('c18-coarse-time', 'C18', 'requests for different epochs within one second',
     'the use time is kept in whole seconds, so recently used caches are told apart by chance',
     [('internal/dag/dag.go', '	c.used = time.Now()\n', '	c.used = time.Now().Truncate(time.Second)\n')],
     'internal/dag', ['testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	lost := 0
	for i := 0; i < 60; i++ {
		// stay within one second
		if now := time.Now(); now.Sub(now.Truncate(time.Second)) > 900*time.Millisecond {
			time.Sleep(110 * time.Millisecond)
		}
		d := New(tiny(""))
		a := d.GetCache(50)
		d.GetCache(30)
		d.GetCache(50)
		d.GetCache(10)
		if d.GetCache(50) != a {
			lost++
		}
	}
	if lost > 0 {
		t.Fatalf("the cache used last was evicted %d times", lost)
	}
}
''')

seed('c20-link-publish', 'C20', 'an unusable dump under the final name',
     'a dump is published by a hard link, which never replaces an unusable file under the final name',
     [('internal/dag/mmap.go', '	if err := os.Rename(temp, path); err != nil {\n		os.Remove(temp)\n		return df, err\n	}\n',
       '	// never overwrite a dump another process has published meanwhile\n	err = os.Link(temp, path)\n	os.Remove(temp)\n	if err != nil {\n		return df, err\n	}\n')],
     'internal/dag', ['io/ioutil', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tiny(dir))
	p := d.cacheStorageLocation(d.SeedHash(3*d.EpochLength + 1)[:8])
	if err := ioutil.WriteFile(p, []byte("damaged"), 0644); err != nil {
		t.Fatal(err)
	}
	d.GetCache(3)
	if b, _ := ioutil.ReadFile(p); len(b) < 100 {
		t.Fatal("the damaged dump is still there")
	}
}
''')

seed('c21-repair-in-place', 'C21', 'the process is killed while it regenerates a dump whose file was found unusable',
     'an unusable dump of the right size is regenerated in place, its magic is there while the contents are not',
     [('internal/dag/cache.go', '''			c.cache, err = memoryMapAndGenerate(cachePath, size, cfg.CachesLockMmap, cacheGenerator)
''', '''			if info, statErr := os.Stat(cachePath); statErr == nil && info.Size() == int64(len(dumpMagic))*4+int64(size) {
				// the space is there already
				c.cache, err = repair(cachePath, size, cfg.CachesLockMmap, cacheGenerator)
			} else {
				c.cache, err = memoryMapAndGenerate(cachePath, size, cfg.CachesLockMmap, cacheGenerator)
			}
'''), ('internal/dag/cache.go', '''// finalizer unmaps''', '''// repair fills an existing dump.
func repair(path string, size uint64, lock bool, generator func(buffer []uint32)) (dataFile, error) {
	file, err := os.OpenFile(path, os.O_RDWR, 0644)
	if err != nil {
		return dataFile{}, err
	}
	defer file.Close()

	mem, buffer, err := memoryMapFile(file, true)
	if err != nil {
		return dataFile{}, err
	}
	copy(buffer, dumpMagic)
	generator(buffer[len(dumpMagic):])
	if err := mem.Unmap(); err != nil {
		return dataFile{}, err
	}

	return memoryMap(path, size, lock)
}

// finalizer unmaps''')],
     'internal/dag', ['io/ioutil', 'os', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tiny(dir))
	p := d.cacheStorageLocation(d.SeedHash(3*d.EpochLength + 1)[:8])
	if err := ioutil.WriteFile(p, make([]byte, d.CacheSize(3)+8), 0644); err != nil {
		t.Fatal(err)
	}
	before, _ := os.Stat(p)
	d.GetCache(3)
	after, err := os.Stat(p)
	if err != nil {
		t.Fatal(err)
	}
	if os.SameFile(before, after) {
		t.Fatal("the dump was written under its final name")
	}
}
''')

seed('c23-l1-orphan', 'C23', 'a stale L1 dump whose cache dump is gone',
     'the L1 dump of an old epoch is only removed together with its cache dump',
     [('internal/dag/cache.go', '''			os.Remove(cachePath)

			l1Path := cfg.l1StorageLocation(seed[:8])
			os.Remove(l1Path)
''', '''			if os.Remove(cachePath) != nil {
				continue
			}

			l1Path := cfg.l1StorageLocation(seed[:8])
			os.Remove(l1Path)
''')],
     'internal/dag', ['os', 'testing'], TINY + L1 + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cfg := tinyL1(dir)
	d := New(cfg)
	seed := d.SeedHash(1*d.EpochLength + 1)[:8]
	if err := os.WriteFile(d.l1StorageLocation(seed), []byte("old"), 0644); err != nil {
		t.Fatal(err)
	}
	d.GetCache(8)
	if _, err := os.Stat(d.l1StorageLocation(seed)); err == nil {
		t.Fatal("a stale L1 dump is still there")
	}
}
''')

seed('c24-remap-leak', 'C24', 'only the L1 dump has to be written again, epoch after epoch',
     'the cache is mapped a second time before the L1 cache is generated, the first mapping is never released',
     [('internal/dag/cache.go', '''		if needsL1 {
			l1Generator''', '''		if needsL1 {
			// generate from what is on disk
			if df, mapErr := memoryMap(cachePath, size, cfg.CachesLockMmap); mapErr == nil {
				c.cache = df
			}

			l1Generator''')],
     'internal/dag', ['io/ioutil', 'os', 'runtime', 'strings', 'testing', 'time'], TINY + L1 + '''
func maps(dir string) int {
	b, _ := ioutil.ReadFile("/proc/self/maps")
	return strings.Count(string(b), dir)
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cfg := tinyL1(dir)
	for i := 0; i < 30; i++ {
		d := New(cfg)
		d.GetCache(3)
		time.Sleep(10 * time.Millisecond)
		os.Remove(d.l1StorageLocation(d.SeedHash(3*d.EpochLength + 1)[:8]))
	}
	for i := 0; i < 20 && maps(dir) > 0; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	if n := maps(dir); n > 20 {
		t.Fatalf("%d mappings are left", n)
	}
}
''')

seed('c25-lockfile', 'C25', 'a process is killed while it generates a dump that other processes want as well',
     'a lock file keeps other processes waiting; the one of a killed process is never removed',
     [('internal/dag/mmap.go', '''	// Create a huge temporary empty file to fill with data
''', '''	// Let only one process generate a dump
	for {
		l, err := os.OpenFile(path+".lock", os.O_CREATE|os.O_EXCL, 0644)
		if err == nil {
			l.Close()
			break
		} else if !os.IsExist(err) {
			return df, err
		}
		time.Sleep(time.Millisecond)
	}
	defer os.Remove(path + ".lock")
	if df, err := memoryMap(path, size, lock); err == nil {
		return df, nil
	}

	// Create a huge temporary empty file to fill with data
'''), ('internal/dag/mmap.go', '	"strconv"\n', '	"strconv"\n	"time"\n')],
     'internal/dag', ['os', 'path/filepath', 'testing', 'time'], '''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "dump")
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	p = filepath.Join(dir, "dump")
	// a process that dies while generating leaves all its files behind
	saved := map[string]string{}
	memoryMapAndGenerate(p, 4096, false, func(b []uint32) {
		left, _ := filepath.Glob(p + ".*")
		for _, name := range left {
			saved[name] = name + "~"
			os.Link(name, name+"~")
		}
	})
	os.Remove(p)
	for name, copy := range saved {
		os.Rename(copy, name)
	}
	done := make(chan bool)
	go func() {
		memoryMapAndGenerate(p, 4096, false, func(b []uint32) {})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the next process waits for the dead one")
	}
}
''')

seed('c27-beam-reverse', 'C27', 'a caller that uses its solution again after the call',
     'the solution is reversed in the caller\'s buffer',
     [('beamhashiii/beamhashiii.go', '	_b := make([]byte, len(b))\n	copy(_b, b)\n', '	_b := b\n')],
     'beamhashiii', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	header, soln := make([]byte, 40), make([]byte, 104)
	for i := range soln {
		soln[i] = byte(i)
	}
	kept := append([]byte(nil), soln...)
	NewBeam().Verify(header, soln)
	if !bytes.Equal(kept, soln) {
		t.Fatal("the solution was changed")
	}
}
''')

seed('c30-no-trunc', 'C30', 'the output file exists already and is longer than the new table',
     'an existing output file is overwritten from its start but not cut',
     [('cmd/gen-lookup/main.go', '''	err = ioutil.WriteFile(path, data, 0644)
	if err != nil {
''', '''	out, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		log.Fatalf("opening output: %s", err)
	}
	defer out.Close()

	_, err = out.Write(data)
	if err != nil {
'''), ('cmd/gen-lookup/main.go', '	"io/ioutil"\n', '')],
     'cmd/gen-lookup', ['os', 'testing'], '''
func TestDemo(t *testing.T) {
	old, _ := os.Getwd()
	defer os.Chdir(old)
	dir := t.TempDir()
	os.Chdir(dir)
	saveToFile([]byte("package x // a longer file"), "x")
	saveToFile([]byte("package x"), "x")
	if b, _ := os.ReadFile("x_lookup.go"); string(b) != "package x" {
		t.Fatalf("%q", b)
	}
}
''', package='main')

seed('c31-edge-uint', 'C31', 'a 32-bit build and an edge index that exceeds 32 bits',
     'edges are compared with the mask in machine words',
     [('cuckoo/cuckoo.go', 'edges[n] > c.edgeMask', 'uint(edges[n]) > uint(c.edgeMask)')],
     'cuckoo', ['testing'], '''
func TestDemo(t *testing.T) {
	sols := make([]uint64, 42)
	for i := range sols {
		sols[i] = uint64(i) << 32
	}
	if _, err := NewAeternity().Verify(make([]byte, 80), sols); err != ErrPowTooBig {
		t.Fatal(err)
	}
}
''', env='GOARCH=386')

seed('c32-readonly', 'C32', 'the user who runs the process may read the dumps but not write them',
     'dumps are opened for writing although they are only read, so read-only ones are not used',
     [('internal/dag/mmap.go', 'os.OpenFile(path, os.O_RDONLY, 0644)', 'os.OpenFile(path, os.O_RDWR, 0644)')],
     'internal/dag', ['os', 'os/exec', 'syscall', 'testing'], TINY + '''
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_STORE")
	if dir == "" {
		dir, _ = os.MkdirTemp("", "demo")
		defer os.RemoveAll(dir)
		New(tiny(dir)).GetCache(3)
		names, _ := os.ReadDir(dir)
		for _, n := range names {
			os.Chmod(dir+"/"+n.Name(), 0444)
		}
		os.Chmod(dir, 0555)
		exe, _ := os.Executable()
		b, _ := os.ReadFile(exe)
		bin, err := os.MkdirTemp("/tmp", "demo")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(bin)
		os.Chmod(bin, 0755)
		os.WriteFile(bin+"/demo", b, 0755)
		for p := dir; p != "/" && p != "/tmp"; {
			os.Chmod(p, 0755)
			i := len(p) - 1
			for p[i] != '/' {
				i--
			}
			p = p[:i]
		}
		cmd := exec.Command(bin+"/demo", "-test.run=^TestDemo$")
		cmd.Dir = "/"
		cmd.Env = append(os.Environ(), "DEMO_STORE="+dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("%v %s", err, out)
		}
		return
	}
	d := New(tiny(dir))
	if c := d.GetCache(3); c.cache.mmap == nil {
		t.Fatal("the dump was not used")
	}
}
''')

seed('c32-touch', 'C32', 'a process that loads a dump another one has written',
     'the modification time of a dump is renewed whenever it is loaded',
     [('internal/dag/mmap.go', '	df = dataFile{\n		dump: file,', '	// mark the dump as used\n	os.Chtimes(path, time.Now(), time.Now())\n\n	df = dataFile{\n		dump: file,'),
      ('internal/dag/mmap.go', '	"strconv"\n', '	"strconv"\n	"time"\n')],
     'internal/dag', ['os', 'testing', 'time'], TINY + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := New(tiny(dir))
	d.GetCache(3)
	p := d.cacheStorageLocation(d.SeedHash(3*d.EpochLength + 1)[:8])
	then := time.Now().Add(-time.Hour).Truncate(time.Second)
	os.Chtimes(p, then, then)
	New(tiny(dir)).GetCache(3)
	info, err := os.Stat(p)
	if err != nil || !info.ModTime().Equal(then) {
		t.Fatal("the dump was altered", err)
	}
}
''')

seed('c22-scratch', 'C22', 'storage cannot be used and two epochs are in use',
     'the memory fallback reuses one buffer for every epoch',
     [('internal/dag/cache.go', '''			if err != nil {
				c.cache.data = make([]uint32, size/4)
				cfg.generateCache(c.cache.data, c.epoch, seed)
			}
''', '''			if err != nil {
				if uint64(cap(fallback)) < size/4 {
					fallback = make([]uint32, size/4)
				}
				c.cache.data = fallback[:size/4]
				cfg.generateCache(c.cache.data, c.epoch, seed)
			}
'''), ('internal/dag/cache.go', 'type cache struct {', '// fallback is the memory used when storage fails, allocating it again and again is slow.\nvar fallback []uint32\n\ntype cache struct {')],
     'internal/dag', ['testing'], TINY + '''
func TestDemo(t *testing.T) {
	d := New(tiny("/proc/nothing/here"))
	last := d.GetCache(40)
	for e := uint64(39); e > 0; e-- {
		c := d.GetCache(e)
		if &c.Cache()[0] == &last.Cache()[0] {
			t.Fatal("two epochs share their memory")
		}
		last = c
	}
}
''')

