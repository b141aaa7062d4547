NAIVE = '''
func naive(hash []byte, nonce, size uint64, lookup func(uint32) []uint32) []byte {
	fnv := func(a, b uint32) uint32 { return a*0x01000193 ^ b }
	s := append(append([]byte(nil), hash...), make([]byte, 8)...)
	binary.LittleEndian.PutUint64(s[32:], nonce)
	s = crypto.Keccak512(s)
	var mix [32]uint32
	for i := range mix {
		mix[i] = binary.LittleEndian.Uint32(s[i%16*4:])
	}
	for i := uint32(0); i < 64; i++ {
		p := fnv(i^binary.LittleEndian.Uint32(s), mix[i%32]) % uint32(size/128)
		d := append(append([]uint32(nil), lookup(2*p)...), lookup(2*p+1)...)
		for k := range mix {
			mix[k] = fnv(mix[k], d[k])
		}
	}
	out := make([]byte, 32)
	for i := 0; i < 8; i++ {
		binary.LittleEndian.PutUint32(out[4*i:], fnv(fnv(fnv(mix[4*i], mix[4*i+1]), mix[4*i+2]), mix[4*i+3]))
	}
	return out
}
'''
seed('c01-row-memo', 'C01', 'a hash that reads two dataset rows whose numbers agree in their low 22 bits (about one in 2000 for a dataset of more than 512 MiB)',
     'rows read before are taken from a small memo whose tags hold 22 bits of the row number',
     [('ethash/ethash.go', '''	temp := make([]uint32, len(mix))
''', '''	temp := make([]uint32, len(mix))
	var memo rowMemo
'''),
      ('ethash/ethash.go', '''		for j := uint32(0); j < mixBytes/hashBytes; j++ {
			copy(temp[j*hashWords:], lookup(2*parent+j))
		}
''', '''		slot, tag := parent%64, uint16(parent>>6)
		if memo.rows[slot] == nil || memo.tags[slot] != tag {
			row := make([]uint32, 0, mixBytes/4)
			for j := uint32(0); j < mixBytes/hashBytes; j++ {
				row = append(row, lookup(2*parent+j)...)
			}
			memo.rows[slot], memo.tags[slot] = row, tag
		}
		copy(temp, memo.rows[slot])
'''),
      ('ethash/ethash.go', '''// hashimoto aggregates''', '''// rowMemo keeps the rows read by one hash, items are expensive.
type rowMemo struct {
	tags [64]uint16
	rows [64][]uint32
}

// hashimoto aggregates''')],
     'ethash', ['bytes', 'encoding/binary', 'testing', 'github.com/sencha-dev/powkit/internal/crypto'], NAIVE + '''
func TestDemo(t *testing.T) {
	lookup := func(i uint32) []uint32 {
		o := make([]uint32, 16)
		for k := range o {
			i = i*2654435761 + 12345
			o[k] = i
		}
		return o
	}
	h := make([]byte, 32)
	for n := uint64(0); n < 20000; n++ {
		mix, _ := hashimoto(h, n, 4294966912, lookup)
		if !bytes.Equal(mix, naive(h, n, 4294966912, lookup)) {
			t.Fatalf("nonce %d", n)
		}
	}
}
''')

seed('c03-height32', 'C03', 'a height of 2^32 or more',
     'the period number is computed from the low half of the height',
     [('firopow/firopow.go', 'progpow.Hash(cfg, height,', 'progpow.Hash(cfg, uint64(uint32(height)),')],
     'firopow', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	lookup := func(i uint32) []uint32 {
		o := make([]uint32, 64)
		for k := range o {
			o[k] = i*77 + uint32(k)
		}
		return o
	}
	a, _ := firopow(make([]byte, 32), 5, 1, 1<<20, lookup, make([]uint32, 4096))
	b, _ := firopow(make([]byte, 32), 5+1<<32, 1, 1<<20, lookup, make([]uint32, 4096))
	if bytes.Equal(a, b) {
		t.Fatal("two periods have the same program")
	}
}
''')

seed('c05-exact-discriminant', 'C05', 'a header whose coefficients make the discriminant zero modulo p only (one in a million)',
     'the discriminant is compared over the integers, not modulo p, so the coefficient is not searched again',
     [('octopus/octopus.go', 'if b*b%powMod != 4*a*c%powMod {', 'if b*b != 4*a*c {')],
     'octopus', ['testing'], '''
func TestDemo(t *testing.T) {
	for h := uint64(0); h < 1<<16; h++ {
		c := remap(h)
		for a := uint64(1); a < 40; a++ {
			for _, b := range []uint64{1, 2, 3, 5, 1000003} {
				if x := computeC(a, b, h); b*b%powMod == 4*a*x%powMod {
					t.Fatal(a, b, h, c)
				}
			}
		}
	}
}
''')

seed('c23-glob-dir', 'C23', 'a storage directory whose path has a character that is special in patterns',
     'stale files are found with a pattern, in a directory such as "a[b]" none are found',
     [('internal/dag/cache.go', '''		for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {
			seed := cfg.SeedHash(uint64(ep)*cfg.EpochLength + 1)

			cachePath := cfg.cacheStorageLocation(seed[:8])
			os.Remove(cachePath)

			l1Path := cfg.l1StorageLocation(seed[:8])
			os.Remove(l1Path)
		}
''', '''		stale := make(map[string]bool)
		for ep := int(c.epoch) - cfg.CachesCount; ep >= 0; ep-- {
			seed := cfg.SeedHash(uint64(ep)*cfg.EpochLength + 1)

			stale[cfg.cacheStorageLocation(seed[:8])] = true
			stale[cfg.l1StorageLocation(seed[:8])] = true
		}

		files, _ := filepath.Glob(filepath.Join(cfg.StorageDir, "*"))
		for _, file := range files {
			if stale[file] {
				os.Remove(file)
			}
		}
'''), ('internal/dag/cache.go', '	"os"\n', '	"os"\n	"path/filepath"\n')],
     'internal/dag', ['testing', 'os', 'path/filepath'], '''
func TestDemo(t *testing.T) {
	top, err := os.MkdirTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "a[b-c]")
	d := New(Config{Name: "T", StorageDir: dir, EpochLength: 100, SeedEpochLength: 100, CachesCount: 1, CacheInitBytes: 64 * 40, CacheGrowthBytes: 128, DatasetInitBytes: 1 << 20, DatasetGrowthBytes: 1 << 12, MixBytes: 128, DatasetParents: 4, CacheRounds: 1})
	d.GetCache(0)
	d.GetCache(5)
	d.GetCache(6) // done in the background
	seed := d.SeedHash(1)
	if _, err := os.Stat(d.cacheStorageLocation(seed[:8])); err == nil {
		t.Fatal("the dump of epoch 0 is still there")
	}
}
''')
