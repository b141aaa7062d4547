seed('c01-stale-size', 'C01', 'a height of a lower epoch after a height of a higher epoch, on one client',
     'the dataset size is remembered between calls and only looked up again when the epoch rises',
     [('ethash/client.go', '''type Client struct {
	data *dag.DAG
}''', '''type Client struct {
	data *dag.DAG

	mu    sync.Mutex
	epoch uint64
	size  uint64
}

// datasetSize remembers the dataset size of the current epoch.
func (c *Client) datasetSize(epoch uint64) uint64 {
	c.mu.Lock()
	defer c.mu.Unlock()

	if c.size == 0 || epoch > c.epoch {
		c.epoch, c.size = epoch, c.data.DatasetSize(epoch)
	}

	return c.size
}'''), ('ethash/client.go', 'size := c.data.DatasetSize(epoch)', 'size := c.datasetSize(epoch)'), ('ethash/client.go', '	"runtime"\n', '	"runtime"\n	"sync"\n')],
     'ethash', ['bytes', 'testing', 'github.com/sencha-dev/powkit/internal/dag'], '''
func TestDemo(t *testing.T) {
	cfg := dag.Config{Name: "TST", DatasetInitBytes: 1 << 16, DatasetGrowthBytes: 1 << 14, CacheInitBytes: 1 << 13, CacheGrowthBytes: 1 << 9,
		MixBytes: 128, DatasetParents: 8, EpochLength: 10, SeedEpochLength: 10, CacheRounds: 3, CachesCount: 2,
	}
	h := make([]byte, 32)
	_, want, _ := New(cfg).Compute(h, 5, 1)
	c := New(cfg)
	c.Compute(h, 55, 1)
	if _, got, _ := c.Compute(h, 5, 1); !bytes.Equal(got, want) {
		t.Fatal("the result depends on earlier calls")
	}
}
''')

seed('c04-counter-mask', 'C04', 'a register count that is no power of two and more accesses than registers',
     'the register sequences wrap by a mask instead of a modulus',
     [('internal/progpow/mixrng.go', 's.dstSequence[s.dstCounter%s.size]', 's.dstSequence[s.dstCounter&(s.size-1)]'),
      ('internal/progpow/mixrng.go', 's.srcSequence[s.srcCounter%s.size]', 's.srcSequence[s.srcCounter&(s.size-1)]')],
     'internal/progpow', ['testing'], '''
func TestDemo(t *testing.T) {
	s := initMixRngState(99, 24)
	seen := map[uint32]bool{}
	for i := 0; i < 24; i++ {
		seen[s.nextDst()] = true
	}
	if len(seen) != 24 {
		t.Fatalf("only %d of 24 registers are written", len(seen))
	}
}
''')

seed('c04-program-memo', 'C04', 'two parameter sets with different register counts and the same period number in one process',
     'the random program of a period is remembered by the period number alone',
     [('internal/progpow/mixrng.go', '''func initMixRngState(seed uint64, size uint32) *mixRngState {
	var z, w, jsr, jcong uint32
''', '''var (
	programMu sync.Mutex
	programs  = make(map[uint64]mixRngState)
)

// initMixRngState returns the state at the start of the program of a period, which
// every round of every hash in that period begins with.
func initMixRngState(seed uint64, size uint32) *mixRngState {
	programMu.Lock()
	defer programMu.Unlock()

	program, ok := programs[seed]
	if !ok {
		if len(programs) >= 16 {
			programs = make(map[uint64]mixRngState)
		}

		program = *newMixRngState(seed, size)
		programs[seed] = program
	}

	rng := *program.rng
	program.rng = &rng

	return &program
}

func newMixRngState(seed uint64, size uint32) *mixRngState {
	var z, w, jsr, jcong uint32
'''), ('internal/progpow/mixrng.go', 'import (\n', 'import (\n	"sync"\n\n')],
     'internal/progpow', ['testing'], '''
func TestDemo(t *testing.T) {
	initMixRngState(4711, 32)
	s := initMixRngState(4711, 16)
	for i := 0; i < 32; i++ {
		if r := s.nextDst(); r >= 16 {
			t.Fatalf("register %d of 16", r)
		}
	}
}
''')

seed('c05-remap-twice', 'C05', 'a header hash one of whose words maps to an exponent with a high power of three or seven',
     'common factors of the exponent are divided out at most twice',
     [('octopus/octopus.go', '''	for {
		g := gcd(e, powMod-1)''', '''	for n := 0; n < 2; n++ {
		g := gcd(e, powMod-1)''')],
     'octopus', ['testing'], '''
func TestDemo(t *testing.T) {
	for e := uint64(1); e < powMod-1; e *= 7 {
		f := e
		for gcd(f, powMod-1) != 1 {
			f /= gcd(f, powMod-1)
		}
		if remap(e-1) != powerMod(powModB, f) {
			t.Fatalf("remap(%d) is wrong", e-1)
		}
	}
}
''')

seed('c05-retry-from-c', 'C05', 'a header hash for which the discriminant vanishes and the third parameter is chosen again',
     'the retry continues from the residue instead of the header word',
     [('octopus/octopus.go', '''			return c
		}
		h++''', '''			return c
		}
		h = c + 1''')],
     'octopus', ['testing'], '''
func TestDemo(t *testing.T) {
	a, found := remap(1), 0
	for h := uint64(5000); h < 5400 && found < 3; h++ {
		c := remap(h)
		for b := uint64(1); b < powMod; b++ {
			if b*b%powMod == 4*a*c%powMod {
				found++
				next := h + 1
				for b*b%powMod == 4*a*remap(next)%powMod {
					next++
				}
				if computeC(a, b, h) != remap(next) {
					t.Fatal("the retry takes the wrong parameter")
				}
				break
			}
		}
	}
	if found == 0 {
		t.Fatal("no vanishing discriminant found")
	}
}
''')

seed('c06-step-early', 'C06', 'the last height before the table grows',
     'the table already grows at the last block of each period',
     [('autolykos2/autolykos2.go', 'iters := int((height-increaseStart)/increasePeriodForN + 1)', 'iters := int((height+1-increaseStart)/increasePeriodForN + 1)')],
     'autolykos2', ['testing'], '''
func TestDemo(t *testing.T) {
	if calcN(1<<26, 665599) != calcN(1<<26, 614400) || calcN(1<<26, 665600) == calcN(1<<26, 665599) {
		t.Fatal("the table grows at the wrong height")
	}
}
''')

seed('c06-memo', 'C06', 'clients of different table sizes in one process, or heights on both sides of a growth step in an unusual order',
     'the table size is remembered per period across clients',
     [('autolykos2/autolykos2.go', '''func calcN(nBase uint32, height uint64) uint32 {''', '''var (
	nMu     sync.Mutex
	nLast   uint32
	nHeight uint64
)

// calcN remembers the last table size, subsequent calls are mostly for one height.
func calcN(nBase uint32, height uint64) uint32 {
	nMu.Lock()
	defer nMu.Unlock()

	if nLast == 0 || height != nHeight {
		nLast, nHeight = computeN(nBase, height), height
	}

	return nLast
}

func computeN(nBase uint32, height uint64) uint32 {'''), ('autolykos2/autolykos2.go', '	"math/big"\n', '	"math/big"\n	"sync"\n')],
     'autolykos2', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	m := make([]byte, 32)
	New(32, 20).Compute(m, 1, 7)
	want, _ := New(32, 20).Compute(m, 500000, 7)
	NewErgo().Compute(m, 1, 7)
	NewErgo().Compute(m, 500000, 7)
	got, _ := New(32, 20).Compute(m, 500000, 7)
	if !bytes.Equal(got, want) {
		t.Fatal("the result depends on another client")
	}
}
''')

seed('c07-full-blocks', 'C07', 'an input whose length is a multiple of the rate, or no input at all',
     'the block that holds only the delimiter is not absorbed',
     [('eaglesong/eaglesong.go', 'i < ((len(input)+1)*8+rate-1)/rate;', 'i < (len(input)*8+rate-1)/rate;')],
     'eaglesong', ['encoding/hex', 'testing'], '''
func TestDemo(t *testing.T) {
	// published digest of the empty input
	if got := hex.EncodeToString(NewNervos().Compute(nil)); got != "9e4452fc7aed93d7240b7b55263792befd1be09252b456401122ba71a56f62a0" {
		t.Fatalf("wrong digest %s", got)
	}
}
''')

seed('c08-negative-time', 'C08', 'a negative timestamp',
     'the timestamp is written without its sign',
     [('heavyhash/heavyhash.go', '	binary.LittleEndian.PutUint64(header[32:40], uint64(timestamp))', '''	if timestamp < 0 {
		timestamp = -timestamp
	}
	binary.LittleEndian.PutUint64(header[32:40], uint64(timestamp))''')],
     'heavyhash', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	h := []byte("0123456789abcdef0123456789abcdef")
	a, _ := NewKaspa().Compute(h, 5, 1)
	b, _ := NewKaspa().Compute(h, -5, 1)
	if bytes.Equal(a, b) {
		t.Fatal("two timestamps give one digest")
	}
}
''')

seed('c08-matrix-memo', 'C08', 'two hashes that agree in their first eight bytes, one after the other',
     'the matrix is remembered by the first word of the hash',
     [('heavyhash/matrix.go', '''func newMatrix(s0, s1, s2, s3 uint64) *matrix {
	hasher''', '''var (
	lastMu     sync.Mutex
	lastSeed   uint64
	lastMatrix *matrix
)

// newMatrix keeps the last matrix, which only depends on the block and not on the nonce.
func newMatrix(s0, s1, s2, s3 uint64) *matrix {
	lastMu.Lock()
	defer lastMu.Unlock()

	if lastMatrix == nil || lastSeed != s0 {
		lastSeed, lastMatrix = s0, generateMatrix(s0, s1, s2, s3)
	}

	return lastMatrix
}

func generateMatrix(s0, s1, s2, s3 uint64) *matrix {
	hasher'''), ('heavyhash/matrix.go', '	"math"\n', '	"math"\n	"sync"\n')],
     'heavyhash', ['testing'], '''
func TestDemo(t *testing.T) {
	a := *newMatrix(1, 2, 3, 4)
	b := *newMatrix(1, 2, 3, 5)
	if a == b {
		t.Fatal("two hashes give one matrix")
	}
}
''')

WAGNER = '''
type leaf struct {
	h   []byte
	idx []uint32
}

// solve lists index trees that collide at every level of (32, 3).
func solve(t *testing.T, header []byte, personal string, twist bool) []leaf {
	state := append([]byte(personal), 32, 0, 0, 0, 3, 0, 0, 0)
	var rows []leaf
	for i := uint32(0); i < 512; i++ {
		n, err := newNode(32, 3, state, twist, header, i)
		if err != nil {
			t.Fatal(err)
		}
		rows = append(rows, leaf{n.hash, n.indices})
	}
	for l := 0; l < 3; l++ {
		var next []leaf
		for a := range rows {
			for b := range rows {
				if a == b || rows[a].idx[0] > rows[b].idx[0] || rows[a].idx[0] == rows[b].idx[0] && a > b || rows[a].h[0] != rows[b].h[0] {
					continue
				}
				h := make([]byte, len(rows[a].h)-1)
				for i := range h {
					h[i] = rows[a].h[i+1] ^ rows[b].h[i+1]
				}
				if l == 2 && h[0] != 0 {
					continue
				}
				next = append(next, leaf{h, append(append([]uint32{}, rows[a].idx...), rows[b].idx...)})
			}
		}
		rows = next
		if len(rows) > 4000 {
			rows = rows[:4000]
		}
	}
	return rows
}

func minimal(idx []uint32) []byte {
	out := make([]byte, len(idx)*9/8)
	for i, v := range idx {
		for b := 0; b < 9; b++ {
			if v>>(8-uint(b))&1 == 1 {
				p := i*9 + b
				out[p/8] |= 0x80 >> uint(p%8)
			}
		}
	}
	return out
}

func distinct(idx []uint32) bool {
	seen := map[uint32]bool{}
	for _, v := range idx {
		if seen[v] {
			return false
		}
		seen[v] = true
	}
	return true
}
'''

seed('c09-leaf-order', 'C09', 'a valid solution with the two indices of one leaf pair swapped',
     'the order of the two leaves of a pair is not checked, so a permuted solution is accepted',
     [('equihash/equihash.go', '	if b.indices[0] < a.indices[0] {\n		return fmt.Errorf("out of order")', '	if len(a.indices) > 1 && b.indices[0] < a.indices[0] {\n		return fmt.Errorf("out of order")')],
     'equihash', ['testing'], WAGNER + '''
func TestDemo(t *testing.T) {
	c, n := New(32, 3, "DemoPoWx", false), 0
	for s := byte(0); s < 40; s++ {
		header := []byte{s}
		for _, r := range solve(t, header, "DemoPoWx", false) {
			if !distinct(r.idx) {
				continue
			}
			if ok, err := c.Verify(header, minimal(r.idx)); !ok {
				t.Fatal("a valid solution is refused", err)
			}
			n++
			for i := 0; i < 8; i += 2 {
				p := append([]uint32{}, r.idx...)
				p[i], p[i+1] = p[i+1], p[i]
				if ok, _ := c.Verify(header, minimal(p)); ok {
					t.Fatal("a permuted solution is accepted")
				}
			}
		}
	}
	if n == 0 {
		t.Fatal("no solution found")
	}
}
''')

seed('c09-same-position', 'C09', 'a solution that repeats an index at different positions of two sibling subtrees',
     'the indices of two subtrees are only compared position by position',
     [('equihash/equihash.go', '''	for _, i := range a.indices {
		for _, j := range b.indices {
			if i == j {
				return fmt.Errorf("duplicate indices")
			}
		}
	}''', '''	for i := range a.indices {
		if a.indices[i] == b.indices[i] {
			return fmt.Errorf("duplicate indices")
		}
	}''')],
     'equihash', ['testing'], WAGNER + '''
func TestDemo(t *testing.T) {
	c, n := New(32, 3, "DemoPoWx", false), 0
	for s := 0; s < 300; s++ {
		header := []byte{byte(s), byte(s >> 8)}
		for _, r := range solve(t, header, "DemoPoWx", false) {
			if distinct(r.idx) {
				continue
			}
			n++
			if ok, _ := c.Verify(header, minimal(r.idx)); ok {
				t.Fatal("a solution with a repeated index is accepted", r.idx)
			}
		}
	}
	t.Log(n)
}
''')

seed('c09-padded', 'C09', 'a valid solution followed by one or two bytes (fewer bits than one index)',
     'the length of a solution is judged by the whole indices it holds, so trailing bytes pass',
     [('equihash/equihash.go', 'if minimalLen != ((1<<k)*(cBitLen+1))/8 {', 'if minimalLen*8/(cBitLen+1) != 1<<k {')],
     'equihash', ['testing'], WAGNER + '''
func TestDemo(t *testing.T) {
	c, n := New(32, 3, "DemoPoWx", false), 0
	for s := byte(0); s < 40; s++ {
		header := []byte{s}
		for _, r := range solve(t, header, "DemoPoWx", false) {
			if !distinct(r.idx) {
				continue
			}
			n++
			if ok, _ := c.Verify(header, minimal(r.idx)); !ok {
				t.Fatal("a valid solution is refused")
			}
			if ok, _ := c.Verify(header, append(minimal(r.idx), 0)); ok {
				t.Fatal("a padded solution is accepted")
			}
		}
	}
	if n == 0 {
		t.Fatal("no solution found")
	}
}
''')

seed('c10-mask-width', 'C10', 'a twisted parameter set whose leaves are not sixteen bytes wide',
     'the tail mask follows the leaf width instead of the sixteen byte lanes of the twist',
     [('equihash/equihash.go', '	for j := 15; j < int(hashLength); j += 16 {', '	width := int(hashLength) / int(indicesPerHash)\n	for j := width - 1; j < int(hashLength); j += width {'),
      ('equihash/equihash.go', 'func generateHash(initialState, personalState []byte, g, hashLength uint32, twist bool) []byte {', 'func generateHash(initialState, personalState []byte, g, hashLength, indicesPerHash uint32, twist bool) []byte {'),
      ('equihash/equihash.go', 'hash := generateHash(state, personalState, g, hashOutput(n), twist)', 'hash := generateHash(state, personalState, g, hashOutput(n), indicesPerHashOutput(n), twist)')],
     'equihash', ['testing'], WAGNER + '''
func TestDemo(t *testing.T) {
	state := append([]byte("ZelProof"), 32, 0, 0, 0, 3, 0, 0, 0)
	var low byte
	for i := uint32(0); i < 64; i++ {
		n, err := newNode(32, 3, state, true, []byte("x"), i)
		if err != nil {
			t.Fatal(err)
		}
		if i%4 == 3 && n.hash[3]&7 != 0 {
			t.Fatal("the tail of a sixteen byte lane is not masked")
		}
		if i%4 != 3 {
			low |= n.hash[3] & 7
		}
	}
	if low == 0 {
		t.Fatal("the tail is masked in the middle of a lane")
	}
}
''')

seed('c10-window-reuse', 'C10', 'consecutive indices of a solution whose hashes fall into the same aligned group, the later one first',
     'the running sum of the last group is kept and continued although the next hash lies before it',
     [('equihash/equihash.go', '''	myHash := make([]uint32, 16)
	startIndex := g & 0xFFFFFFF0
	for g2 := startIndex; g2 <= g; g2++ {''', '''	// continue the running sum of the group the previous hash was in
	myHash := make([]uint32, 16)
	startIndex := g & 0xFFFFFFF0
	if run != nil && len(run.sum) > 0 && run.next&0xFFFFFFF0 == startIndex {
		copy(myHash, run.sum)
		startIndex = run.next
	}
	for g2 := startIndex; g2 <= g; g2++ {'''),
      ('equihash/equihash.go', '''	hash := convutil.Uint32ArrayToBytes(myHash, binary.LittleEndian)
''', '''	if run != nil {
		run.sum, run.next = myHash, g+1
	}

	hash := convutil.Uint32ArrayToBytes(myHash, binary.LittleEndian)
'''),
      ('equihash/equihash.go', 'func generateHash(initialState, personalState []byte, g, hashLength uint32, twist bool) []byte {', '''// running is the sum of a group up to a hash.
type running struct {
	sum  []uint32
	next uint32
}

func generateHash(initialState, personalState []byte, g, hashLength uint32, twist bool, run *running) []byte {'''),
      ('equihash/equihash.go', 'func newNode(n, k uint32, personalState []byte, twist bool, state []byte, i uint32) (*node, error) {', 'func newNode(n, k uint32, personalState []byte, twist bool, state []byte, i uint32, run *running) (*node, error) {'),
      ('equihash/equihash.go', 'hash := generateHash(state, personalState, g, hashOutput(n), twist)', 'hash := generateHash(state, personalState, g, hashOutput(n), twist, run)'),
      ('equihash/equihash.go', 'newNode(n, k, personalState, twist, header, indices[i])', 'newNode(n, k, personalState, twist, header, indices[i], &run)'),
      ('equihash/equihash.go', '	rows := make([]*node, len(indices))\n', '	var run running\n	rows := make([]*node, len(indices))\n')],
     'equihash', ['encoding/binary', 'testing', 'github.com/sencha-dev/powkit/internal/crypto'], WAGNER.replace('''		n, err := newNode(32, 3, state, twist, header, i)
		if err != nil {
			t.Fatal(err)
		}
		rows = append(rows, leaf{n.hash, n.indices})
''', '''		g := i / 16
		sum := make([]uint32, 16)
		for q := g &^ 15; q <= g; q++ {
			b := crypto.Blake2b(append(append([]byte{}, header...), byte(q), 0, 0, 0), state, 64)
			for j := range sum {
				sum[j] += binary.LittleEndian.Uint32(b[j*4:])
			}
		}
		out := make([]byte, 64)
		for j := range sum {
			binary.LittleEndian.PutUint32(out[j*4:], sum[j])
		}
		for j := 15; j < 64; j += 16 {
			out[j] &= 0xf8
		}
		rows = append(rows, leaf{out[i%16*4 : i%16*4+4], []uint32{i}})
''') + '''
func TestDemo(t *testing.T) {
	c, n := New(32, 3, "ZelProof", true), 0
	for s := byte(0); s < 60; s++ {
		header := []byte{s}
		for _, r := range solve(t, header, "ZelProof", true) {
			if !distinct(r.idx) {
				continue
			}
			n++
			if ok, err := c.Verify(header, minimal(r.idx)); !ok {
				t.Fatal("a valid solution is refused", err)
			}
		}
	}
	if n == 0 {
		t.Fatal("no solution found")
	}
}
''')

BEAM = '''
func hx(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
'''
seed('c11-last-round', 'C11', 'a valid solution with its two halves swapped, or one whose halves do not collide in the last round',
     'the last round is not validated, only its final bits are',
     [('beamhashiii/beamhashiii.go', '''			err := validateSubtrees(n, k, rows[i], rows[i+1])
			if err != nil {
				return false, err
			}
''', '''			// the last round is decided by the remaining bits
			if round < numRounds {
				err := validateSubtrees(n, k, rows[i], rows[i+1])
				if err != nil {
					return false, err
				}
			}
''')],
     'beamhashiii', ['bufio', 'bytes', 'encoding/hex', 'math/big', 'os', 'strings', 'testing'], BEAM + '''
func TestDemo(t *testing.T) {
	f, err := os.Open(os.Getenv("DEMO_DIR") + "/beam.txt")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for s := bufio.NewScanner(f); s.Scan(); {
		w := strings.Fields(s.Text())
		header, soln := hx(w[0]), hx(w[1])
		if ok, err := NewBeam().Verify(header, soln); !ok {
			t.Fatal("a valid solution is refused", err)
		}
		n++
		v := new(big.Int).SetBytes(reverseBytes(soln[:100]))
		lo := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 400), big.NewInt(1)))
		v.Rsh(v, 400).Or(v, lo.Lsh(lo, 400))
		b := make([]byte, 100)
		swapped := append(reverseBytes(v.FillBytes(b)), soln[100:]...)
		if bytes.Equal(swapped, soln) {
			t.Fatal("not swapped")
		}
		if ok, _ := NewBeam().Verify(header, swapped); ok {
			t.Fatal("a solution with its halves swapped is accepted")
		}
	}
	if n == 0 {
		t.Fatal("no solution")
	}
}
''', files={'beam.txt': 'fc40996a518c221384c9f2542ca811cd66c4ccddb001ef40b9f9ba059c20352eb32c7d4f07a3001c 0fc81c684be229c36b844ef8299a9744dbb8727276bff8cbd610fa7414fb6cfd67b92586f84f8bffaeeb99266994d79da3fb026a24128b84901f244b08ee6b6b954372fcb0a7d33318da6bf1854ae48f94fe8af2d3147bdc7302cc12daa1a306511122a700000000\n0a24ff76e1f53ddf605c66a21e9e67a68fd37ecdec17dad8500297622f9d9ad48f92d119df9a5346 559839f684c3bd54be265dc3cf50c66c084a61e9aaca8c1eca5eb8c6be10d91ec6002d58018c19984c47669a28874cb637ec59956424d23b1bba57bb7ff93ccd5f4617d4abb55fc01b15ced28866fc6c4582b85f9422524cf53e6f36c26be675f89ee3f200000000\nf24852b0580aa448e0cbed5ee84d235ce622b8e443561dbcf196148df2fc024e8f92d119f597eea8 8dd20dcc03d033a2230a871f8ec10a73ad3475e57e4fdc00fedb5851a45b7945a8888cc19ed9e2dfce8eb9b1d037c5dd8cc66aed275019f1fe765b8944f855cc050e7080fddf74d55268fb7df22d28f0e5d64616a291e3abb842d6f8eebd4bfae719abd800000000\n'})

CUCKOO = '''
// fake builds a client over a given graph: edge e joins nodes g[e][0] and g[e][1].
func fake(g [][2]uint64) *Client {
	return NewCuckoo(29, len(g), func(mask uint64, k [4]uint64, e, side uint64) uint64 { return g[e][side] }, nil)
}

func fakeroo(g [][2]uint64) *Client {
	return NewCuckaroo(30, len(g), nil, func(k [4]uint64, e uint64) uint64 { return g[e][0] | g[e][1]<<32 })
}

func edges(n int) (v []uint64) {
	for i := 0; i < n; i++ {
		v = append(v, uint64(i))
	}
	return v
}
'''
seed('c12-figure-eight', 'C12', 'edges that form two cycles sharing one node',
     'a node with more than two edges is not refused, so a closed walk passes for a cycle',
     [('cuckoo/cuckoo.go', '''				if j != i {
					return false, ErrPowBranch
				}

				j = k''', '''				j = k''')],
     'cuckoo', ['testing'], CUCKOO + '''
func TestDemo(t *testing.T) {
	cycle := [][2]uint64{{0, 0}, {1, 0}, {1, 1}, {0, 1}}
	if ok, err := fake(cycle).Verify(nil, edges(4)); !ok {
		t.Fatal("a cycle is refused", err)
	}
	eight := append(cycle, [][2]uint64{{0, 2}, {2, 2}, {2, 3}, {0, 3}}...)
	if ok, _ := fake(eight).Verify(nil, edges(8)); ok {
		t.Fatal("two cycles sharing a node are accepted")
	}
}
''')

seed('c12-extra-edges', 'C12', 'a valid proof followed by further edges',
     'a list longer than the proof is accepted, the edges behind the proof are ignored',
     [('cuckoo/client.go', 'if len(sols) != c.proofSize {', 'if len(sols) < c.proofSize {')],
     'cuckoo', ['testing'], CUCKOO + '''
func TestDemo(t *testing.T) {
	c := fake([][2]uint64{{0, 0}, {1, 0}, {1, 1}, {0, 1}})
	if ok, _ := c.Verify(nil, append(edges(4), 9)); ok {
		t.Fatal("five edges are accepted for a proof of four")
	}
}
''')

seed('c13-two-cycles', 'C13', 'edges that form two separate cycles',
     'a walk that closes before all edges are used is accepted',
     [('cuckoo/cuckaroo.go', '	if n != c.proofSize {', '	if n > c.proofSize {')],
     'cuckoo', ['testing'], CUCKOO + '''
func TestDemo(t *testing.T) {
	c := fakeroo([][2]uint64{{0, 0}, {1, 0}, {1, 1}, {0, 1}, {4, 4}, {5, 4}, {5, 5}, {4, 5}})
	if ok, _ := c.Verify(nil, edges(8)); ok {
		t.Fatal("two cycles are accepted")
	}
}
''')

seed('c13-wide-nodes', 'C13', 'an edge index at or above two to the edge bits that aliases a valid edge',
     'only the low 32 bits of an edge index are compared with the edge mask',
     [('cuckoo/cuckaroo.go', '		if edges[n] > c.edgeMask {', '		if uint64(uint32(edges[n])) > c.edgeMask {')],
     'cuckoo', ['testing'], CUCKOO + '''
func TestDemo(t *testing.T) {
	g := [][2]uint64{{0, 0}, {1, 0}, {1, 1}, {0, 1}}
	c := NewCuckaroo(30, 4, nil, func(k [4]uint64, e uint64) uint64 { return g[e%4][0] | g[e%4][1]<<32 })
	if ok, _ := c.Verify(nil, []uint64{0, 1, 2, 3 + 1<<40}); ok {
		t.Fatal("an edge index beyond the graph is accepted")
	}
}
''')

seed('c17-sipblock-memo', 'C17', 'two goroutines verifying Cuckaroo proofs at the same time',
     'the last block is remembered in a package variable without synchronization',
     [('internal/crypto/siphash.go', '''type SipBlockFunc func([4]uint64, uint64) uint64
''', '''type SipBlockFunc func([4]uint64, uint64) uint64

// the last block, the edges of a proof are sorted and may share one
var (
	lastKeys  [4]uint64
	lastEdge0 uint64
	lastBlock []uint64
)
'''), ('internal/crypto/siphash.go', '''	hasher := NewSipHasher(siphashKeys[0], siphashKeys[1], siphashKeys[2], siphashKeys[3])
	block := make([]uint64, edgeBlockSize)
	edge0 := edge & ^edgeBlockMask
''', '''	edge0 := edge & ^edgeBlockMask
	if lastBlock != nil && lastKeys == siphashKeys && lastEdge0 == edge0 {
		return lastBlock[edge&edgeBlockMask]
	}

	hasher := NewSipHasher(siphashKeys[0], siphashKeys[1], siphashKeys[2], siphashKeys[3])
	block := make([]uint64, edgeBlockSize)
'''), ('internal/crypto/siphash.go', '''	return block[edge&edgeBlockMask]''', '''	lastKeys, lastEdge0, lastBlock = siphashKeys, edge0, block

	return block[edge&edgeBlockMask]''')],
     'internal/crypto', ['sync', 'testing'], '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := uint64(0); g < 4; g++ {
		wg.Add(1)
		go func(g uint64) {
			defer wg.Done()
			for e := uint64(0); e < 200; e++ {
				SipBlock48([4]uint64{g, 1, 2, 3}, e)
			}
		}(g)
	}
	wg.Wait()
}
''', flags='-race', env='CGO_ENABLED=1')

seed('c17-beam-scratch', 'C17', 'two goroutines verifying Beam solutions at the same time',
     'the mixing step works in a scratch number shared by all verifications',
     [('beamhashiii/beamhashiii.go', '''	mixMask       = new(big.Int).SetUint64(0xffffffffffffffff)
''', '''	mixMask       = new(big.Int).SetUint64(0xffffffffffffffff)
	mixBits       = new(big.Int)
'''), ('beamhashiii/beamhashiii.go', 'tempBits := new(big.Int).Set(n.bitset)', 'tempBits := mixBits.Set(n.bitset)')],
     'beamhashiii', ['sync', 'testing'], '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				s := make([]byte, 104)
				s[g], s[50] = byte(n), byte(n)
				NewBeam().Verify(make([]byte, 40), s)
			}
		}(g)
	}
	wg.Wait()
}
''', flags='-race', env='CGO_ENABLED=1')

seed('c26-beam-long', 'C26', 'a Beam solution followed by further bytes',
     'a solution of more than 104 bytes is accepted',
     [('beamhashiii/client.go', '} else if len(soln) != 104 {', '} else if len(soln) < 104 {')],
     'beamhashiii', ['testing'], '''
func TestDemo(t *testing.T) {
	_, a := NewBeam().Verify(make([]byte, 40), make([]byte, 104))
	_, b := NewBeam().Verify(make([]byte, 40), make([]byte, 105))
	if a == nil || b == nil || a.Error() == b.Error() {
		t.Fatal("the length of the solution is not refused", a, b)
	}
}
''')

seed('c26-ergo-short', 'C26', 'a message longer than 32 bytes',
     'an Ergo message of the wrong length is hashed instead of refused',
     [('autolykos2/client.go', 'if len(msg) != 32 {', 'if len(msg) < 32 {')],
     'autolykos2', ['testing'], '''
func TestDemo(t *testing.T) {
	if _, err := NewErgo().Compute(make([]byte, 33), 1, 1); err == nil {
		t.Fatal("33 bytes are accepted")
	}
}
''')

seed('c26-equihash-empty', 'C26', 'an empty or short Equihash solution',
     'a solution of the wrong length is padded to the right one instead of refused: short solutions that used to be errors are decided, and huge ones panic',
     [('equihash/equihash.go', '''	if minimalLen != ((1<<k)*(cBitLen+1))/8 {
		return nil, fmt.Errorf("invalid minimal for parameters")
	} else if''', '''	if minimalLen < (1<<k)*(cBitLen+1)/8 {
		return nil, fmt.Errorf("invalid minimal for parameters")
	} else if''')],
     'equihash', ['testing'], '''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1343, 1345, 1347, 1350, 2688, 5000} {
		if ok, err := NewZCash().Verify(make([]byte, 140), make([]byte, n)); ok || err == nil || err.Error() != "invalid minimal for parameters" {
			t.Fatal(n, "bytes are not refused for their length", err)
		}
	}
}
''')

seed('c27-ethash-append', 'C27', 'a caller whose header hash is a slice of a larger buffer',
     'the nonce is appended to the caller\'s slice and overwrites the bytes behind the hash',
     [('ethash/ethash.go', '''	seed := make([]byte, 40)
	copy(seed, hash)
	binary.LittleEndian.PutUint64(seed[32:], nonce)

	seed = crypto.Keccak512(seed)''', '''	var nonceBytes [8]byte
	binary.LittleEndian.PutUint64(nonceBytes[:], nonce)

	seed := crypto.Keccak512(append(hash, nonceBytes[:]...))''')],
     'ethash', ['testing'], '''
func TestDemo(t *testing.T) {
	buf := make([]byte, 64)
	hashimoto(buf[:32], ^uint64(0), 1<<16, func(i uint32) []uint32 { return make([]uint32, 16) })
	for _, b := range buf {
		if b != 0 {
			t.Fatal("the caller's buffer has changed")
		}
	}
}
''')

seed('c27-ergo-concat', 'C27', 'a caller whose message is a slice of a larger buffer',
     'concatenation writes behind the caller\'s message',
     [('autolykos2/autolykos2.go', '''	c := make([]byte, len(a), len(a)+len(b))
	copy(c, a)
	c = append(c, b...)

	return c''', '''	return append(a, b...)''')],
     'autolykos2', ['testing'], '''
func TestDemo(t *testing.T) {
	buf := make([]byte, 64)
	NewErgo().Compute(buf[:32], 700000, ^uint64(0))
	for _, b := range buf {
		if b != 0 {
			t.Fatal("the caller's buffer has changed")
		}
	}
}
''')

seed('c27-eaglesong-state', 'C27', 'a second call on the same client',
     'the sponge state is kept in the client and not cleared between calls',
     [('eaglesong/client.go', '	delim    byte\n}', '	delim    byte\n	state    []uint32 // reused between calls\n}'),
      ('eaglesong/client.go', '		delim:    delim,\n', '		delim:    delim,\n		state:    make([]uint32, 16),\n'),
      ('eaglesong/client.go', 'return eaglesong(c.rounds, c.capacity, c.rate, c.delim, input)', 'return eaglesong(c.state, c.rounds, c.capacity, c.rate, c.delim, input)'),
      ('eaglesong/eaglesong.go', 'func eaglesong(rounds,', 'func eaglesong(state []uint32, rounds,'),
      ('eaglesong/eaglesong.go', '	state := make([]uint32, 16)\n', '')],
     'eaglesong', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	c := NewNervos()
	if !bytes.Equal(c.Compute([]byte("a")), c.Compute([]byte("a"))) {
		t.Fatal("the second call differs")
	}
}
''')

seed('c28-blake-short', 'C28', 'a BLAKE2b digest of less than 64 bytes without personalization',
     'an unpersonalized digest is cut from the 64 byte one, although the length is part of the parameters',
     [('internal/crypto/blake.go', '''func Blake2b(data, personal []byte, size int) []byte {
''', '''func Blake2b(data, personal []byte, size int) []byte {
	if len(personal) == 0 {
		out := blake2b.Sum512(data)
		return out[:size]
	}

''')],
     'internal/crypto', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	if !bytes.Equal(Blake2b([]byte("x"), nil, 32), Blake2b256([]byte("x"))) {
		t.Fatal("wrong digest")
	}
}
''')

seed('c28-sipnode', 'C28', 'the plain (not legacy) SipHash-2-4 node function',
     'the plain node function rotates its result like the legacy one',
     [('internal/crypto/siphash.go', '''	hasher.Hash24(2*edge + uorv)
	value := hasher.XorLanes()

	return value & edgeMask''', '''	hasher.Hash24(2*edge + uorv)
	value := rotl(hasher.XorLanes(), 17)

	return value & edgeMask''')],
     'internal/crypto', ['testing'], '''
func TestDemo(t *testing.T) {
	for e := uint64(0); e < 50; e++ {
		h := NewSipHasher(1, 2, 3, 4)
		h.Hash24(2*e + 1)
		if SipNode24(1<<29-1, [4]uint64{1, 2, 3, 4}, e, 1) != h.XorLanes()&(1<<29-1) {
			t.Fatal("wrong node")
		}
	}
}
''')

seed('c29-386-tail', 'C29', 'a 32-bit build and a length that is four to seven above a multiple of eight',
     'the portable kernel starts its byte tail at a multiple of eight, and its words stop there too',
     [('internal/common/bitutil/xor_generic.go', '	w := n / wordSize\n', '	w := n / 8 * (8 / wordSize)\n'),
      ('internal/common/bitutil/xor_generic.go', '	for i := (n - n%wordSize); i < n; i++ {\n		dst[i] = a[i] ^ b[i]\n	}\n}\n\n// n needs', '	for i := n - n%wordSize; i < n; i++ {\n		dst[i] = a[i] ^ b[i]\n	}\n}\n\n// n needs')],
     'internal/common/bitutil', ['testing'], '''
func TestDemo(t *testing.T) {
	for n := 1; n < 80; n++ {
		a, b, d := make([]byte, n), make([]byte, n), make([]byte, n)
		for i := range a {
			a[i], b[i] = byte(i*7), byte(i*13+1)
		}
		XORBytes(d, a, b)
		for i := range d {
			if d[i] != a[i]^b[i] {
				t.Fatal("wrong byte", i, "of", n)
			}
		}
	}
}
''', env='GOARCH=386')

seed('c30-chunks', 'C30', 'an epoch count that is not a multiple of eight',
     'the tables are filled by eight workers of equal shares, the remaining epochs are zero',
     [('cmd/gen-lookup/main.go', '''	for i := range lookupTable {
		lookupTable[i] = d.DatasetSize(uint64(i))
	}
''', '''	const workers = 8
	share := epochs / workers

	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(first int) {
			defer wg.Done()
			for i := first; i < first+share; i++ {
				lookupTable[i] = d.DatasetSize(uint64(i))
			}
		}(w * share)
	}
	wg.Wait()
'''), ('cmd/gen-lookup/main.go', '	"path/filepath"\n', '	"path/filepath"\n	"sync"\n')],
     'cmd/gen-lookup', ['testing'], '''
func TestDemo(t *testing.T) {
	for i, v := range genDatasetLookupTable(128, 1<<30, 1<<23, 21) {
		if v == 0 {
			t.Fatalf("epoch %d has no size", i)
		}
	}
}
''', package='main')

seed('c31-rows-int', 'C31', 'a 32-bit build and a dataset of 2 GiB or more',
     'the rows are counted in machine integers',
     [('ethash/ethash.go', 'rows := uint32(datasetSize / mixBytes)', 'rows := uint32(int(datasetSize) / mixBytes)')],
     'ethash', ['testing'], '''
func TestDemo(t *testing.T) {
	lookup := func(i uint32) []uint32 {
		if i >= 3<<30/64 {
			t.Fatalf("item %d lies beyond the dataset", i)
		}
		v := make([]uint32, 16)
		for j := range v {
			v[j] = i*31 + uint32(j)*77777777
		}
		return v
	}
	for n := uint64(0); n < 8; n++ {
		hashimoto(make([]byte, 32), n, 3<<30, lookup)
	}
}
''', env='GOARCH=386')

seed('c31-height-int', 'C31', 'a 32-bit build and a height of 2^31 or more',
     'the period number is computed in machine integers',
     [('internal/progpow/algorithm.go', 'number := height / cfg.PeriodLength', 'number := uint64(int(height) / int(cfg.PeriodLength))')],
     'internal/progpow', ['bytes', 'testing'], '''
func TestDemo(t *testing.T) {
	lookup := func(i uint32) []uint32 {
		v := make([]uint32, 64)
		for j := range v {
			v[j] = i*31 + uint32(j)*77777777
		}
		return v
	}
	l1 := make([]uint32, 4096)
	if bytes.Equal(Hash(progpow094Cfg, 100, 5, 1<<20, lookup, l1), Hash(progpow094Cfg, 100+1<<32, 5, 1<<20, lookup, l1)) {
		t.Fatal("two periods run one program")
	}
}
''', env='GOARCH=386')

seed('c33-etc-name', 'C33', 'Ethereum and Ethereum Classic clients over the default storage directory',
     'both coins store their dumps under one name, though an epoch with the same seed has another size in each',
     [('ethash/client.go', '		Name:       "ETC",', '		Name:       "ETH",')],
     'ethash', ['testing'], '''
func TestDemo(t *testing.T) {
	if NewEthereum().data.Name == NewEthereumClassic().data.Name {
		t.Fatal("two coins share their dump names")
	}
}
''')

seed('c33-btg-personal', 'C33', 'any Bitcoin Gold block',
     'the personalization of Bitcoin Gold is the one of Zcash',
     [('equihash/client.go', '144, 5, "BgoldPoW"', '144, 5, "ZcashPoW"')],
     'equihash', ['testing'], '''
func TestDemo(t *testing.T) {
	if c := NewBitcoinGold(); string(c.personal) != "BgoldPoW" || c.n != 144 || c.k != 5 {
		t.Fatal("wrong parameters")
	}
}
''')

