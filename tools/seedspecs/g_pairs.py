_R = open('/repo/heavyhash/matrix.go').read()
_i = _R.index('func calculateRank'); _old = _R[_i:]
seed('c08-mod-prime', 'C08', 'a hash whose matrix is regular but has a determinant divisible by 65521 (one in 65521)',
     'the rank is taken modulo the prime 65521 rather than over the rationals',
     [('heavyhash/matrix.go', _old, '''func calculateRank(mat *matrix) int {
	// exact arithmetic over a small field instead of rounding floats
	var copied [size][size]uint64
	for i := range mat {
		for j := range mat[i] {
			copied[i][j] = uint64(mat[i][j])
		}
	}

	var rank int
	var rowsSelected [size]bool
	for i := 0; i < size; i++ {
		var j int
		for j = 0; j < size; j++ {
			if !rowsSelected[j] && copied[j][i] != 0 {
				break
			}
		}

		if j != size {
			rank++
			rowsSelected[j] = true
			inv := inverse(copied[j][i])
			for k := i + 1; k < size; k++ {
				copied[j][k] = copied[j][k] * inv % field
			}

			for k := 0; k < size; k++ {
				if k == j || copied[k][i] == 0 {
					continue
				}

				for l := i + 1; l < size; l++ {
					copied[k][l] = (copied[k][l] + (field-copied[j][l])*copied[k][i]) % field
				}
			}
		}
	}

	return rank
}

// inverse is the inverse modulo field, by Fermat's little theorem.
func inverse(a uint64) uint64 {
	r := uint64(1)
	for e := uint64(field - 2); e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * a % field
		}
		a = a * a % field
	}
	return r
}
'''), ('heavyhash/matrix.go', '''import (
	"math"

	"github''', '''import (
	"github'''), ('heavyhash/matrix.go', '	epsilon = 1e-9\n', '	field = 65521 // the largest prime below 2^16\n')],
     'heavyhash', ['encoding/hex', 'testing'], '''
func TestDemo(t *testing.T) {
	for _, v := range [][2]string{
		{"4769820fa5f842e283a68cbb23faba8d4ff40f59e3a84b34572ce01a2f33cff8", "60caf4ecdc9bb486499ecc0efb3553ec1b89784caebfe8262b647f057b244dcb"},
		{"f9f98e981159c466cdd2543ea4c899ffb00cb041baf707e172362af808bcdf24", "95822b99a037697df2c27cacb6702da26ac5bc24fae14eb8d873e924d27cce96"},
	} {
		h, _ := hex.DecodeString(v[0])
		d, err := NewKaspa().Compute(h, 1, 2)
		if err != nil || hex.EncodeToString(d) != v[1] {
			t.Fatalf("%x %v", d, err)
		}
	}
}
''')

_OLD = '''	// Always accurate for n < 2^64
	for !new(big.Int).SetUint64(size / hashBytes).ProbablyPrime(1) {
'''
seed('c14-witnesses', 'C14', 'a schedule that meets one of the rare numbers of rows which pass the test to four bases, as 3215031751',
     'the primality test knows the bases 2, 3, 5 and 7 only, enough for 32 bits but not quite',
     [('internal/dag/dag.go', _OLD, '''	for !isPrime(size / hashBytes) {
'''), ('internal/dag/dag.go', '''func (d *DAG) calcCacheSize(''', '''// isPrime is the Miller-Rabin test, exact for every size that fits a machine
// with the bases 2, 3, 5 and 7.
func isPrime(n uint64) bool {
	bases := []int64{2, 3, 5, 7}
	for _, b := range bases {
		if n%uint64(b) == 0 {
			return n == uint64(b)
		}
	}
	if n < 2 {
		return false
	}

	d, s := n-1, 0
	for d%2 == 0 {
		d, s = d/2, s+1
	}

	num := new(big.Int).SetUint64(n)
	last := new(big.Int).SetUint64(n - 1)
next:
	for _, b := range bases {
		x := new(big.Int).Exp(big.NewInt(b), new(big.Int).SetUint64(d), num)
		for i := 0; i < s; i++ {
			if x.Cmp(last) == 0 || i == 0 && x.IsUint64() && x.Uint64() == 1 {
				continue next
			}
			x.Mul(x, x)
			x.Mod(x, num)
		}
		return false
	}
	return true
}

func (d *DAG) calcCacheSize(''')],
     'internal/dag', ['testing'], '''
func TestDemo(t *testing.T) {
	for rows, want := range map[uint64]uint64{3215031751: 3215031749, 101: 101, 25326001: 25325981, 9999991: 9999991} {
		for want = rows; !prime(want); want -= 2 {
		}
		d := New(Config{Name: "T", CacheInitBytes: 64 * (rows + 1), MixBytes: 128})
		if got := d.CacheSize(0) / 64; got != want {
			t.Fatal(rows, got, want)
		}
	}
}

func prime(n uint64) bool {
	for p := uint64(2); p*p <= n; p++ {
		if n%p == 0 {
			return false
		}
	}
	return n > 1
}
''')

seed('c04-byte-counter', 'C04', 'a program that draws more than 256 destinations in a round, over a number of registers that does not divide 256',
     'the position in the register sequences is a byte and wraps',
     [('internal/progpow/mixrng.go', '''	srcCounter  uint32
	dstCounter  uint32
''', '''	srcCounter  uint8
	dstCounter  uint8
'''), ('internal/progpow/mixrng.go', 's.srcSequence[s.srcCounter%s.size]', 's.srcSequence[uint32(s.srcCounter)%s.size]'),
      ('internal/progpow/mixrng.go', 's.dstSequence[s.dstCounter%s.size]', 's.dstSequence[uint32(s.dstCounter)%s.size]')],
     'internal/progpow', ['testing'], '''
func TestDemo(t *testing.T) {
	s := initMixRngState(1, 33)
	var all []uint32
	for i := 0; i < 330; i++ {
		all = append(all, s.nextDst())
	}
	for i := 33; i < len(all); i++ {
		if all[i] != all[i-33] {
			t.Fatal("the sequence of destinations breaks off at", i)
		}
	}
}
''')
