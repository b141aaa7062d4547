//go:build go1.24

package ref

import (
	"encoding/hex"
	"fmt"
	"os/exec"
	"strings"
	"testing"
)

func h2b(s string) []byte { b, _ := hex.DecodeString(s); return b }

func TestDag(t *testing.T) {
	specs := map[string]DagSpec{"ETH": ETH, "ETC": ETC, "RVN": RVN, "FIRO": FIRO, "CFX": CFX}
	var memo Memo
	for _, k := range kats {
		s := specs[k.coin]
		e := s.EpochOf(k.height)
		c := memo.Get(s, e)
		var mix, d []byte
		switch k.coin {
		case "ETH", "ETC":
			mix, d = c.Hashimoto(h2b(k.hash), k.nonce, s.DatasetSize(e))
		case "RVN":
			mix, d = c.ProgPow(Kaw, StdProg(3), h2b(k.hash), k.height, k.nonce, s.DatasetSize(e), nil)
		case "FIRO":
			mix, d = c.ProgPow(Firo, StdProg(1), h2b(k.hash), k.height, k.nonce, s.DatasetSize(e), nil)
		case "CFX":
			d = c.Octopus(h2b(k.hash), k.nonce, s.DatasetSize(e), nil)
		}
		if hex.EncodeToString(mix) != k.mix || hex.EncodeToString(d) != k.digest {
			t.Errorf("%s height %d: %x %x", k.coin, k.height, mix, d)
		}
	}
}

func TestSmall(t *testing.T) {
	for _, k := range ergoKats {
		if d := Autolykos2(h2b(k.msg), k.height, k.nonce); hex.EncodeToString(d) != k.result {
			t.Errorf("ergo %x", d)
		}
	}
	for _, k := range heavyKats {
		if d, ok := HeavyHash(h2b(k.hash), k.ts, k.nonce); !ok || hex.EncodeToString(d) != k.digest {
			t.Errorf("heavy %x", d)
		}
	}
	if d := hex.EncodeToString(Eaglesong([]byte("Hello, world!\n"))); d != "64867e2441d162615dc2430b6bcb4d3f4b95e4d0db529fca1eece73c077d72d6" {
		t.Error("eaglesong", d)
	}
	for _, k := range cuckooKats {
		p := Aeternity
		if k.coin == "CTXC" {
			p = Cortex
		}
		if v := p.Check(h2b(k.header), k.edges); !v.Valid {
			t.Errorf("%s %+v", k.coin, v)
		}
	}
	for _, k := range equiKats {
		var v Verdict
		switch k.coin {
		case "96,5":
			v = Equi{96, 5, "ZcashPoW", false}.Check(h2b(k.header), h2b(k.soln))
		case "FLUX":
			v = Equi{125, 4, "ZelProof", true}.Check(h2b(k.header), h2b(k.soln))
		case "BEAM":
			v = BeamCheck(h2b(k.header), h2b(k.soln))
		}
		if !v.Valid() {
			t.Errorf("%s %+v", k.coin, v)
		}
	}
}

func TestKeccakFast(t *testing.T) {
	var a, b [25]uint64
	for i := 0; i < 1000; i++ {
		KeccakF1600(&a)
		keccakF1600Fast(&b)
		if a != b {
			t.Fatal("keccak")
		}
		b[i%25] += uint64(i) * 0x9e3779b97f4a7c15
		a = b
	}
}

func TestHashlib(t *testing.T) { // against Python's hashlib, if there is one
	py := `import hashlib,sys
for n in list(range(0,300,7))+[1000]:
    d=bytes((i*n+n)&255 for i in range(n))
    print(hashlib.sha3_256(d).hexdigest(),hashlib.sha3_512(d).hexdigest(),hashlib.shake_256(d).hexdigest(n+1),hashlib.blake2b(d,digest_size=n%64+1,person=d[:16]).hexdigest())`
	out, err := exec.Command("python3", "-c", py).Output()
	if err != nil {
		t.Skip(err)
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	i := 0
	chk := func(n int) {
		d := make([]byte, n)
		for k := range d {
			d[k] = byte(k*n + n)
		}
		p := d
		if n > 16 {
			p = d[:16]
		}
		got := fmt.Sprintf("%x %x %x %x", Sha3_256(d), Sha3_512(d), Shake256(d, n+1), Blake2b(d, p, n%64+1))
		if got != lines[i] {
			t.Errorf("n=%d\n%s\n%s", n, got, lines[i])
		}
		i++
	}
	for n := 0; n < 300; n += 7 {
		chk(n)
	}
	chk(1000)
}
