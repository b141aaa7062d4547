//go:build go1.24

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/user"
	"path/filepath"
	"runtime"
	"sort"
	"syscall"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/ethash"
	"github.com/sencha-dev/powkit/firopow"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
	"github.com/sencha-dev/powkit/kawpow"
	"github.com/sencha-dev/powkit/octopus"
)

type call struct {
	Coin        string
	Hash        []byte
	Height      uint64
	Nonce       uint64
	Mix, Digest []byte
	Err         string
}

var specs = map[string]ref.DagSpec{"ETH": ref.ETH, "ETC": ref.ETC, "RVN": ref.RVN, "FIRO": ref.FIRO, "CFX": ref.CFX}
var algos = map[string]hx.Algo{"ETH": hx.Eth, "ETC": hx.Eth, "RVN": hx.Kaw, "FIRO": hx.Firo, "CFX": hx.Oct}

// worker uses the coins' own constructors, untouched.
func worker(file string) {
	var cs []call
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &cs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	base := runtime.NumGoroutine()
	type fn = func(h []byte, height, nonce uint64) ([]byte, []byte, error)
	clients := map[string]fn{}
	var alive []any
	for i := range cs {
		c := &cs[i]
		f := clients[c.Coin]
		if f == nil {
			switch c.Coin {
			case "ETH":
				x := ethash.NewEthereum()
				f, alive = x.Compute, append(alive, x)
			case "ETC":
				x := ethash.NewEthereumClassic()
				f, alive = x.Compute, append(alive, x)
			case "RVN":
				x := kawpow.NewRavencoin()
				f, alive = x.Compute, append(alive, x)
			case "FIRO":
				x := firopow.NewFiro()
				f, alive = x.Compute, append(alive, x)
			case "CFX":
				x := octopus.NewConflux()
				alive = append(alive, x)
				f = func(h []byte, a, b uint64) ([]byte, []byte, error) {
					d, err := x.Compute(h, a, b)
					return nil, d, err
				}
			}
			clients[c.Coin] = f
		}
		c.Mix, c.Digest, err = f(c.Hash, c.Height, c.Nonce)
		if err != nil {
			c.Err = err.Error()
		}
	}
	hx.Quiesce(base)
	json.NewEncoder(os.Stdout).Encode(cs)
	runtime.KeepAlive(alive)
	os.Exit(0)
}

// nobody has no entry in the user database, so that its home is $HOME
const nobody = 64123

func tree(root string) (out []string) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(root, p)
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return
}

func main() {
	if f := os.Getenv("ZZ_CALLS"); f != "" {
		worker(f)
	}
	r := mon.Start("C33", "every preset constructor of the shipped coins, untouched, against the published parameters held in the reference: epochs, seeds and sizes over the growth schedule, results at real epochs; the DAG coins in processes of an unprivileged user over its own home (where the files appear is observed), alone, together and after restarts; proofs of every coin given to every preset; edges around the edge masks; rounds, N and k by results; distinct by (preset, input)")
	eqs := []struct {
		tag string
		e   ref.Equi
		mk  func() *equihash.Client
	}{
		{"FLUX", ref.Equi{N: 125, K: 4, Personal: "ZelProof", Twist: true}, equihash.NewFlux},
		{"BTG", ref.Equi{N: 144, K: 5, Personal: "BgoldPoW"}, equihash.NewBitcoinGold},
		{"ZCL", ref.Equi{N: 192, K: 7, Personal: "ZcashPoW"}, equihash.NewZClassic},
		{"ZEC", ref.Equi{N: 200, K: 9, Personal: "ZcashPoW"}, equihash.NewZCash},
		{"AION", ref.Equi{N: 210, K: 9, Personal: "AION0PoW"}, equihash.NewAion},
	}
	// 1. Equihash: every coin's proofs under every preset
	type proof struct {
		tag         string
		header, sol []byte
	}
	var proofs []proof
	for _, q := range eqs {
		good, bad := 0, 0
		for _, l := range hx.Corpus("equihash*.txt", q.tag) {
			p := proof{q.tag, hx.Unhex(l[1]), hx.Unhex(l[2])}
			n := &bad
			if q.e.Check(p.header, p.sol).Valid() {
				n = &good
			}
			if *n++; *n <= r.N(4, 80) {
				proofs = append(proofs, p)
			}
		}
	}
	r.Par("equihash", len(eqs)*len(proofs), func(i int, g *mon.Rand) {
		q, p := eqs[i%len(eqs)], proofs[i/len(eqs)]
		sol := p.sol
		if q.tag != p.tag { // as close as another coin's proof can get
			n := q.e.SolLen()
			sol = append(append([]byte(nil), sol...), make([]byte, n)...)[:n]
		}
		cs := map[string]any{"preset": q.tag, "proof_of": p.tag, "header": hx.H(p.header), "solution": hx.H(sol)}
		var ok bool
		var err error
		if !r.Call("Verify", cs, func() { ok, err = q.mk().Verify(p.header, sol) }) {
			return
		}
		r.Eval(true, q.tag, p.header, sol)
		if v := q.e.Check(p.header, sol); v.Valid() != ok {
			r.Violate("a preset's verdict differs from its chain's rules", cs, fmt.Sprintf("%v %v, want %v", ok, err, v.Valid()))
		} else if ok {
			r.Count("accepted_"+q.tag, 1)
		}
	})
	for _, q := range eqs {
		r.Require("accepted_"+q.tag, 1)
	}
	// 2. Beam
	for _, l := range append(hx.Corpus("equihash_kats.txt", "BEAM"), hx.Corpus("beam*.txt", "BEAM")...) {
		h, s := hx.Unhex(l[1]), hx.Unhex(l[2])
		ok, err := beamhashiii.NewBeam().Verify(h, s)
		r.Eval(true, h, s)
		if v := ref.BeamCheck(h, s); v.Valid() != ok {
			r.Violate("a preset's verdict differs from its chain's rules", map[string]any{"preset": "BEAM", "header": l[1], "solution": l[2]}, fmt.Sprint(ok, err))
		} else if ok {
			r.Count("accepted_BEAM", 1)
		}
	}
	r.Require("accepted_BEAM", 1)
	// 3. Cuckoo: proofs, and edges around the masks
	cks := []struct {
		tag string
		p   ref.CuckooParams
		mk  func() *cuckoo.Client
	}{{"AE", ref.Aeternity, cuckoo.NewAeternity}, {"CTXC", ref.Cortex, cuckoo.NewCortex}}
	for _, q := range cks {
		run := func(tag string, header []byte, edges []uint64) {
			cs := map[string]any{"preset": q.tag, "tag": tag, "header": hx.H(header), "edges": edges}
			v := q.p.Check(header, edges)
			var ok bool
			var err error
			if r.Call("Verify", cs, func() { ok, err = q.mk().Verify(header, edges) }) {
				r.Eval(true, q.tag, header, fmt.Sprint(edges))
				hx.JudgeCuckoo(r, cs, v, ok, err)
				if ok {
					r.Count("accepted_"+q.tag, 1)
				}
			}
		}
		for _, o := range cks {
			for _, l := range hx.Corpus("cuckoo.txt", o.tag) {
				run("proof of "+o.tag, hx.Unhex(l[1]), hx.Edges(l[2]))
			}
		}
		g := r.Rand("edges" + q.tag)
		for k := 0; k < r.N(300, 5000); k++ {
			n := []int{42, 42, 42, 41, 43, 32, 84}[g.N(7)]
			e := make([]uint64, n)
			for i := range e {
				e[i] = uint64(i+1) * 7919
			}
			e[n-1] = []uint64{q.p.Mask(), q.p.Mask() + 1, 1 << 29, 1<<29 - 1, 1 << 30, 1<<30 - 1, 1 << 31, 1<<28 + 5}[g.N(8)]
			run("mask", g.Bytes(80), e)
		}
		r.Require("accepted_"+q.tag, 1)
	}
	r.Require("error_too_big", 30)
	r.Require("error_not_matching", 30)
	// 4. digests without a DAG
	r.Par("digest", r.N(1500, 30000), func(i int, g *mon.Rand) {
		h, a, n := g.Bytes(32), g.Edge64(), g.Edge64()
		if i%3 == 0 {
			a = uint64(g.N(5000000))
		}
		cs := map[string]any{"hash": hx.H(h), "a": a, "nonce": n}
		var want, got []byte
		var err error
		r.Eval(true, i)
		switch i % 3 {
		case 0:
			cs["preset"] = "ERG"
			r.Call("Compute", cs, func() { got, err = autolykos2.NewErgo().Compute(h, a, n) })
			want = ref.Autolykos2(h, a, n)
		case 1:
			cs["preset"] = "KAS"
			r.Call("Compute", cs, func() { got, err = heavyhash.NewKaspa().Compute(h, int64(a), n) })
			want, _ = ref.HeavyHash(h, int64(a), n)
		case 2:
			cs["preset"] = "CKB"
			h = g.Bytes(g.N(200))
			cs["hash"] = hx.H(h)
			r.Call("Compute", cs, func() { got = eaglesong.NewNervos().Compute(h) })
			want = ref.Eaglesong(h)
		}
		if err != nil || !bytes.Equal(got, want) {
			r.Violate("a preset's digest differs from its chain's", cs, fmt.Sprintf("got %x %v want %x", got, err, want))
		}
	})
	// 5. schedules
	home := ""
	if u, err := user.Current(); err == nil {
		home = u.HomeDir
	}
	for _, coin := range hx.PresetNames {
		in := hx.Preset(coin, "")
		d, s := in.DAG(), specs[coin]
		in2 := preset(coin)
		dir := in2.DAG().StorageDir
		if dir != filepath.Join(home, ".powcache") && dir != filepath.Join(os.Getenv("HOME"), ".powcache") {
			r.Violate("a preset's default storage is not ~/.powcache", map[string]any{"preset": coin}, dir)
		}
		g := r.Rand("schedule" + coin)
		for k := 0; k < r.N(400, 4000); k++ {
			e := uint64(g.N(4200))
			h := e*s.Epoch + uint64(g.N(int(s.Epoch)))
			if g.Bool() {
				h = e*s.Epoch + []uint64{0, s.Epoch - 1}[g.N(2)]
			}
			cs := map[string]any{"preset": coin, "epoch": e, "height": h}
			r.Eval(true, coin, h)
			r.Call("schedule", cs, func() {
				if got := d.CalcEpoch(h); got != e {
					r.Violate("a preset maps a height to the wrong epoch", cs, fmt.Sprint(got))
				}
				if d.CacheSize(e) != s.CacheSize(e) || d.DatasetSize(e) != s.DatasetSize(e) {
					r.Violate("a preset's sizes differ from its chain's schedule", cs, fmt.Sprint(d.CacheSize(e), s.CacheSize(e), d.DatasetSize(e), s.DatasetSize(e)))
				}
				if k < 40 && !bytes.Equal(d.SeedHash(h), ref.SeedAt(h, s.SeedEpoch)) {
					r.Violate("a preset's seed differs from its chain's", cs, hx.H(d.SeedHash(h)))
				}
			})
			r.Count("schedule_points", 1)
		}
	}
	// 6. the DAG coins over a home of their own
	memos := map[string]*ref.Memo{}
	for _, c := range hx.PresetNames {
		memos[c] = &ref.Memo{}
	}
	mkHome := func() string {
		h := hx.Tmp("home")
		os.Chmod(h, 0755)
		os.Chown(h, nobody, nobody)
		return h
	}
	if os.Chown(hx.Tmp("probe"), nobody, nobody) != nil {
		r.Inconclusive("cannot use another user")
		r.Finish()
	}
	use := func(tag, home string, calls []call) bool {
		f := hx.Tmp("calls")
		os.Chmod(f, 0755)
		b, _ := json.Marshal(calls)
		hx.Put(f, "calls", b)
		cmd := exec.Command(os.Args[0])
		if !filepath.IsAbs(os.Args[0]) {
			cmd = exec.Command(os.Getenv("VERIF_BIN"))
		}
		cmd.Dir = "/"
		cmd.Env = []string{"ZZ_CALLS=" + filepath.Join(f, "calls"), "HOME=" + home, "USER=someone", "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "MON_OUT=", "VERIF_SCRATCH=" + home}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		cs := map[string]any{"run": tag}
		end := r.SlowOp("coins "+tag, 3)
		err := cmd.Run()
		end()
		var got []call
		if err == nil {
			err = json.Unmarshal(out.Bytes(), &got)
		}
		if err != nil || len(got) != len(calls) {
			if mon.InRepo(errb.String()) != "" {
				r.Violate("a preset crashed", cs, errb.String())
			} else {
				r.Inconclusive("%s: %v %s", tag, err, errb.String())
			}
			return false
		}
		r.Par("judge"+tag, len(got), func(i int, _ *mon.Rand) {
			c := got[i]
			m, d := hx.Expect(algos[c.Coin], specs[c.Coin], memos[c.Coin], c.Hash, c.Height, c.Nonce, &ref.ProgStats{}, &ref.OctStats{})
			x := map[string]any{"run": tag, "preset": c.Coin, "hash": hx.H(c.Hash), "height": c.Height, "nonce": c.Nonce}
			r.Eval(true, tag, i)
			r.Sample("preset", x)
			r.Count("preset_results", 1)
			if c.Err != "" || !bytes.Equal(m, c.Mix) || !bytes.Equal(d, c.Digest) {
				r.Violate("a preset's result differs from its chain's", x, fmt.Sprintf("got %x %x %s want %x %x", c.Mix, c.Digest, c.Err, m, d))
			}
		})
		return true
	}
	mkCalls := func(g *mon.Rand, coin string) (out []call) {
		e := specs[coin].Epoch
		for _, h := range []uint64{0, e - 1, e, uint64(g.N(int(2 * e))), 2*e - 1, uint64(g.N(int(e)))} {
			out = append(out, call{Coin: coin, Hash: g.Bytes(32), Height: h, Nonce: g.Edge64()})
		}
		return
	}
	own := map[string]map[string]bool{}
	solo := make([]string, len(hx.PresetNames))
	for i := range solo {
		solo[i] = mkHome()
	}
	r.Par("alone", len(hx.PresetNames), func(i int, g *mon.Rand) {
		use("alone "+hx.PresetNames[i], solo[i], mkCalls(g, hx.PresetNames[i]))
	})
	all := map[string]string{}
	for i, coin := range hx.PresetNames {
		own[coin] = map[string]bool{}
		for _, p := range tree(solo[i]) {
			own[coin][p] = true
			if filepath.Dir(p) != ".powcache" {
				r.Violate("a preset writes outside ~/.powcache", map[string]any{"preset": coin}, p)
				continue
			}
			r.Count("files_under_powcache", 1)
			if o, dup := all[p]; dup {
				r.Violate("two presets use the same file", map[string]any{"presets": []string{o, coin}}, p)
			}
			all[p] = coin
		}
		if len(own[coin]) == 0 {
			r.Violate("a preset does not store its caches under ~/.powcache", map[string]any{"preset": coin}, fmt.Sprint(tree(solo[i])))
		}
		os.RemoveAll(solo[i])
	}
	for k := 0; k < r.N(2, 8); k++ {
		g := r.Rand(fmt.Sprintf("together#%d", k))
		h := mkHome()
		for run := 0; run < 2; run++ {
			var cs []call
			for _, p := range g.Perm(len(hx.PresetNames)) {
				cs = append(cs, mkCalls(g, hx.PresetNames[p])...)
			}
			if run == 1 { // interleaved
				for i, p := range g.Perm(len(cs)) {
					cs[i], cs[p] = cs[p], cs[i]
				}
			}
			if !use(fmt.Sprintf("together %d.%d", k, run), h, cs) {
				break
			}
			got := map[string]bool{}
			for _, p := range tree(h) {
				got[p] = true
				if all[p] == "" {
					r.Violate("presets sharing a directory leave unknown files", nil, p)
				}
			}
			for p, c := range all {
				if !got[p] {
					r.Violate("a preset's file is missing when presets share a directory", map[string]any{"preset": c}, p)
				}
			}
			r.Count("shared_runs", 1)
		}
		os.RemoveAll(h)
	}
	r.Require("preset_results", 60)
	r.Require("files_under_powcache", 15)
	r.Require("shared_runs", 2)
	r.Finish()
}

// preset is the constructor's client with its own default storage; it is
// never asked to compute in this process.
func preset(coin string) *hx.Inst {
	in := &hx.Inst{}
	switch coin {
	case "ETH":
		in.Client = ethash.NewEthereum()
	case "ETC":
		in.Client = ethash.NewEthereumClassic()
	case "RVN":
		in.Client = kawpow.NewRavencoin()
	case "FIRO":
		in.Client = firopow.NewFiro()
	case "CFX":
		in.Client = octopus.NewConflux()
	}
	return in
}
