//go:build go1.24

package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sencha-dev/powkit/autolykos2"
	"github.com/sencha-dev/powkit/beamhashiii"
	"github.com/sencha-dev/powkit/cuckoo"
	"github.com/sencha-dev/powkit/eaglesong"
	"github.com/sencha-dev/powkit/equihash"
	"github.com/sencha-dev/powkit/heavyhash"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// job is one call with its known sequential answer.
type job struct {
	name string
	call func() string
	want string
}

func main() {
	r := mon.Start("C17", "worlds of 2 to 4 DAG clients (each algorithm, in memory and on disk, some sharing a directory, CachesCount 1..3, several clients of one configuration) and the cacheless algorithms, hammered by 4 to 32 goroutines with a schedule of heights that keeps crossing epochs, under the race detector with the garbage collector running; every answer compared with the sequential specification; distinct by (world, call)")
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
				time.Sleep(2 * time.Millisecond)
			}
		}
	}()
	worlds := r.N(60, 900)
	for i := 0; i < worlds && r.Violations() == 0; i++ {
		world(r, i)
	}
	close(stop)
	r.Require("epoch_switches", 300)
	r.Require("calls", 5000)
	r.Require("dag_calls_overlapping", 500)
	r.Finish()
}

func world(r *mon.R, i int) {
	g := r.Rand(fmt.Sprintf("world#%d", i))
	runtime.GOMAXPROCS([]int{8, 8, 4, 2, 16}[i%5])
	defer runtime.GOMAXPROCS(8)
	shared := hx.Tmp("world")
	defer os.RemoveAll(shared)
	var memo ref.Memo
	var jobs [][]job // per epoch-phase lists are built per client
	nc := g.In(2, 4)
	desc := []string{}
	for c := 0; c < nc; c++ {
		a := hx.Algo(g.N(4))
		s := hx.SmallSpec(g, a)
		s.Parents = 2
		s.Rounds = g.N(3)
		dir := ""
		switch g.N(3) {
		case 0:
			dir = shared
		case 1:
			dir = hx.Tmp("own")
			defer os.RemoveAll(dir)
		}
		count := g.In(1, 3)
		name := fmt.Sprintf("T%d", c)
		cfg := hx.Cfg(s, name, dir, count)
		clients := []*hx.Inst{hx.New(a, s, cfg)}
		if g.N(3) == 0 { // a second client of the same configuration and directory
			clients = append(clients, hx.New(a, s, cfg))
		}
		desc = append(desc, fmt.Sprintf("%s dir=%v count=%d clients=%d", hx.AlgoName[a], dir != "", count, len(clients)))
		var l []job
		epochs := g.In(2, 6)
		for k := 0; k < 16; k++ {
			hash, h, n := hx.DagHash(g, a), uint64(g.N(epochs))*s.Epoch+uint64(g.N(int(s.Epoch))), g.U64()
			m, d := hx.Expect(a, s, &memo, hash, h, n, &ref.ProgStats{}, &ref.OctStats{})
			in := clients[k%len(clients)]
			l = append(l, job{fmt.Sprintf("%s height %d hash %x nonce %d", hx.AlgoName[a], h, hash, n), func() string {
				end := mon.Watch("Compute")
				m, d, err := in.Compute(hash, h, n)
				end()
				return fmt.Sprintf("%x %x %v", m, d, err)
			}, fmt.Sprintf("%x %x %v", m, d, nil)})
		}
		jobs = append(jobs, l)
	}
	jobs = append(jobs, static(g))
	threads := []int{4, 8, 16, 32}[g.N(4)]
	per := r.Q(10, 24)
	var inflight, maxIn int32
	var wg sync.WaitGroup
	var gate sync.WaitGroup
	gate.Add(1)
	for t := 0; t < threads; t++ {
		gg := r.Rand(fmt.Sprintf("world#%d/%d", i, t))
		wg.Add(1)
		go func() {
			defer wg.Done()
			gate.Wait()
			for k := 0; k < per; k++ {
				l := jobs[gg.N(len(jobs))]
				dagCall := &l[0] != &jobs[len(jobs)-1][0]
				if dagCall {
					n := atomic.AddInt32(&inflight, 1)
					if n > 1 {
						r.Count("dag_calls_overlapping", 1)
					}
					for {
						o := atomic.LoadInt32(&maxIn)
						if n <= o || atomic.CompareAndSwapInt32(&maxIn, o, n) {
							break
						}
					}
				}
				j := l[gg.N(len(l))]
				cs := map[string]any{"world": i, "clients": desc, "threads": threads, "call": j.name}
				var got string
				if r.Call("concurrent call", cs, func() { got = j.call() }) && got != j.want {
					r.Violate("a concurrent call did not return its sequential result", cs, "got "+got+" want "+j.want)
				}
				if dagCall {
					atomic.AddInt32(&inflight, -1)
					r.Count("epoch_switches", 1)
				}
				r.Count("calls", 1)
				r.Eval(true, i, j.name)
				switch gg.N(6) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(gg.N(300)) * time.Microsecond)
				}
			}
		}()
	}
	gate.Done()
	wg.Wait()
	r.Max("max_dag_calls_in_flight", int64(maxIn))
	r.Sample("world", map[string]any{"clients": desc, "threads": threads})
	hx.QuiesceRepo()
}

var (
	autoC  = autolykos2.NewErgo()
	beamC  = beamhashiii.NewBeam()
	aeC    = cuckoo.NewAeternity()
	ctxC   = cuckoo.NewCortex()
	ckbC   = eaglesong.NewNervos()
	kasC   = heavyhash.NewKaspa()
	equis  = map[string]*equihash.Client{"ZEC": equihash.NewZCash(), "BTG": equihash.NewBitcoinGold(), "FLUX": equihash.NewFlux()}
	corpus = map[string][][]string{}
)

// static makes calls of the algorithms without epochs, on shared clients.
func static(g *mon.Rand) (l []job) {
	str := func(b []byte, err error) string { return fmt.Sprintf("%x %v", b, err) }
	for k := 0; k < 3; k++ {
		h, t, n := g.Bytes(32), uint64(g.N(1<<23)), g.U64()
		l = append(l, job{"autolykos2", func() string { return str(autoC.Compute(h, t, n)) }, str(ref.Autolykos2(h, t, n), nil)})
		l = append(l, job{"heavyhash", func() string { return str(kasC.Compute(h, int64(t), n)) }, func() string { d, _ := ref.HeavyHash(h, int64(t), n); return str(d, nil) }()})
		in := g.Bytes(g.N(300))
		l = append(l, job{"eaglesong", func() string { return fmt.Sprintf("%x", ckbC.Compute(in)) }, fmt.Sprintf("%x", ref.Eaglesong(in))})
	}
	for coin, c := range equis {
		if corpus[coin] == nil {
			corpus[coin] = hx.Corpus("equihash*.txt", coin)
		}
		if ls := corpus[coin]; len(ls) > 0 && coin != "ZEC" || g.N(4) == 0 && len(ls) > 0 {
			x := ls[g.N(len(ls))]
			header, sol := hx.Unhex(x[1]), hx.Unhex(x[2])
			p := map[string]ref.Equi{"ZEC": {N: 200, K: 9, Personal: "ZcashPoW"}, "BTG": {N: 144, K: 5, Personal: "BgoldPoW"}, "FLUX": {N: 125, K: 4, Personal: "ZelProof", Twist: true}}[coin]
			if g.Bool() {
				sol[g.N(len(sol))] ^= 4
			}
			ok := p.Check(header, sol).Valid()
			l = append(l, job{"equihash " + coin, func() string { b, _ := c.Verify(header, sol); return fmt.Sprint(b) }, fmt.Sprint(ok)})
		}
	}
	if corpus["BEAM"] == nil {
		corpus["BEAM"] = hx.Corpus("equihash_kats.txt", "BEAM")
		corpus["AE"] = hx.Corpus("cuckoo.txt", "AE")
		corpus["CTXC"] = hx.Corpus("cuckoo.txt", "CTXC")
	}
	if ls := corpus["BEAM"]; len(ls) > 0 {
		x := ls[g.N(len(ls))]
		header, sol := hx.Unhex(x[1]), hx.Unhex(x[2])
		if g.Bool() {
			sol[g.N(len(sol))] ^= 4
		}
		ok := ref.BeamCheck(header, sol).Valid()
		l = append(l, job{"beam", func() string { b, _ := beamC.Verify(header, sol); return fmt.Sprint(b) }, fmt.Sprint(ok)})
	}
	for _, x := range []struct {
		tag string
		c   *cuckoo.Client
	}{{"AE", aeC}, {"CTXC", ctxC}} {
		ls := corpus[x.tag]
		if len(ls) == 0 {
			continue
		}
		e := ls[g.N(len(ls))]
		header, edges, ok := hx.Unhex(e[1]), hx.Edges(e[2]), true
		if g.Bool() {
			k := g.N(len(edges) - 1)
			edges[k], edges[k+1] = edges[k+1], edges[k]
			ok = false
		}
		l = append(l, job{"cuckoo " + x.tag, func() string { b, _ := x.c.Verify(header, edges); return fmt.Sprint(b) }, fmt.Sprint(ok)})
	}
	return
}
