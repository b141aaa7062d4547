//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

type coin struct {
	a    hx.Algo
	name string
	rev  int
	s    ref.DagSpec
	memo *ref.Memo
	st   *hx.Store
}

type seen struct {
	f    *os.File
	c    *coin
	ep   uint64
	l1   bool
	at   string
	ino  uint64
	kept bool
}

func (s *seen) bad() string {
	if _, err := s.f.Seek(0, 0); err != nil {
		return ""
	}
	b, err := io.ReadAll(s.f)
	if err != nil {
		return err.Error()
	}
	if w := s.c.st.File(s.ep, s.l1); !bytes.Equal(b, w) {
		n := 0
		for n < len(b) && n < len(w) && b[n] == w[n] {
			n++
		}
		return fmt.Sprintf("%s: %d bytes (want %d), differs at byte %d", s.c.st.NameOf(s.ep, s.l1), len(b), len(w), n)
	}
	return ""
}

func main() {
	hx.Child()
	r := mon.Start("C25", "rounds of 2-6 processes released together over one directory, of one to three coins or revisions, generating, loading and pruning the same epochs, with the pseudo-random generator seeded alike in half of the rounds, some killed meanwhile and replaced; every file that appears under a final name is opened by the monitor at once, checked, kept open and checked again when all processes are gone (same inode: it may have been written after publication); every result of every process is compared with the specification; distinct by (round, process)")
	hx.Prime()
	shape := []string{"same coin", "same coin", "coins", "revisions"}
	for i := 0; i < r.N(70, 900) && r.Violations() < 3; i++ {
		g := r.Rand(fmt.Sprintf("round#%d", i))
		dir := hx.Tmp("shared")
		sh := shape[g.N(len(shape))]
		var coins []*coin
		n := 1
		if sh != "same coin" {
			n = g.In(2, 3)
		}
		for k := 0; k < n; k++ {
			c := &coin{a: []hx.Algo{hx.Eth, hx.Kaw}[g.N(2)], name: "T", rev: 7, memo: &ref.Memo{}}
			if sh == "coins" {
				c.name = []string{"T", "TT", "T-R7"}[k]
			} else {
				c.rev = []int{7, 70, 77}[k]
			}
			c.s = hx.SmallSpec(g, c.a)
			c.s.CacheInit = 128 * uint64([]int{20, 200, 1500, 5000}[g.N(4)])
			c.s.CacheGrowth = 128 * uint64(g.N(30))
			c.s.Rounds = g.In(1, 3)
			c.st = hx.NewStore(c.memo, c.s, c.name, c.rev, 9)
			coins = append(coins, c)
		}
		procs := g.In(2, 6)
		same := g.Bool() || i < 6
		kills := g.N(3) == 0
		start := filepath.Join(hx.Tmp("go"), "go")
		cs := map[string]any{"round": i, "shape": sh, "processes": procs, "same_seed": same, "kills": kills}
		var jobs []hx.Job
		for p := 0; p < procs; p++ {
			c := coins[p%len(coins)]
			var es []uint64
			top := uint64(g.N(2))
			for len(es) < g.In(3, 8) {
				switch g.N(4) {
				case 0:
					top++
				case 1:
					top += uint64(g.N(3))
				}
				top = min(top, 8)
				e := top
				if g.N(4) == 0 {
					e = uint64(g.N(int(top) + 1))
				}
				es = append(es, e)
			}
			if g.Bool() && p >= len(coins) { // exactly what another process does
				es = nil
				for _, q := range jobs[p%len(coins)].Reqs {
					es = append(es, q.Height/c.s.Epoch)
				}
			}
			j := hx.Job{Algo: c.a, Spec: c.s, Name: c.name, Rev: c.rev, Dir: dir, Count: g.In(1, 3), Reqs: hx.Reqs(g, c.s, es...), Start: start, Procs: g.In(1, 3)}
			j.Seed = int64(100 + p)
			if same {
				j.Seed = 42
			}
			jobs = append(jobs, j)
		}
		w, err := hx.NewWatch(dir)
		if err != nil {
			r.Inconclusive("inotify: %v", err)
			break
		}
		type run struct {
			j    int
			p    *hx.Proc
			dead bool
			at   time.Duration
		}
		var runs []*run
		for k := range jobs {
			ru := &run{j: k, p: hx.StartChild(jobs[k], nil, nil)}
			if kills && g.Bool() {
				ru.at = time.Duration(g.In(1, 60)) * time.Millisecond
			}
			runs = append(runs, ru)
		}
		time.Sleep(40 * time.Millisecond)
		hx.Put(filepath.Dir(start), "go", nil)
		t0 := time.Now()
		var all []*seen
		look := func() {
			for _, ev := range w.Drain() {
				for _, c := range coins {
					l1, ep, ok := c.st.What(ev.Name)
					if !ok {
						continue
					}
					switch ev.Op {
					case "moved_to", "create", "modify":
						if ev.Op == "modify" {
							r.Violate("a file was written under its final name", cs, ev.Name)
						}
						r.Count("publications", 1)
						f, err := os.Open(filepath.Join(dir, ev.Name))
						if err != nil {
							r.Count("publications_pruned_before_looking", 1)
							continue
						}
						s := &seen{f: f, c: c, ep: ep, l1: l1}
						if fi, err := f.Stat(); err == nil {
							s.ino = fi.Sys().(*syscall.Stat_t).Ino
						}
						if b := s.bad(); b != "" {
							r.Violate("an incomplete file appeared under a final name", cs, b)
						}
						r.Count("publications_checked", 1)
						if len(all) < 600 {
							all = append(all, s)
						} else {
							f.Close()
						}
					}
				}
			}
		}
		end := r.SlowOp(fmt.Sprintf("round of processes %v", cs), 3)
		for busy := true; busy; {
			busy = false
			for k := 0; k < len(runs); k++ {
				ru := runs[k]
				select {
				case <-ru.p.Done():
					if ru.dead && ru.at > 0 { // a killed process is replaced
						ru.at = 0
						runs = append(runs, &run{j: ru.j, p: hx.StartChild(jobs[ru.j], nil, nil)})
						busy = true
					}
				default:
					busy = true
					if ru.at > 0 && !ru.dead && time.Since(t0) > ru.at {
						ru.p.Kill()
						ru.dead = true
						r.Count("processes_killed", 1)
					}
				}
			}
			look()
			time.Sleep(100 * time.Microsecond)
		}
		look()
		end()
		r.Max("longest_round_ms", time.Since(t0).Milliseconds())
		for k, ru := range runs {
			res := ru.p.Wait()
			j := jobs[ru.j]
			c := coins[ru.j%len(coins)]
			if cr := res.Crash(); cr != "" {
				if res.InCode() {
					r.Violate("a process crashed while others used the directory", cs, cr)
				} else {
					r.Inconclusive("child: %s", cr)
				}
				continue
			}
			hx.JudgeOuts(r, c.memo, j, res, cs)
			r.Eval(true, i, k)
			r.Count("processes", 1)
		}
		for _, s := range all {
			if b := s.bad(); b != "" {
				r.Violate("a file was changed after publication", cs, b)
			}
			s.f.Close()
		}
		for _, c := range coins {
			for ep := uint64(0); ep <= 9; ep++ {
				for _, l1 := range c.st.Kinds() {
					if b := c.st.Bad(dir, ep, l1); b != "" {
						r.Violate("an incomplete file is left under a final name", cs, b)
					}
				}
			}
		}
		if same {
			r.Count("rounds_with_equal_seeds", 1)
		}
		r.Sample("round", cs)
		if r.Violations() > 0 && time.Since(t0) > time.Minute {
			break // the next ones would take as long
		}
		w.Close()
		os.RemoveAll(dir)
		os.RemoveAll(filepath.Dir(start))
	}
	r.Require("publications_checked", 400)
	r.Require("results_checked", 800)
	r.Require("rounds_with_equal_seeds", 20)
	r.Require("processes_killed", 10)
	r.Finish()
}
