//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func main() {
	hx.Child()
	r := mon.Start("C32", "a directory written by one process, then used by a chain of restarts (new clients in this process and new processes; other cache counts, locked mappings, other algorithms' order of epochs), some of the files removed in between. After each restart the files are compared by inode, times, size and content with their state before, the kernel's event log must show no file of a complete epoch created, written, replaced or deleted, exactly the missing file published when one of a pair was missing, the files in use are mapped or read (also by an unprivileged process that may only read them), and the results are the specification's; distinct by (directory, restart)")
	hx.Prime()
	base := runtime.NumGoroutine()
	nobody := hx.Unprivileged()
	for i := 0; i < r.N(90, 1200) && r.Violations() < 4; i++ {
		g := r.Rand(fmt.Sprintf("restart#%d", i))
		a := []hx.Algo{hx.Kaw, hx.Eth, hx.Firo, hx.Oct}[[]int{0, 0, 1, 2, 3}[g.N(5)]]
		s := hx.SmallSpec(g, a)
		var memo ref.Memo
		const max = 7
		st := hx.NewStore(&memo, s, "T", 7, max+2)
		dir := hx.OddTmp(g, "re")
		count := g.In(2, 4)
		job := func(es []uint64) hx.Job {
			return hx.Job{Algo: a, Spec: s, Name: "T", Rev: 7, Dir: dir, As: hx.Spell(g, dir), Count: count, Lock: g.N(4) == 0, Reqs: hx.Reqs(g, s, es...), Procs: g.In(1, 4)}
		}
		top := uint64(g.N(max))
		es := []uint64{top}
		for len(es) < g.In(1, 3) {
			es = append(es, uint64(g.N(int(top)+1)))
		}
		var hist []string
		cs := map[string]any{"algo": hx.AlgoName[a], "spec": fmt.Sprintf("%+v", s), "count": count}
		// loaded: the files of the last requested epoch were there before
		use := func(child bool, j hx.Job, loaded bool, gone string, attr *syscall.SysProcAttr) bool {
			j.Uses = true
			uses := func(used map[string]bool) {
				if !loaded {
					return
				}
				e := j.Reqs[len(j.Reqs)-1].Height / s.Epoch
				for _, l1 := range st.Kinds() {
					if n := st.NameOf(e, l1); n != gone && !used[n] {
						r.Violate("a complete file is not used", cs, fmt.Sprintf("%s is neither mapped nor read while its epoch's cache is in use; unprivileged: %v", st.NameOf(e, l1), attr != nil))
					}
				}
				r.Count("loads_seen", 1)
			}
			hist = append(hist, fmt.Sprintf("child=%v lock=%v count=%d epochs=%v", child, j.Lock, j.Count, func() (o []uint64) {
				for _, q := range j.Reqs {
					o = append(o, q.Height/s.Epoch)
				}
				return
			}()))
			cs["history"] = append([]string(nil), hist...)
			if child {
				res := hx.StartChild(j, nil, attr).Wait()
				if c := res.Crash(); c != "" {
					if res.InCode() {
						r.Violate("a restarted process crashed", cs, c)
					} else {
						r.Inconclusive("child: %s", c)
					}
					return false
				}
				hx.JudgeOuts(r, &memo, j, res, cs)
				if res.Done {
					uses(res.Used)
				}
				return true
			}
			cf := hx.Cfg(s, "T", j.As, j.Count)
			cf.Revision, cf.CachesLockMmap = 7, j.Lock
			used := hx.WatchUses(dir)
			in := hx.New(a, s, cf)
			for _, q := range j.Reqs {
				var m, d []byte
				var err error
				if !r.Call("Compute", cs, func() { m, d, err = in.Compute(q.Hash, q.Height, q.Nonce) }) {
					used()
					return false
				}
				wm, wd := in.Expect(&memo, q.Hash, q.Height, q.Nonce, &ref.ProgStats{}, &ref.OctStats{})
				r.Count("results_checked", 1)
				if !hx.Same(m, d, err, wm, wd) {
					r.Violate("Compute returned a wrong result", cs, fmt.Sprintf("height %d: %x %x %v", q.Height, m, d, err))
				}
			}
			// the words in use come from the files
			c := in.DAG().GetCache(j.Reqs[len(j.Reqs)-1].Height / s.Epoch)
			hx.Quiesce(base)
			uses(used())
			runtime.KeepAlive(c)
			runtime.KeepAlive(in)
			return true
		}
		if !use(g.Bool(), job(es), false, "", nil) {
			continue
		}
		for k := 0; k < r.N(4, 6) && r.Violations() < 4; k++ {
			// the epochs whose files are complete now
			have := map[uint64]bool{}
			var list []uint64
			for e := uint64(0); e <= max+1; e++ {
				all := true
				for _, l1 := range st.Kinds() {
					_, err := os.Stat(filepath.Join(dir, st.NameOf(e, l1)))
					all = all && err == nil
				}
				if all {
					have[e] = true
					list = append(list, e)
				}
			}
			// use only epochs whose successor is there too, so that nothing new is due
			var pick []uint64
			for _, e := range list {
				if have[e+1] {
					pick = append(pick, e)
				}
			}
			if len(pick) == 0 {
				r.Count("no_pair_of_epochs", 1)
				break
			}
			var es []uint64
			for n := g.In(1, 4); n > 0; n-- {
				es = append(es, pick[g.N(len(pick))])
			}
			missing, missL1 := uint64(0), false
			gone := ""
			if s.L1Words > 0 && g.N(3) == 0 {
				missing, missL1 = es[g.N(len(es))], g.Bool()
				gone = st.NameOf(missing, missL1)
				os.Remove(filepath.Join(dir, gone))
				hist = append(hist, "removed "+gone)
			}
			count = g.In(2, 4)
			if gone != "" {
				count = max + 2 // generating prunes: keep everything
			}
			// sometimes the files belong to somebody else and may only be read
			child, attr := g.Bool(), (*syscall.SysProcAttr)(nil)
			j := job(es)
			if gone == "" && g.N(4) == 0 && nobody != nil {
				child, attr, j.Lock = true, nobody, false
				modes(dir, 0444, 0555)
				r.Count("read_only_restarts", 1)
			}
			before := hx.StatDir(dir)
			w, err := hx.NewWatch(dir)
			if err != nil {
				r.Inconclusive("inotify: %v", err)
				break
			}
			if !use(child, j, true, gone, attr) {
				w.Close()
				break
			}
			hx.Quiesce(base)
			evs := w.Drain()
			w.Close()
			after := hx.StatDir(dir)
			if attr != nil {
				modes(dir, 0644, 0755)
			}
			var log []string
			pub := 0
			for _, ev := range evs {
				log = append(log, ev.Op+" "+ev.Name)
				if ev.Name == gone && ev.Op == "moved_to" {
					pub++
				}
				if gone == "" || !strings.HasPrefix(ev.Name, gone) {
					r.Violate("a restart touched the directory although every file was there", cs, ev.Op+" "+ev.Name+" (missing: "+gone+")")
				}
			}
			for n, b := range before {
				if x, ok := after[n]; !ok || x != b {
					r.Violate("a restart rewrote or deleted a complete file", cs, fmt.Sprintf("%s: %+v then %+v; events %v", n, b, x, log))
				} else {
					r.Count("files_reused", 1)
				}
			}
			if gone != "" {
				r.Count("one_file_missing", 1)
				if pub != 1 {
					r.Violate("a missing file was not written again exactly once", cs, fmt.Sprintf("%s: %d times; events %v", gone, pub, log))
				}
			}
			if bad, strays := st.Audit(dir, nil); len(bad)+len(strays) > 0 {
				r.Violate("a restart left a wrong or unknown file", cs, fmt.Sprint(bad, strays))
			}
			r.Eval(true, i, k)
			r.Count("restarts", 1)
		}
		r.Sample("history", cs)
		os.RemoveAll(dir)
	}
	r.Require("restarts", 200)
	r.Require("files_reused", 600)
	r.Require("one_file_missing", 30)
	r.Require("loads_seen", 200)
	if nobody != nil {
		r.Require("read_only_restarts", 15)
	} else {
		r.Count("no_unprivileged_user", 1)
	}
	r.Finish()
}

func modes(dir string, file, self os.FileMode) {
	list, _ := os.ReadDir(dir)
	for _, e := range list {
		os.Chmod(filepath.Join(dir, e.Name()), file)
	}
	os.Chmod(dir, self)
}
