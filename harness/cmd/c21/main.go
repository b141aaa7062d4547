//go:build go1.24

package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

func prepare(g *mon.Rand, m *ref.Memo, a hx.Algo, dir string, big bool) (hx.Job, *hx.Store) {
	s := hx.SmallSpec(g, a)
	if big {
		s.CacheInit = 128 * uint64(g.In(1000, 6000))
		s.Rounds = 3
	}
	st := hx.NewStore(m, s, "T", 7, 6)
	es := []uint64{uint64(g.N(3))}
	for len(es) < 3 {
		es = append(es, uint64(g.N(4)))
	}
	l1 := s.L1Words > 0 && g.Bool()
	switch g.N(6) { // something is there already
	case 0:
		st.Keep(dir, es[0], l1)
	case 1, 2:
		for _, l1 := range st.Kinds() {
			st.Spoil(g, dir, es[0], l1)
		}
		if es[1] != es[0] {
			st.Spoil(g, dir, es[1], l1)
		}
	case 3: // in the way, and visible as such from the start
		b := st.File(es[0], l1)
		hx.Put(dir, st.NameOf(es[0], l1)+".42", b[:g.N(len(b))])
	}
	return hx.Job{Algo: a, Spec: s, Name: "T", Rev: 7, Dir: dir, Count: g.In(1, 3), Reqs: hx.Reqs(g, s, es...)}, st
}

// after judges the directory a killed process left, and a restart over it.
func after(r *mon.R, m *ref.Memo, st *hx.Store, j hx.Job, cs map[string]any) {
	bad, strays := st.Audit(j.Dir, nil)
	r.Count("directories_audited", 1)
	r.Count("unusable_dumps_there_before", int64(st.Spoilt))
	for _, b := range bad {
		r.Violate("a killed process left an incomplete file under a final name", cs, b)
	}
	if len(strays) > 0 {
		r.Count("left_only_temporaries", 1)
	}
	if len(hx.List(j.Dir)) > len(strays) {
		r.Count("left_final_files", 1)
	}
	res := hx.StartChild(j, nil, nil).Wait()
	if c := res.Crash(); c != "" {
		if res.InCode() {
			r.Violate("Compute crashed after an earlier process was killed", cs, c)
		} else {
			r.Inconclusive("restarted child: %s", c)
		}
		return
	}
	hx.JudgeOuts(r, m, j, res, cs)
	if bad, _ := st.Audit(j.Dir, nil); len(bad) > 0 {
		r.Violate("the restarted process left an incomplete file", cs, strings.Join(bad, "; "))
	}
	r.Count("restarts", 1)
}

// snapshots audits the final names again and again while p runs; every look
// is what a crash at that moment would leave behind.
func snapshots(r *mon.R, st *hx.Store, j hx.Job, p *hx.Proc, until time.Duration, cs map[string]any) {
	t0 := time.Now()
	for {
		select {
		case <-p.Done():
			return
		default:
		}
		if until > 0 && time.Since(t0) >= until {
			return
		}
		bad, strays := st.Audit(j.Dir, nil)
		r.Count("snapshots", 1)
		if len(strays) > 0 {
			r.Count("snapshots_mid_generation", 1)
		}
		for _, b := range bad {
			r.Violate("an incomplete file is visible under a final name", cs, b)
		}
		if r.Violations() > 6 {
			return
		}
	}
}

// fault lets the job meet a fault: of the mappings, or of system calls.
func fault(j hx.Job, f string) (hx.Job, []string) {
	if strings.Contains(f, "error=") {
		return j, []string{f}
	}
	j.Fault = f
	return j, nil
}

func main() {
	hx.Child()
	r := mon.Start("C21", "child processes generating caches and L1 files, killed with SIGKILL at every file system call they make on the directory (enumerated from a trace, also on the paths that a failing call leads to), at random moments of longer generations, and repeatedly over one directory, empty or with sound or unusable dumps in it; while they run, also in slow motion (delays injected into the file system calls), the final names are audited continuously, each look being a possible crash point; after each kill the directory is audited and a fresh process computes over it; distinct by (kill point, configuration)")
	hx.Prime()
	algos := []hx.Algo{hx.Eth, hx.Kaw}
	if hx.StraceWorks() {
		type combo struct {
			seed string
			w    int
			s    hx.Site
		}
		var combos []combo
		for w := 0; w < r.N(8, 40); w++ {
			g := r.Rand(fmt.Sprintf("kill#%d", w))
			dir := hx.Tmp("tr")
			var m ref.Memo
			j, _ := prepare(g, &m, algos[w%2], dir, false)
			sites, res := hx.Sites(j)
			os.RemoveAll(dir)
			if !res.Done {
				r.Inconclusive("the traced dry run did not finish: %s", res.Crash())
				continue
			}
			for _, s := range sites {
				combos = append(combos, combo{fmt.Sprintf("kill#%d", w), w, s})
			}
		}
		r.Count("call_sites", int64(len(combos)))
		r.Par("site", len(combos), func(i int, _ *mon.Rand) {
			c := combos[i]
			dir := hx.Tmp("kill")
			defer os.RemoveAll(dir)
			var m ref.Memo
			j, st := prepare(r.Rand(c.seed), &m, algos[c.w%2], dir, false)
			cs := map[string]any{"killed_at": c.s.Sys, "when": c.s.When, "algo": hx.AlgoName[j.Algo], "spec": fmt.Sprintf("%+v", j.Spec), "world": c.w}
			end := r.Op("child to be killed")
			res, _, _ := hx.Inject(j, c.s, "signal=SIGKILL", false)
			end()
			r.Eval(res.Signal == syscall.SIGKILL, "site", c.seed, c.s.Sys, c.s.When)
			if res.Signal == syscall.SIGKILL {
				r.Count("killed_at_"+c.s.Sys, 1)
				r.Count("killed_at_system_calls", 1)
				r.Sample("site", cs)
			}
			after(r, &m, st, j, cs)
		})
		r.Require("killed_at_system_calls", 150)
		// killed on the path a fault leads to
		faults := []string{
			"rename,renameat,renameat2:error=EXDEV", "unlink,unlinkat,rmdir:error=EBUSY",
			"ftruncate,truncate,fallocate:error=EOPNOTSUPP", "fsync,fdatasync,msync:error=EIO",
			"link,linkat,symlinkat,copy_file_range,sendfile:error=EPERM", "maprw:all", "mapro:all", "unmap:all",
		}
		type second struct {
			combo
			first string
		}
		var under []second
		per := r.N(16, 200)
		for w := 0; w < len(faults)*r.N(2, 8); w++ {
			first := faults[w%len(faults)]
			seed := fmt.Sprintf("under#%d", w)
			dir := hx.Tmp("tr")
			var m ref.Memo
			j, _ := prepare(r.Rand(seed), &m, algos[w/len(faults)%2], dir, false)
			k, in := fault(j, first)
			sites, _ := hx.Sites(k, in...)
			os.RemoveAll(dir)
			n := 0
			for _, k := range r.Rand(seed + " sites").Perm(len(sites)) {
				s := sites[k]
				if s.Sys == "mmap" || s.Sys == "munmap" || n == per || strings.Contains(","+strings.SplitN(first, ":", 2)[0]+",", ","+s.Sys+",") {
					continue
				}
				n++
				under = append(under, second{combo{seed, w / len(faults), s}, first})
			}
		}
		r.Par("under", len(under), func(i int, _ *mon.Rand) {
			c := under[i]
			dir := hx.Tmp("under")
			defer os.RemoveAll(dir)
			var m ref.Memo
			j, st := prepare(r.Rand(c.seed), &m, algos[c.w%2], dir, false)
			cs := map[string]any{"killed_at": c.s.Sys, "when": c.s.When, "fault": c.first, "algo": hx.AlgoName[j.Algo], "spec": fmt.Sprintf("%+v", j.Spec)}
			end := r.Op("child to be killed after a fault")
			k, in := fault(j, c.first)
			res, _, _ := hx.Inject(k, c.s, "signal=SIGKILL", false, in...)
			end()
			r.Eval(res.Signal == syscall.SIGKILL, "under", c.first, c.seed, c.s.Sys, c.s.When)
			if res.Signal == syscall.SIGKILL {
				r.Count("killed_after_a_fault", 1)
				r.Sample("under", cs)
			}
			after(r, &m, st, j, cs)
		})
		r.Require("killed_after_a_fault", 60)
		// slow motion
		r.Par("slow", r.N(16, 120), func(i int, g *mon.Rand) {
			dir := hx.Tmp("slow")
			defer os.RemoveAll(dir)
			var m ref.Memo
			j, st := prepare(g, &m, algos[i%2], dir, g.Bool())
			j.Procs = 1
			cs := map[string]any{"slow_motion": i, "algo": hx.AlgoName[j.Algo]}
			set := "openat,open,creat,ftruncate,fallocate,renameat,rename,renameat2,unlinkat,close,munmap,msync,write,pwrite64,linkat,link"
			p := hx.StartChild(j, []string{"strace", "-f", "-o", "/dev/null", "-e", "trace=" + set, "-e", "inject=" + set + ":delay_exit=" + fmt.Sprint(g.In(1000, 6000))}, nil)
			snapshots(r, st, j, p, 0, cs)
			res := p.Wait()
			if c := res.Crash(); c != "" && res.InCode() {
				r.Violate("Compute crashed", cs, c)
			}
			hx.JudgeOuts(r, &m, j, res, cs)
			r.Eval(true, "slow", i)
			r.Count("slow_motion_runs", 1)
		})
		r.Require("slow_motion_runs", 10)
	} else {
		r.Count("strace_unavailable", 1)
	}
	// kills at random moments, several in a row over one directory
	r.Par("timed", r.N(120, 2500), func(i int, g *mon.Rand) {
		dir := hx.Tmp("timed")
		defer os.RemoveAll(dir)
		var m ref.Memo
		j, st := prepare(g, &m, algos[i%2], dir, true)
		var delays []string
		cs := map[string]any{"timed": i, "algo": hx.AlgoName[j.Algo], "spec": fmt.Sprintf("%+v", j.Spec)}
		killed := 0
		for k := g.In(1, 3); k > 0; k-- {
			d := time.Duration(g.N(90000)) * time.Microsecond
			delays = append(delays, d.String())
			cs["delays"] = delays
			p := hx.StartChild(j, nil, nil)
			// start the clock when the generation starts
			for t := 0; t < 200 && len(hx.List(dir)) == 0; t++ {
				time.Sleep(time.Millisecond)
			}
			snapshots(r, st, j, p, d, cs)
			p.Kill()
			if p.Wait().Signal == syscall.SIGKILL {
				killed++
			}
			if _, strays := st.Audit(dir, nil); len(strays) > 0 {
				r.Count("killed_mid_generation", 1)
			}
		}
		r.Eval(killed > 0, "timed", i, fmt.Sprint(delays))
		r.Count("timed_kills", int64(killed))
		r.Sample("timed", cs)
		after(r, &m, st, j, cs)
	})
	r.Require("timed_kills", 40)
	r.Require("killed_mid_generation", 10)
	r.Require("snapshots_mid_generation", 50)
	r.Require("unusable_dumps_there_before", 100)
	r.Finish()
}
