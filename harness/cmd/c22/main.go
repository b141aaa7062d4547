//go:build go1.24

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// judge decides one faulty run. cleanupBroken: the removal itself was made to
// fail, so what it should have removed may stay.
func judge(r *mon.R, m *ref.Memo, st *hx.Store, j hx.Job, res *hx.Res, dir string, cleanupBroken bool, cs map[string]any) {
	if c := res.Crash(); c != "" {
		if res.InCode() {
			r.Violate("Compute crashed on a storage failure", cs, c)
		} else {
			r.Count("discarded_harness_failures", 1)
			r.Sample("discarded", map[string]any{"case": cs, "why": c[:min(len(c), 300)]})
		}
		return
	}
	if !res.Done || len(res.Outs) != len(j.Reqs) {
		r.Count("discarded_harness_failures", 1)
		return
	}
	hx.JudgeOuts(r, m, j, res, cs)
	bad, strays := st.Audit(dir, nil)
	for _, b := range bad {
		r.Violate("a storage failure left an incomplete file under a final name", cs, b)
	}
	if len(strays) > 0 && !cleanupBroken {
		r.Violate("a failed attempt left a partial file behind", cs, strings.Join(strays, ", "))
	}
	r.Count("directories_audited", 1)
	r.Count("unusable_dumps_there_before", int64(st.Spoilt))
}

func job(g *mon.Rand, m *ref.Memo, a hx.Algo, dir string) (hx.Job, *hx.Store) {
	s := hx.SmallSpec(g, a)
	st := hx.NewStore(m, s, "T", 7, 6)
	es := []uint64{uint64(g.N(3))}
	for len(es) < 3 {
		es = append(es, uint64(g.N(5)))
	}
	for _, e := range es { // some of what is needed is there, or seems to be
		if i, err := os.Stat(dir); err != nil || !i.IsDir() {
			break
		}
		for _, l1 := range st.Kinds() {
			if st.Before[st.NameOf(e, l1)] != nil {
				continue
			}
			switch g.N(6) {
			case 0:
				st.Keep(dir, e, l1)
			case 1, 2:
				st.Spoil(g, dir, e, l1)
			}
		}
	}
	return hx.Job{Algo: a, Spec: s, Name: "T", Rev: 7, Dir: dir, Count: g.In(1, 3), Reqs: hx.Reqs(g, s, es...)}, st
}

func main() {
	hx.Child()
	r := mon.Start("C22", "a child process computes over several epochs while storage fails: every file system call it makes on its directory (enumerated from a trace) fails once or persistently, alone or after another failure, with EIO, ENOSPC, EACCES, EMFILE, EROFS or EFBIG; every n-th map, unmap and lock call fails (mmap stand-in); over directories that are empty, missing, or hold sound and unusable dumps; real faults: full tmpfs, file size, descriptor and locked-memory limits, directories that cannot be created or written (as an unprivileged user), a file, a link loop or an over-long path in place of the directory. Monitored: crash, every result, wrong or partial files left. Non-trivial: the fault hit; distinct by fault and configuration")
	hx.Prime()
	algos := []hx.Algo{hx.Eth, hx.Kaw}

	// mapping faults, enumerated
	type mf struct{ plan, key string }
	var plans []mf
	for _, op := range []string{"map", "unmap", "lock"} {
		plans = append(plans, mf{op + ":all", op})
		for n := 1; n <= r.Q(9, 16); n++ {
			plans = append(plans, mf{fmt.Sprintf("%s:%d", op, n), op})
		}
	}
	plans = append(plans, mf{"map:2,unmap:1", "combined"}, mf{"lock:1,unmap:2", "combined"}, mf{"map:3,map:4", "combined"})
	r.Par("mmap", len(plans)*r.N(3, 30), func(i int, g *mon.Rand) {
		pl := plans[i%len(plans)]
		dir := hx.Tmp("mm")
		defer os.RemoveAll(dir)
		var m ref.Memo
		j, st := job(g, &m, algos[g.N(2)], dir)
		j.Fault = pl.plan
		j.Lock = pl.key == "lock" || g.Bool()
		if g.N(3) == 0 { // some epochs' dumps exist already
			for e := uint64(0); e < 3; e++ {
				for _, l1 := range st.Kinds() {
					hx.Put(dir, st.NameOf(e, l1), st.File(e, l1))
				}
			}
		}
		log := hx.Tmp("log") + "/hits"
		cs := map[string]any{"fault": pl.plan, "lock": j.Lock, "algo": hx.AlgoName[j.Algo], "case": i}
		end := r.Op("child with mapping faults")
		res := hx.StartChild(j, []string{"env", "ZZ_MMAP_LOG=" + log}, nil).Wait()
		end()
		b, _ := os.ReadFile(log)
		hit := strings.Count(string(b), "\n")
		r.Count("hits_mmap_"+pl.key, int64(hit))
		r.Eval(hit > 0, "mmap", pl.plan, j.Lock, int(j.Algo), i)
		judge(r, &m, st, j, res, dir, false, cs)
	})
	for _, op := range []string{"map", "unmap", "lock"} {
		if r.Counter("hits_mmap_"+op) == 0 {
			r.Count("mmap_standin_not_reached_"+op, 1) // the code maps by other means
		}
	}

	// system call faults, enumerated from a trace
	if hx.StraceWorks() {
		type combo struct {
			j   hx.Job
			st  *hx.Store
			m   *ref.Memo
			s   hx.Site
			e   string
			p   bool
			top string
		}
		var combos []combo
		sub := []string{"", "/new/dir"} // exists, or has to be created
		errs := []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EFBIG"}
		for w := 0; w < r.N(8, 24); w++ {
			g := r.Rand(fmt.Sprintf("trace#%d", w))
			dir := hx.Tmp("tr")
			m := &ref.Memo{}
			j, st := job(g, m, algos[w%2], dir+sub[w/2%2])
			sites, res := hx.Sites(j)
			os.RemoveAll(dir)
			if !res.Done {
				r.Inconclusive("the traced dry run did not finish: %s", res.Crash())
				continue
			}
			r.Count("call_sites", int64(len(sites)))
			for k, s := range sites {
				for t := 0; t < r.N(2, 6); t++ {
					combos = append(combos, combo{j, st, m, s, errs[(k+t*3+w)%len(errs)], t%2 == 1, dir})
				}
			}
		}
		limit := r.N(1600, 1<<30)
		g := r.Rand("combos")
		if len(combos) > limit {
			perm := g.Perm(len(combos))
			sel := combos[:0:0]
			for _, k := range perm[:limit] {
				sel = append(sel, combos[k])
			}
			combos = sel
		}
		r.Par("strace", len(combos), func(i int, g *mon.Rand) {
			c := combos[i]
			if c.s.Sys == "mmap" || c.s.Sys == "munmap" || c.s.Sys == "close" && c.p || c.s.Sys == "read" && c.p || c.s.Sys == "write" && c.p {
				c.p = false
			}
			dir := hx.Tmp("in")
			defer os.RemoveAll(dir)
			j := c.j
			j.Dir = dir + strings.TrimPrefix(j.Dir, c.top)
			c.st.Again(dir)
			end := r.Op("child with system call faults")
			res, hits, _ := hx.Inject(j, c.s, "error="+c.e, c.p)
			end()
			r.Count("injections_run", 1)
			cs := map[string]any{"syscall": c.s.Sys, "when": c.s.When, "persistent": c.p, "errno": c.e, "algo": hx.AlgoName[j.Algo], "hit": hits[:min(len(hits), 3)]}
			r.Eval(len(hits) > 0, "strace", c.s.Sys, c.s.When, c.e, c.p, i)
			if len(hits) == 0 {
				if res.Crash() == "" && res.Done {
					judge(r, c.m, c.st, j, res, j.Dir, true, cs)
				}
				return
			}
			r.Count("hits_"+c.s.Sys, 1)
			r.Count("injections_hit", 1)
			r.Sample("system call "+c.s.Sys, cs)
			broken := strings.HasPrefix(c.s.Sys, "unlink")
			judge(r, c.m, c.st, j, res, j.Dir, broken, cs)
		})
		r.Require("injections_hit", int64(r.Q(300, 1500)))
		pairs(r, algos)
	} else {
		r.Count("strace_unavailable", 1)
	}

	real(r, algos)
	r.Require("results_checked", 500)
	r.Require("unusable_dumps_there_before", 300)
	r.Finish()
}

// pairs lets two faults work together: the second hits a call of the trace the
// first one leads to, so fall-backs are made to fail as well.
func pairs(r *mon.R, algos []hx.Algo) {
	type combo struct {
		j     hx.Job
		st    *hx.Store
		m     *ref.Memo
		first string
		s     hx.Site
		top   string
	}
	classes := []string{
		"rename,renameat,renameat2:error=EXDEV", "rename,renameat,renameat2:error=EACCES",
		"unlink,unlinkat,rmdir:error=EBUSY", "mkdir,mkdirat:error=EIO",
		"ftruncate,truncate,fallocate:error=EOPNOTSUPP", "fsync,fdatasync,msync:error=EIO",
		"fchmod,fchmodat,flock,fcntl:error=EPERM", "fstat,newfstatat,lstat,stat,statx:error=EIO",
		"link,linkat,symlinkat,copy_file_range,sendfile:error=EPERM",
		"map:all", "maprw:all", "mapro:all", "unmap:all", "lock:all",
	}
	errs := []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EFBIG"}
	n := r.N(32, 120)
	all := make([][]combo, n)
	r.Par("pair traces", n, func(w int, g *mon.Rand) {
		dir := hx.Tmp("pt")
		defer os.RemoveAll(dir)
		m := &ref.Memo{}
		j, st := job(g, m, algos[w%2], dir+[]string{"", "/new/dir"}[w/2%2])
		j.Lock = g.Bool()
		var first string
		if k := w / 2; k < len(classes) {
			first = classes[k]
		} else { // any one call
			sites, _ := hx.Sites(j)
			if len(sites) == 0 {
				return
			}
			s := sites[g.N(len(sites))]
			for s.Sys == "mmap" || s.Sys == "munmap" { // the runtime's own; the stand-in does these
				s = sites[g.N(len(sites))]
			}
			first = fmt.Sprintf("%s:error=%s:when=%d", s.Sys, errs[g.N(len(errs))], s.When)
			os.RemoveAll(dir)
			os.Mkdir(dir, 0755)
			st.Again(dir)
		}
		var in []string
		if strings.Contains(first, "error=") {
			in = []string{first}
		} else {
			j.Fault = first
			j.Lock = j.Lock || first == "lock:all"
		}
		end := r.Op("traced child with " + first)
		sites, res := hx.Sites(j, in...)
		end()
		if res.Done || res.InCode() {
			judge(r, m, st, j, res, j.Dir, strings.Contains(first, "unlink"), map[string]any{"fault": first, "algo": hx.AlgoName[j.Algo]})
		}
		r.Count("pair_call_sites", int64(len(sites)))
		for _, s := range sites {
			if s.Sys != "mmap" && s.Sys != "munmap" && !strings.Contains(","+strings.SplitN(first, ":", 2)[0]+",", ","+s.Sys+",") {
				all[w] = append(all[w], combo{j, st, m, first, s, dir})
			}
		}
	})
	// every first fault gets the same share
	per := r.N(24, 400)
	var combos []combo
	g := r.Rand("pairs")
	for _, c := range all {
		for i, k := range g.Perm(len(c)) {
			if i < per {
				combos = append(combos, c[k])
			}
		}
	}
	r.Par("pairs", len(combos), func(i int, g *mon.Rand) {
		c := combos[i]
		dir := hx.Tmp("pr")
		defer os.RemoveAll(dir)
		j := c.j
		j.Dir = dir + strings.TrimPrefix(j.Dir, c.top)
		c.st.Again(dir)
		var in []string
		if strings.Contains(c.first, "error=") {
			in = []string{c.first}
		}
		e := errs[g.N(len(errs))]
		persistent := g.Bool()
		switch c.s.Sys {
		case "close", "read", "write":
			persistent = false
		}
		end := r.Op("child with two faults")
		res, hits, _ := hx.Inject(j, c.s, "error="+e, persistent, in...)
		end()
		cs := map[string]any{"first": c.first, "syscall": c.s.Sys, "when": c.s.When, "persistent": persistent, "errno": e, "algo": hx.AlgoName[j.Algo], "lock": j.Lock, "hit": hits[:min(len(hits), 3)]}
		r.Eval(len(hits) > 0, "pair", c.first, c.s.Sys, c.s.When, e, persistent, i)
		if len(hits) > 0 {
			r.Count("pairs_hit", 1)
			r.Sample("pair "+c.s.Sys, cs)
		} else if res.Crash() != "" || !res.Done {
			return // the second fault hit the harness
		}
		judge(r, c.m, c.st, j, res, j.Dir, strings.HasPrefix(c.s.Sys, "unlink") || strings.Contains(c.first, "unlink"), cs)
	})
	r.Require("pairs_hit", int64(r.Q(200, 1500)))
}

// real faults of the environment
func real(r *mon.R, algos []hx.Algo) {
	// a process of an unprivileged user must be able to run the harness
	self, _ := os.Executable()
	nobody := &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}}
	root := os.Getenv("VERIF_SCRATCH")
	for p := root; p != "/" && strings.HasPrefix(p, os.TempDir()+"/"); p = filepath.Dir(p) {
		os.Chmod(p, 0755)
	}
	os.Chmod(self, 0755)
	// the tmpfs case needs a namespace of our own
	ns := exec.Command("unshare", "-Ur", "-m", "sh", "-c", "mount -t tmpfs -o size=64k none /mnt").Run() == nil
	if !ns {
		r.Count("private_tmpfs_unavailable", 1)
	}
	kinds := []string{"full tmpfs", "file size limit", "no descriptors", "locked memory", "under a file", "is a file", "not creatable", "not writable", "too long", "link loop", "dangling link", "/dev/null", "full tmpfs", "file size limit"}
	r.Par("real", len(kinds)*r.N(10, 150), func(i int, g *mon.Rand) {
		kind := kinds[i%len(kinds)]
		if kind == "full tmpfs" && !ns {
			return
		}
		top := hx.Tmp("real")
		defer os.RemoveAll(top)
		os.Chmod(top, 0755)
		dir := filepath.Join(top, "d")
		var m ref.Memo
		j, st := job(g, &m, algos[g.N(2)], dir)
		var wrap []string
		var attr *syscall.SysProcAttr
		audit := dir
		cs := map[string]any{"fault": kind, "algo": hx.AlgoName[j.Algo], "case": i}
		switch kind {
		case "full tmpfs":
			os.Mkdir(dir, 0755)
			kb := []int{4, 8, 12, 16, 20, 24, 28, 32, 40, 48, 64}[g.N(11)]
			cs["tmpfs_kb"] = kb
			out := filepath.Join(top, "out")
			os.Mkdir(out, 0777)
			audit = out
			// what is left in the file system is copied out for the audit
			wrap = []string{"unshare", "-Ur", "-m", "sh", "-c", fmt.Sprintf(`mount -t tmpfs -o size=%dk none %s || exit 99; "$0"; s=$?; cp -a %s/. %s/; exit $s`, kb, dir, dir, out)}
		case "file size limit":
			j.FSize = int64([]int{1, 7, 8, 9, 4096, g.In(1, 20000), 16384, 16391}[g.N(8)])
			cs["bytes"] = j.FSize
		case "no descriptors":
			j.Spare = g.In(1, 3)
			cs["spare"] = j.Spare
		case "locked memory":
			j.Lock, j.Mlock, attr = true, 1, nobody
			os.Mkdir(dir, 0777)
			os.Chmod(dir, 0777)
		case "under a file":
			hx.Put(top, "f", nil)
			j.Dir = filepath.Join(top, "f", "d")
		case "is a file":
			hx.Put(top, "d", []byte("x"))
		case "not creatable":
			attr = nobody
		case "not writable":
			os.Mkdir(dir, 0555)
			attr = nobody
			if g.Bool() { // correct dumps for some epochs can still be used
				hx.Put(dir, st.NameOf(0, false), st.File(0, false))
				hx.Put(dir, st.NameOf(1, false), st.File(1, false)[:20])
			}
		case "too long":
			j.Dir = filepath.Join(dir, strings.Repeat("x", 300))
		case "link loop":
			os.Symlink("d", dir)
		case "dangling link":
			os.Symlink(filepath.Join(top, "none"), dir)
		case "/dev/null":
			j.Dir = "/dev/null"
		}
		end := r.Op("child with " + kind)
		res := hx.StartChild(j, wrap, attr).Wait()
		end()
		r.Eval(true, "real", kind, i)
		if kind == "full tmpfs" && res.Exit > 128 && res.Signal == 0 {
			res.Signal = syscall.Signal(res.Exit - 128)
		}
		if kind == "not writable" {
			os.Chmod(dir, 0755)
			if st.Bad(dir, 1, false) != "" {
				os.Remove(filepath.Join(dir, st.NameOf(1, false)))
			}
		}
		before := r.Counter("directories_audited")
		judge(r, &m, st, j, res, audit, false, cs)
		if r.Counter("directories_audited") > before {
			r.Count("real "+kind, 1)
			r.Sample("real", cs)
		}
	})
	for _, k := range kinds {
		if k != "full tmpfs" || ns {
			r.Require("real "+k, 3)
		}
	}
}
