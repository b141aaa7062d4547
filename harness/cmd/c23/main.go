//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

type coin struct {
	name  string
	rev   int
	count int
	s     ref.DagSpec
	memo  *ref.Memo
	st    *hx.Store
	in    *hx.Inst
}

func main() {
	r := mon.Start("C23", "histories of epoch requests (ascending, jumping ahead by up to 40, sometimes hundreds of epochs, going back, restarting with a fresh client) by several coins and revisions with confusable names sharing one directory, over pre-existing dumps of older, newer and foreign epochs, unrelated files and subdirectories. After every request and its background work the directory is compared entry by entry (inode, times, size, content) with its state before, and with the kernel's event log: what was published, what deleted; distinct by (directory, history)")
	base := runtime.NumGoroutine()
	names := []string{"T", "TT", "T-R7", "l1", "cache", "T2", "ETH", "ETC", "T*", "[TE]", "T?", "T%d", "T T", "Tü"}
	for i := 0; i < r.N(130, 1500) && r.Violations() < 4; i++ {
		g := r.Rand(fmt.Sprintf("prune#%d", i))
		dir := hx.OddTmp(g, "prune")
		max, far := uint64(64), 40
		if i%16 == 7 { // long windows
			max, far = 500, 450
			r.Count("long_histories", 1)
		}
		var coins []*coin
		perm := g.Perm(len(names))
		for k := 0; k < g.In(1, 3); k++ {
			c := &coin{name: names[perm[k]], rev: []int{7, 1, 70, 77}[g.N(4)], count: g.In(1, 4), memo: &ref.Memo{}}
			if k > 0 && g.N(3) == 0 { // another revision of the first coin
				c.name, c.rev = coins[0].name, coins[0].rev*10+g.N(10)
			}
			dup := false
			for _, o := range coins {
				dup = dup || o.name == c.name && o.rev == c.rev
			}
			if dup {
				continue
			}
			c.s = hx.SmallSpec(g, []hx.Algo{hx.Eth, hx.Kaw}[g.N(2)])
			c.s.CacheInit, c.s.CacheGrowth, c.s.Rounds = 64*40, 0, 0
			c.st = hx.NewStore(c.memo, c.s, c.name, c.rev, max)
			coins = append(coins, c)
		}
		open := func(c *coin) {
			a := hx.Eth
			if c.s.L1Words > 0 {
				a = hx.Kaw
			}
			cf := hx.Cfg(c.s, c.name, hx.Spell(g, dir), c.count)
			cf.Revision = c.rev
			c.in = hx.New(a, c.s, cf)
		}
		var setup []string
		for _, c := range coins {
			open(c)
			for n := g.N(8); n > 0; n-- {
				e := uint64(g.N(int(max) - 14))
				for _, l1 := range c.st.Kinds() {
					if g.N(4) > 0 {
						hx.Put(dir, c.st.NameOf(e, l1), c.st.File(e, l1))
						setup = append(setup, c.st.NameOf(e, l1))
					}
				}
			}
		}
		if i%10 == 3 { // a crowded directory
			for n := g.In(200, 1500); n > 0; n-- {
				hx.Put(dir, fmt.Sprintf("%s-%x", []string{"cache", "l1", "a", "z"}[g.N(4)], g.U64()), nil)
			}
			r.Count("crowded_directories", 1)
		}
		// things that are nobody's business
		c0 := coins[0]
		stale := c0.st.NameOf(0, false)
		for _, n := range []string{"x", stale[:len(stale)-1], stale + "0", strings.ToUpper(stale), "cache-" + c0.name, "l1-" + c0.name + "-R" + fmt.Sprint(c0.rev), strings.Replace(stale, "cache-", "cache-Z", 1), strings.Replace(stale, "-R", "-R1", 1), ".hidden", fmt.Sprintf("cache-%s-R%d-%x", c0.name, c0.rev, []byte("notaseed"))} {
			if _, _, mine := c0.st.What(n); !mine && g.Bool() {
				hx.Put(dir, n, g.Bytes(5))
			}
		}
		if g.Bool() {
			os.MkdirAll(filepath.Join(dir, "sub"), 0755)
			hx.Put(filepath.Join(dir, "sub"), stale, g.Bytes(5))
		}
		w, err := hx.NewWatch(dir)
		if err != nil {
			r.Inconclusive("inotify: %v", err)
			break
		}
		var hist []string
		cur := map[*coin]uint64{}
		pruned := 0
		for k := 0; k < r.N(9, 16) && r.Violations() < 4; k++ {
			c := coins[g.N(len(coins))]
			e := cur[c]
			switch g.N(7) {
			case 0, 1:
				e++
			case 2:
				e += uint64(g.In(2, 5))
			case 3:
				e += uint64(g.In(5, far))
			case 4:
				e = uint64(g.N(int(e) + 1))
			case 5:
				open(c)
			}
			e = min(e, max-2)
			cur[c] = e
			hist = append(hist, fmt.Sprintf("%s-R%d/%d:%d", c.name, c.rev, c.count, e))
			cs := map[string]any{"case": i, "existing": setup, "dir": filepath.Base(dir), "history(name-rev/count:epoch)": append([]string(nil), hist...), "spec": fmt.Sprintf("%+v", c.s)}
			before := hx.StatDir(dir)
			w.Drain()
			if !r.Call("GetCache", cs, func() {
				x := c.in.DAG().GetCache(e)
				runtime.KeepAlive(x)
			}) {
				break
			}
			hx.Quiesce(base)
			after := hx.StatDir(dir)
			pub := map[string]bool{}
			var log []string
			for _, ev := range w.Drain() {
				log = append(log, ev.Op+" "+ev.Name)
				if _, _, ok := c.st.What(ev.Name); ok && (ev.Op == "moved_to" || ev.Op == "create") {
					pub[ev.Name] = true
				}
			}
			top, whole := int64(-1), []uint64{}
			for n := range pub {
				_, ep, _ := c.st.What(n)
				if int64(ep) > top {
					top = int64(ep)
				}
			}
			for ep := uint64(0); ep <= max; ep++ {
				all := true
				for _, l1 := range c.st.Kinds() {
					all = all && pub[c.st.NameOf(ep, l1)]
				}
				if all {
					whole = append(whole, ep)
				}
			}
			r.Count("epochs_generated", int64(len(whole)))
			detail := "events: " + strings.Join(log, ", ")
			for n, b := range before {
				a, still := after[n]
				if still && a == b || pub[n] {
					if still {
						r.Count("entries_kept", 1)
					}
					continue
				}
				_, ep, mine := c.st.What(n)
				if !still && mine && top >= 0 && int64(ep) <= top-int64(c.count) {
					pruned++
					r.Count("entries_pruned", 1)
					continue
				}
				if still && b.Mode&0170000 == 0040000 && a.Mode == b.Mode && a.Ino == b.Ino {
					continue // a directory
				}
				what := "altered"
				if !still {
					what = "deleted"
				}
				r.Violate("a file that had to be kept was "+what, cs, n+"; "+detail)
			}
			for n := range after {
				_, ep, mine := c.st.What(n)
				if _, old := before[n]; !old && !mine {
					r.Violate("a temporary or unknown file remains", cs, n+"; "+detail)
				}
				if !mine || pub[n] {
					continue
				}
				for _, x := range whole {
					if int64(ep) <= int64(x)-int64(c.count) {
						r.Violate("a stale file was not pruned", cs, fmt.Sprintf("%s (epoch %d) after generating epoch %d, count %d; %s", n, ep, x, c.count, detail))
					}
				}
			}
			for n := range pub {
				if l1, ep, _ := c.st.What(n); c.st.Bad(dir, ep, l1) != "" {
					r.Violate("a published file is wrong", cs, c.st.Bad(dir, ep, l1))
				}
			}
			r.Eval(len(whole) > 0 || pruned > 0, i, k)
		}
		r.Sample("history", map[string]any{"dir": filepath.Base(dir), "history(name-rev/count:epoch)": hist, "existing": setup})
		w.Close()
		os.RemoveAll(dir)
	}
	r.Require("entries_pruned", 150)
	r.Require("entries_kept", 1000)
	r.Require("epochs_generated", 300)
	r.Finish()
}
