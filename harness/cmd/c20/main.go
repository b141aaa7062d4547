//go:build go1.24

package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// plant puts one hostile thing under a final name. It returns false if a
// correct file cannot be put in its place by anyone (a directory).
func plant(g *mon.Rand, kind int, dir, name string, good, header []byte, other []byte) (string, bool) {
	p := filepath.Join(dir, name)
	put := func(b []byte) { os.WriteFile(p, b, 0644) }
	cp := func() []byte { return append([]byte(nil), good...) }
	switch kind {
	case 0:
		put(nil)
		return "empty", true
	case 1:
		n := g.In(1, len(header)-1)
		put(good[:n])
		return fmt.Sprintf("%d bytes of header", n), true
	case 2:
		n := g.In(1, 12)
		put(g.Bytes(n))
		return fmt.Sprintf("%d arbitrary bytes", n), true
	case 3:
		put(header)
		return "header only", true
	case 4:
		b := cp()
		k := g.N(len(header))
		b[k] ^= 1 << g.N(8)
		put(b)
		return fmt.Sprintf("header byte %d flipped", k), true
	case 5:
		n := len(header) + g.N(len(good)-len(header))
		put(good[:n])
		return fmt.Sprintf("truncated to %d of %d", n, len(good)), true
	case 6:
		n := []int{1, 2, 3, 4, 64, 128}[g.N(6)]
		put(good[:len(good)-n])
		return fmt.Sprintf("short of %d bytes", n), true
	case 7:
		n := []int{1, 2, 3, 4, 5, 64, 128, 4096, g.In(1, 9000)}[g.N(9)]
		put(append(cp(), g.Bytes(n)...))
		return fmt.Sprintf("%d bytes too long", n), true
	case 8:
		put(make([]byte, len(good)))
		return "zero-filled", true
	case 9:
		os.Mkdir(p, 0755)
		return "directory", false
	case 10:
		os.Mkdir(p, 0755)
		os.WriteFile(filepath.Join(p, "x"), good, 0644)
		return "non-empty directory", false
	case 11:
		os.Symlink(filepath.Join(dir, "nowhere", "file"), p)
		return "dangling link", true
	case 12:
		os.Symlink(name, p)
		return "link to itself", true
	case 13:
		os.Symlink("/dev/null", p)
		return "link to /dev/null", true
	case 14:
		b := cp()
		for i := 0; i+4 <= len(header); i += 4 {
			binary.BigEndian.PutUint32(b[i:], binary.LittleEndian.Uint32(good[i:]))
		}
		put(b)
		return "other byte order header", true
	case 15:
		put(other)
		return fmt.Sprintf("another configuration's dump (%d bytes)", len(other)), true
	case 16:
		f, _ := os.Create(p)
		f.Write(header)
		f.Truncate(int64(len(good)) + 1<<30)
		f.Close()
		return "sparse, 1 GiB too long", true
	case 17:
		put(append(append([]byte(nil), header...), make([]byte, g.N(len(good)-len(header)))...))
		return "header and too few zeroes", true
	case 18:
		put(append(append([]byte(nil), header...), cp()...))
		return "two headers", true
	case 19:
		put(g.Bytes(len(good)))
		return "arbitrary bytes of the right length", true
	}
	return "", true
}

const kinds = 20

func main() {
	hx.Child()
	r := mon.Start("C20", "storage directories with 20 kinds of unusable entries under the cache and L1 names of requested, prepared and other epochs (alone, and in random combinations), leftovers of interrupted runs and unrelated files; a separate process computes over several epochs; monitored: crash, every result against the specification, and afterwards every final-named file of an epoch used; distinct by directory content")
	hx.Prime()
	algos := []hx.Algo{hx.Eth, hx.Kaw, hx.Firo, hx.Oct}
	r.Par("dir", r.N(420, 6000), func(i int, g *mon.Rand) {
		a := algos[g.N(4)]
		s := hx.SmallSpec(g, a)
		var m ref.Memo
		const max = 5
		st := hx.NewStore(&m, s, "T", 7, max)
		s2 := s
		s2.CacheInit += 128 * uint64(g.In(100, 120))
		s2.Rounds += g.N(2)
		var m2 ref.Memo
		dir := hx.OddTmp(g, "hostile")
		defer os.RemoveAll(dir)
		count := g.In(1, 3)
		var plan []string
		stuck := map[string]bool{}
		alone := i < 2*kinds*4
		target := uint64(g.N(3))
		for e := uint64(0); e <= 4; e++ {
			for _, l1 := range st.Kinds() {
				k := g.N(kinds * 3 / 2)
				if alone {
					k = -1
					if e == target && (l1 == (i/kinds%2 == 1) || s.L1Words == 0) {
						k = i % kinds
					}
				}
				name, good := st.NameOf(e, l1), st.File(e, l1)
				switch {
				case k < 0:
				case k < kinds:
					other := append(append([]byte(nil), st.Header...), hx.Want(&m2, s2, e, false)...)
					what, ok := plant(g, k, dir, name, good, st.Header, other)
					plan = append(plan, fmt.Sprintf("epoch %d l1=%v: %s", e, l1, what))
					stuck[name] = !ok
				case g.Bool():
					hx.Put(dir, name, good)
					plan = append(plan, fmt.Sprintf("epoch %d l1=%v: correct", e, l1))
				}
				if g.N(6) == 0 {
					hx.Put(dir, name+fmt.Sprintf(".%d", g.U64()>>1), good[:g.N(len(good))])
					plan = append(plan, fmt.Sprintf("epoch %d l1=%v: leftover temporary", e, l1))
				}
				r.Count("entries_planted", 1)
			}
		}
		if g.N(3) == 0 {
			hx.Put(dir, "cache-T-R7-", g.Bytes(9))
			hx.Put(dir, "unrelated", g.Bytes(9))
		}
		sort.Strings(plan)
		var es []uint64
		if alone {
			// requested itself, or only prepared, then requested
			if target > 0 && g.Bool() {
				es = append(es, target-1)
			}
			es = append(es, target, target)
		} else {
			for k := g.In(1, 4); k > 0; k-- {
				es = append(es, uint64(g.N(4)))
			}
		}
		j := hx.Job{Algo: a, Spec: s, Name: "T", Rev: 7, Dir: dir, As: hx.Spell(g, dir), Count: count, Reqs: hx.Reqs(g, s, es...)}
		cs := map[string]any{"algo": hx.AlgoName[a], "caches_count": count, "epochs": es, "directory": plan, "storage_dir": j.As, "spec": fmt.Sprintf("%+v", s)}
		end := r.Op("child over a hostile directory")
		res := hx.StartChild(j, nil, nil).Wait()
		end()
		r.Eval(true, fmt.Sprint(plan), fmt.Sprint(es), i)
		r.Sample("directory", cs)
		if c := res.Crash(); c != "" {
			if res.InCode() {
				r.Violate("Compute crashed over a hostile storage directory", cs, c)
			} else {
				r.Inconclusive("child: %s", c)
			}
			return
		}
		hx.JudgeOuts(r, &m, j, res, cs)
		// files of the last requested epoch and its successor must be right now
		seen := map[uint64]bool{}
		for _, e := range es {
			seen[e] = true
		}
		last := es[len(es)-1]
		for e := range seen {
			for _, l1 := range st.Kinds() {
				name := st.NameOf(e, l1)
				if stuck[name] {
					continue
				}
				if b := st.Bad(dir, e, l1); b != "" {
					r.Violate("an unusable dump of a used epoch was not replaced", cs, b)
				} else if _, err := os.Lstat(filepath.Join(dir, name)); err != nil && count > 1 && e == last && max64(es) == last { // with one cache the successor prunes it
					r.Violate("a used epoch has no dump afterwards", cs, name)
				}
				r.Count("replaced_files_checked", 1)
			}
		}
	})
	r.Require("results_checked", 600)
	r.Require("replaced_files_checked", 400)
	r.Finish()
}

func max64(e []uint64) (m uint64) {
	for _, x := range e {
		m = max(m, x)
	}
	return
}
