//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// tables parses a generated file into its integer tables.
func tables(path string) (pkg string, t map[string][]uint64, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return "", nil, err
	}
	t = map[string][]uint64{}
	ast.Inspect(f, func(n ast.Node) bool {
		vs, ok := n.(*ast.ValueSpec)
		if !ok {
			return true
		}
		for i, v := range vs.Values {
			cl, ok := v.(*ast.CompositeLit)
			if !ok || i >= len(vs.Names) {
				continue
			}
			l := []uint64{}
			for _, e := range cl.Elts {
				b, ok := e.(*ast.BasicLit)
				if !ok {
					err = fmt.Errorf("unexpected table element")
					return false
				}
				x, e2 := strconv.ParseUint(b.Value, 0, 64)
				if e2 != nil {
					err = e2
				}
				l = append(l, x)
			}
			t[vs.Names[i].Name] = l
		}
		return true
	})
	return f.Name.Name, t, err
}

func main() {
	r := mon.Start("C30", "the built generator run with every epoch count 1..lim and random schedules (and each coin's documented parameters), also over an older file and where nothing can be written; the written file is parsed and every entry compared with the growth schedule; distinct by parameters")
	bin := strings.TrimSuffix(os.Getenv("VERIF_BIN"), "main") + "genlookup"
	run := func(i int, s ref.DagSpec, pkg string, epochs int, deflt bool) (map[string][]uint64, bool) {
		dir := hx.Tmp("c30")
		defer os.RemoveAll(dir)
		args := []string{"-package", pkg, "-mixBytes", fmt.Sprint(s.Mix), "-cacheInit", fmt.Sprint(s.CacheInit), "-cacheGrowth", fmt.Sprint(s.CacheGrowth),
			"-datasetInit", fmt.Sprint(s.DatasetInit), "-datasetGrowth", fmt.Sprint(s.DatasetGrowth)}
		if !deflt {
			args = append(args, "-epochs", fmt.Sprint(epochs))
		}
		cs := map[string]any{"args": strings.Join(args, " ")}
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		if i%3 == 1 { // an older, longer file of that name is there already
			old := append([]byte("package old\n\nvar x = []uint64{\n"), bytes.Repeat([]byte("\t1, 2, 3, 4, 5,\n"), 4000)...)
			os.WriteFile(filepath.Join(dir, pkg+"_lookup.go"), old, 0644)
			r.Count("runs_over_an_older_file", 1)
		}
		end := r.SlowOp("gen-lookup", 3)
		out, err := cmd.CombinedOutput()
		end()
		r.Eval(true, strings.Join(args, " "))
		r.Sample("run", cs)
		r.Count("generator_runs", 1)
		if err != nil {
			r.Violate("gen-lookup failed", cs, fmt.Sprintf("%v %s", err, out))
			return nil, false
		}
		ents, _ := os.ReadDir(dir)
		if len(ents) != 1 {
			r.Violate("gen-lookup does not write exactly one file", cs, fmt.Sprint(len(ents)))
			return nil, false
		}
		name, t, err := tables(filepath.Join(dir, ents[0].Name()))
		if err != nil || name != pkg || len(t) != 2 {
			r.Violate("gen-lookup does not write a Go file with two tables of its package", cs, fmt.Sprintf("%v package %s tables %d", err, name, len(t)))
			return nil, false
		}
		for k, l := range t {
			size := s.CacheSize
			if strings.Contains(strings.ToLower(k), "dataset") {
				size = s.DatasetSize
			}
			if len(l) != epochs {
				r.Violate("gen-lookup writes the wrong number of entries", cs, fmt.Sprintf("%s: %d, want %d", k, len(l), epochs))
				continue
			}
			for e, v := range l {
				r.Count("entries", 1)
				if v != size(uint64(e)) {
					r.Violate("gen-lookup writes a wrong size", cs, fmt.Sprintf("%s[%d] = %d want %d", k, e, v, size(uint64(e))))
					break
				}
			}
		}
		return t, true
	}
	lim := r.N(60, 300)
	r.Par("count", lim, func(i int, g *mon.Rand) {
		run(i, ref.ETH, "p"+fmt.Sprint(i), i+1, false)
		r.Count("epoch_counts", 1)
	})
	r.Par("random", r.N(60, 800), func(i int, g *mon.Rand) {
		s := hx.RandSpec(g, hx.Algo(g.N(4)))
		if i%4 == 1 { // row counts that weak primality tests misjudge
			s.CacheInit = 64 * (max(hx.HardRows(g), 301) + 1)
			s.DatasetInit = s.Mix * (max(hx.HardRows(g), 301) + 1)
			r.Count("hard_row_counts", 2)
		} else if g.Bool() { // large schedules too
			s.CacheInit, s.CacheGrowth = 64*(1+g.U64()>>g.In(24, 50)), 64*(g.U64()>>g.In(40, 60))
			s.CacheInit = max(s.CacheInit, 1024)
			s.DatasetInit, s.DatasetGrowth = s.Mix*(1+g.U64()>>g.In(24, 50)), s.Mix*(g.U64()>>g.In(40, 60))
			s.DatasetInit = max(s.DatasetInit, 8*s.Mix)
			if s.CacheInit/64%2 == 1 {
				s.CacheInit += 64
			}
			if s.DatasetInit/s.Mix%2 == 1 {
				s.DatasetInit += s.Mix
			}
			if s.CacheGrowth/64%2 == 1 {
				s.CacheGrowth += 64
			}
			if s.DatasetGrowth/s.Mix%2 == 1 {
				s.DatasetGrowth += s.Mix
			}
		}
		run(i, s, []string{"x", "ethash", "a_b"}[g.N(3)], g.In(1, r.Q(120, 900)), false)
	})
	// a result that cannot be written is a failure the caller sees
	r.Par("unwritable", r.N(16, 64), func(i int, g *mon.Rand) {
		dir := hx.Tmp("c30")
		defer os.RemoveAll(dir)
		pkg := "q" + fmt.Sprint(g.N(1000))
		p := filepath.Join(dir, pkg+"_lookup.go")
		if i%2 == 0 {
			os.Mkdir(p, 0755)
		} else {
			os.Symlink("/dev/full", p)
		}
		s := ref.ETH
		cmd := exec.Command(bin, "-package", pkg, "-mixBytes", fmt.Sprint(s.Mix), "-cacheInit", fmt.Sprint(s.CacheInit), "-cacheGrowth", fmt.Sprint(s.CacheGrowth),
			"-datasetInit", fmt.Sprint(s.DatasetInit), "-datasetGrowth", fmt.Sprint(s.DatasetGrowth), "-epochs", fmt.Sprint(g.In(1, 40)))
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		r.Eval(true, "unwritable", i)
		r.Count("runs_that_cannot_write", 1)
		ents, _ := os.ReadDir(dir)
		fi, e2 := os.Lstat(p)
		if err == nil && len(ents) == 1 && (e2 != nil || !fi.Mode().IsRegular()) { // else it wrote elsewhere or replaced what was in the way
			r.Violate("gen-lookup reports success for a file it could not write", map[string]any{"directory_in_the_way": i%2 == 0}, string(out))
		}
	})
	// documented parameters reproduce the shipped tables
	for _, c := range []struct {
		pkg  string
		spec ref.DagSpec
	}{{"ethash", ref.ETH}, {"kawpow", ref.RVN}, {"firopow", ref.FIRO}, {"octopus", ref.CFX}} {
		t, ok := run(0, c.spec, c.pkg, 2048, true)
		if !ok {
			continue
		}
		m, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_REPO"), c.pkg, "*_lookup.go"))
		if len(m) != 1 {
			r.Count("shipped_tables_not_found", 1)
			continue
		}
		_, ship, err := tables(m[0])
		if err != nil {
			r.Inconclusive("shipped table of %s: %v", c.pkg, err)
			continue
		}
		for k, l := range ship {
			r.Count("shipped_tables", 1)
			n := len(l)
			if n > len(t[k]) {
				n = len(t[k])
			}
			if n < 1 || !same(l[:n], t[k][:n]) {
				r.Violate("gen-lookup does not reproduce the shipped table", map[string]any{"package": c.pkg, "table": k}, "")
			}
		}
	}
	r.Require("generator_runs", int64(lim))
	r.Finish()
}

func same(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
