//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/sencha-dev/powkit/internal/zzverif/flavour"
	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

const calls, callsThorough = 6000, 120000

// flav is another build of the same code, and how to run it.
type flav struct {
	name string
	argv []string
	text map[string]string
	err  error
	out  bytes.Buffer
}

func (f *flav) run(dir string) {
	os.MkdirAll(dir, 0o755)
	cmd := exec.Command(f.argv[0], f.argv[1:]...)
	cmd.Env = []string{"ZZ_T=" + dir} // short: the WebAssembly loader limits its size
	for _, k := range []string{"PATH", "HOME", "VERIF_TIER", "VERIF_SEED", "VERIF_SCRATCH", "VERIF_DIR", "VERIF_SLICE"} {
		cmd.Env = append(cmd.Env, k+"="+os.Getenv(k))
	}
	cmd.Stderr, cmd.Stdout = &f.out, &f.out
	f.err = cmd.Run()
	b, _ := os.ReadFile(filepath.Join(dir, "transcript"))
	f.text = parse(string(b))
	if f.err == nil && f.text["end"] != "end" {
		f.err = fmt.Errorf("incomplete transcript")
	}
}

func parse(s string) map[string]string {
	m := map[string]string{}
	for _, l := range strings.Split(s, "\n") {
		k, v, ok := strings.Cut(l, "\t")
		if !ok {
			v = k
		}
		m[k] = v
	}
	return m
}

func main() {
	hx.Child()
	sub := os.Getenv("ZZ_T") != ""
	r := mon.Start("C31", "one transcript of calls produced by three builds of the working tree, amd64 with assembly, 386 with the portable code (ints of 32 bits), and (a part of it) WebAssembly under node, a 64-bit platform with the portable code and no memory mapping: every Compute and Verify over small caches, with datasets below, around and far above 4 GiB, epochs longer than 2^32 blocks, wide nonces, timestamps and edges; sizes and seeds of every coin; primitives on random input; cache files written by one build and loaded by the other; compared line by line and, for the DAG algorithms, with the specification; distinct by (function, arguments)")
	w := flavour.Build(r)
	n := r.N(calls, callsThorough)
	if sub {
		if err := w.Write(r, n, 1, filepath.Join(os.Getenv("ZZ_T"), "transcript")); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
	here := filepath.Dir(os.Getenv("VERIF_BIN"))
	bin := filepath.Join(here, "c31_386")
	flavs := []*flav{{name: "386", argv: []string{bin}}}
	if js := filepath.Join(here, "c31_js"); exists(js) && exists(os.Getenv("VERIF_WASM_EXEC")) {
		flavs = append(flavs, &flav{name: "wasm", argv: []string{"node", "--stack-size=8192", os.Getenv("VERIF_WASM_EXEC"), js}})
	}
	dir := hx.Tmp("t")
	var wg sync.WaitGroup
	for _, f := range flavs {
		wg.Add(1)
		go func() { f.run(filepath.Join(dir, f.name)); wg.Done() }()
	}
	lines := make([]string, n)
	r.Par("case", n, func(i int, g *mon.Rand) { lines[i] = w.Line(i, g) })
	mine := w.Sizes(r, 1)
	for i, l := range lines {
		mine = append(mine, fmt.Sprintf("call%d\t%s", i, l))
	}
	wg.Wait()
	for _, f := range flavs {
		if f.err == nil {
			continue
		}
		if mon.InRepo(f.out.String()) != "" {
			r.Violate("the "+f.name+" build crashed", nil, f.out.String())
		} else if f.name == "386" {
			r.Inconclusive("%s run: %v %s", f.name, f.err, f.out.String())
		}
	}
	for _, kv := range mine {
		key, l, _ := strings.Cut(kv, "\t")
		var cs map[string]any
		if strings.HasPrefix(key, "call") {
			i, _ := strconv.Atoi(key[4:])
			k, c := w.Draw(r.Rand(fmt.Sprintf("case#%d", i)), i)
			cs = c.Case(w.Fns[k].Name)
			r.Eval(true, key)
			r.Count("calls_"+strings.Fields(w.Fns[k].Name)[0], 1)
			if strings.Contains(l, "ok=true") {
				r.Count("accepted", 1)
			}
			if i < 6 {
				r.Sample("call", cs)
			}
		} else {
			cs = map[string]any{"line": key, "what": "sizes, seeds and primitives"}
			r.Eval(true, key)
			r.Count("sizes_seeds_primitives", 1)
		}
		bad := strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "github")
		for _, f := range flavs {
			t, ok := f.text[key]
			if f.err != nil || !ok {
				if f.name == "386" && f.err == nil {
					r.Inconclusive("the 386 transcript lacks %s", key)
				}
				continue
			}
			r.Count("compared_with_"+f.name, 1)
			if t != l && !bad && (strings.HasPrefix(t, "panic") || strings.HasPrefix(t, "github")) {
				r.Violate("the "+f.name+" build panics", cs, t)
			} else if l != t {
				r.Violate("the builds disagree", cs, "amd64: "+l+"\n"+f.name+": "+t)
			}
		}
		if bad {
			r.Violate("every build panics", cs, l)
		}
	}
	// the specification, for what is wider than 32 bits
	r.Par("spec", n, func(i int, _ *mon.Rand) {
		k := i % len(w.Fns)
		s, ok := w.Spec[k]
		if !ok {
			return
		}
		_, c := w.Draw(r.Rand(fmt.Sprintf("case#%d", i)), i)
		m, d := hx.Expect(w.Algo[k], s, w.Memos[k], c.Data[0], c.H, c.N, &ref.ProgStats{}, &ref.OctStats{})
		if want := (hx.Ans{Outs: [][]byte{m, d}}).String(); want != lines[i] {
			r.Violate("the result is not the specified one", c.Case(w.Fns[k].Name), "got "+lines[i]+" want "+want)
		}
		r.Count("compared_with_specification", 1)
		if s.DatasetSize(s.EpochOf(c.H)) > 1<<32 {
			r.Count("datasets_above_4GiB", 1)
		}
		if c.H > 1<<32 {
			r.Count("heights_above_32_bits", 1)
		}
	})
	exchange(r, bin)
	runtime.KeepAlive(w)
	r.Require("accepted", 100)
	r.Require("datasets_above_4GiB", 300)
	r.Require("heights_above_32_bits", 200)
	r.Require("files_exchanged", 20)
	r.Finish()
}

func exists(p string) bool {
	st, err := os.Stat(p)
	return err == nil && st.Mode().IsRegular()
}

// exchange lets one build write a directory and the other use it.
func exchange(r *mon.R, bin string) {
	hx.Prime()
	for i := 0; i < r.N(16, 100); i++ {
		g := r.Rand(fmt.Sprintf("exchange#%d", i))
		a := []hx.Algo{hx.Eth, hx.Kaw}[i%2]
		s := hx.SmallSpec(g, a)
		var memo ref.Memo
		st := hx.NewStore(&memo, s, "T", 7, 4)
		dir := hx.Tmp("x")
		j := hx.Job{Algo: a, Spec: s, Name: "T", Rev: 7, Dir: dir, Count: 3, Reqs: hx.Reqs(g, s, 0, 1, 2)}
		cs := map[string]any{"algo": hx.AlgoName[a], "spec": fmt.Sprintf("%+v", s), "first": []string{"386", "amd64"}[i/2%2]}
		var before map[string]hx.Ino
		for k := 0; k < 2; k++ {
			exe := ""
			if (i/2+k)%2 == 0 {
				exe = bin
			}
			res := hx.StartChildExe(exe, j).Wait()
			if c := res.Crash(); c != "" {
				if res.InCode() {
					r.Violate("a build crashed over a shared directory", cs, c)
				} else {
					r.Inconclusive("child: %s", c)
				}
				break
			}
			hx.JudgeOuts(r, &memo, j, res, cs)
			if bad, _ := st.Audit(dir, nil); len(bad) > 0 {
				r.Violate("a build wrote a different file", cs, strings.Join(bad, "; "))
			}
			if k == 0 {
				before = hx.StatDir(dir)
				continue
			}
			after := hx.StatDir(dir)
			for n, b := range before {
				if after[n] != b {
					r.Violate("a build did not reuse the other's file", cs, n)
				} else {
					r.Count("files_exchanged", 1)
				}
			}
		}
		os.RemoveAll(dir)
	}
}
