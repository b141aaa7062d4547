//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"

	"github.com/sencha-dev/powkit/internal/common/bitutil"
	"github.com/sencha-dev/powkit/internal/zzverif/arm64"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
)

const page = 4096

// arena is n pages with an inaccessible page on either side.
type arena struct{ mem []byte }

func newArena(n int) arena {
	m, err := syscall.Mmap(-1, 0, (n+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	syscall.Mprotect(m[:page], syscall.PROT_NONE)
	syscall.Mprotect(m[(n+1)*page:], syscall.PROT_NONE)
	return arena{m[page : (n+1)*page : (n+1)*page]}
}

func main() {
	r := mon.Start("C29", "every length 0..lim at every relative alignment of the three operands, each operand placed directly before and directly after an inaccessible page (a stray access faults), canaries around the destination, in-place use, unequal lengths, and too-short destinations; amd64 assembly here, the portable code in a 32-bit build (wide words) and a WebAssembly build (bytes), the arm64 assembly by an interpreter of the arm64 build whose memory is exactly the slices; distinct by (length, alignments, placement)")
	lim := r.N(260, 1100)
	sub := os.Getenv("VERIF_SUB") != ""
	if sub {
		lim = r.N(140, 600)
	}
	r.Par("len", lim+1, func(n int, g *mon.Rand) {
		runtime.LockOSThread()
		A, B, D := newArena(1), newArena(1), newArena(1)
		all := append(append(g.Bytes(page), g.Bytes(page)...), g.Bytes(page)...)
		copy(A.mem, all)
		copy(B.mem, all[page:])
		run := func(tag string, da, aa, ba int, end bool) {
			pos := func(x int) int {
				if end {
					return page - n - x
				}
				return x
			}
			a, b, d := A.mem[pos(aa):pos(aa)+n], B.mem[pos(ba):pos(ba)+n], D.mem[pos(da):pos(da)+n]
			if n == 0 && g.Bool() {
				a, b, d = nil, nil, nil
			}
			for i := range D.mem {
				D.mem[i] = 0xa5 ^ byte(i)
			}
			cs := map[string]any{"len": n, "dst": da, "a": aa, "b": ba, "end": end, "arch": runtime.GOARCH}
			var got int
			if !r.Call("XORBytes", cs, func() { got = bitutil.XORBytes(d, a, b) }) {
				return
			}
			r.Eval(true, tag, n, da, aa, ba, end)
			if got != n {
				r.Violate("XORBytes returns the wrong length", cs, fmt.Sprint(got))
			}
			p := pos(da)
			for i := range D.mem {
				w := 0xa5 ^ byte(i)
				if i >= p && i < p+n {
					w = all[pos(aa)+i-p] ^ all[page+pos(ba)+i-p]
				}
				if D.mem[i] != w {
					r.Violate("XORBytes wrote a wrong byte", cs, fmt.Sprintf("offset %d", i-p))
					return
				}
			}
		}
		for da := 0; da < 16; da += 1 + g.N(2) {
			for aa := 0; aa < 16; aa += 1 + g.N(3) {
				ba := g.N(16)
				run("align", da, aa, ba, false)
				run("align", da, aa, ba, true)
			}
		}
		for k := 0; k < 4; k++ { // exactly at the guard pages
			run("guard", 0, 0, 0, k&1 == 1)
		}
		r.Count("guarded_lengths", 1)
		// in place and unequal lengths
		for k := 0; k < 12; k++ {
			la, lb := n, n
			if k%3 == 1 {
				la += g.In(1, 40)
			} else if k%3 == 2 {
				lb += g.In(1, 40)
			}
			oa, ob := g.N(32), g.N(32)
			if k%2 == 0 { // the shorter operand ends at the guard page
				oa, ob = page-la, page-lb
			}
			a, b := A.mem[oa:oa+la], B.mem[ob:ob+lb]
			d := a
			if k >= 6 {
				d = b
			}
			sa, sb := append([]byte(nil), A.mem...), append([]byte(nil), B.mem...)
			cs := map[string]any{"len_a": la, "len_b": lb, "in_place": k < 6, "arch": runtime.GOARCH}
			var got int
			if !r.Call("XORBytes", cs, func() { got = bitutil.XORBytes(d, a, b) }) {
				return
			}
			r.Eval(true, "inplace", n, k, la, lb, oa, ob)
			r.Count("in_place", 1)
			wa, wb := append([]byte(nil), sa...), append([]byte(nil), sb...)
			for i := 0; i < n; i++ {
				x := sa[oa+i] ^ sb[ob+i]
				if k < 6 {
					wa[oa+i] = x
				} else {
					wb[ob+i] = x
				}
			}
			if got != n || string(A.mem) != string(wa) || string(B.mem) != string(wb) {
				r.Violate("XORBytes in place is wrong or touches other bytes", cs, fmt.Sprint(got))
				return
			}
			copy(A.mem, all)
			copy(B.mem, all[page:])
		}
		// too short a destination must panic before writing past it
		for k := 0; k < 4 && n > 0; k++ {
			dl := g.N(n)
			if k == 0 {
				dl = n - 1
			}
			o := page - dl
			if k == 1 {
				o = g.N(64)
			}
			for i := range D.mem {
				D.mem[i] = byte(i)
			}
			d := D.mem[o : o+dl : o+dl]
			if k == 2 { // spare capacity is not the destination
				d = D.mem[64 : 64+dl]
				o = 64
			}
			cs := map[string]any{"len": n, "dst_len": dl, "arch": runtime.GOARCH}
			done := r.Op("XORBytes short")
			msg := mon.Try(func() { bitutil.XORBytes(d, A.mem[:n], B.mem[:n]) })
			done()
			r.Eval(true, "short", n, dl, o)
			r.Count("short_destinations", 1)
			if msg == "" {
				r.Violate("XORBytes accepts a destination that is too short", cs, "")
			} else if strings.Contains(msg, "fault address") || strings.Contains(msg, "invalid memory") {
				r.Violate("XORBytes overruns a short destination", cs, msg)
			}
			for i := range D.mem {
				if (i < o || i >= o+dl) && D.mem[i] != byte(i) {
					r.Violate("XORBytes wrote past a short destination", cs, fmt.Sprintf("offset %d of %d", i-o, dl))
					break
				}
			}
		}
	})
	if !sub {
		// the portable code: the same monitor in a 32-bit build
		out := os.Getenv("MON_OUT") + ".386"
		end := r.SlowOp("32-bit run", 4)
		cmd := exec.Command(strings.TrimSuffix(os.Getenv("VERIF_BIN"), "main") + "c29_386")
		cmd.Env = append(os.Environ(), "VERIF_SUB=1", "MON_OUT="+out)
		msg, err := cmd.CombinedOutput()
		end()
		var res struct {
			Coverage struct {
				Evaluations int64 `json:"evaluations"`
			} `json:"coverage"`
			Violations []mon.Violation `json:"violations"`
		}
		b, _ := os.ReadFile(out)
		if json.Unmarshal(b, &res) != nil {
			r.Inconclusive("32-bit run gave no result: %v %s", err, msg)
		}
		r.Count("portable_evaluations", res.Coverage.Evaluations)
		for _, v := range res.Violations {
			r.Violate(v.What+" (32-bit portable build)", v.Case, v.Detail)
		}
		r.Require("portable_evaluations", 10000)
		wasm(r)
		arm(r)
	}
	r.Count("arch_"+runtime.GOARCH, 1)
	r.Finish()
}

// wasm runs the monitor in a WebAssembly build, if there is one.
func wasm(r *mon.R) {
	bin := strings.TrimSuffix(os.Getenv("VERIF_BIN"), "main") + "c29_js"
	if _, err := os.Stat(bin); err != nil {
		return
	}
	cmd := exec.Command("node", "--stack-size=8192", os.Getenv("VERIF_WASM_EXEC"), bin)
	for _, k := range []string{"PATH", "HOME", "VERIF_TIER", "VERIF_SEED", "VERIF_SLICE"} {
		cmd.Env = append(cmd.Env, k+"="+os.Getenv(k))
	}
	end := r.SlowOp("WebAssembly run", 4)
	out, err := cmd.CombinedOutput()
	end()
	s := strings.TrimSpace(string(out))
	var n int64
	if strings.HasPrefix(s, "FAIL ") {
		r.Violate(s[5:]+" (WebAssembly, portable code)", map[string]any{"arch": "wasm"}, "")
	} else if k, _ := fmt.Sscanf(s, "OK %d", &n); k == 1 {
		r.Count("wasm_evaluations", n)
	} else if err != nil && mon.InRepo(s) != "" {
		r.Violate("XORBytes crashes (WebAssembly, portable code)", nil, s)
	}
}

// arm interprets the arm64 build's XORBytes, assembly included, instruction
// by instruction over a memory that holds only the three slices.
func arm(r *mon.R) {
	im, err := arm64.Load(strings.TrimSuffix(os.Getenv("VERIF_BIN"), "main") + "c29_arm64")
	if err != nil {
		return
	}
	fn, ok := im.Sym("github.com/sencha-dev/powkit/internal/common/bitutil.XORBytes")
	if !ok {
		return
	}
	r.Par("arm64", r.N(300, 1200), func(l int, g *mon.Rand) {
		for k := 0; k < 30; k++ {
			la, lb, ld := l, l, l
			switch k % 4 {
			case 1:
				la += g.In(1, 80)
			case 2:
				lb += g.In(1, 80)
			case 3:
				ld += g.N(80)
			}
			if k >= 26 && l > 0 {
				ld = g.N(l)
			}
			a, b, d := g.Bytes(la), g.Bytes(lb), g.Bytes(ld)
			place := func(i uint64) uint64 { return i<<32 + uint64(g.N(64)) }
			pa, pb, pd := place(0x11), place(0x12), place(0x13)
			regs := []arm64.Region{{Name: "a", Base: pa, Mem: a}, {Name: "b", Base: pb, Mem: b}, {Name: "dst", Base: pd, Mem: d}}
			alias := ""
			if k >= 20 && k < 23 {
				alias, pd, ld = "a", pa, la
				regs[2].Mem, d = nil, a
			} else if k >= 23 && k < 26 {
				alias, pd, ld = "b", pb, lb
				regs[2].Mem, d = nil, b
			}
			stack, gg := make([]byte, 8192), make([]byte, 512)
			const sp = 0x7f0000000000
			regs = append(regs, arm64.Region{Name: "stack", Base: sp, Mem: stack}, arm64.Region{Name: "g", Base: 0x600000000000, Mem: gg})
			want := append([]byte(nil), d...)
			for i := 0; i < l && i < ld; i++ {
				want[i] = a[i] ^ b[i]
			}
			sa, sb, sd := string(a), string(b), append([]byte(nil), d...)
			c := arm64.New(im, regs...)
			for i := range c.R {
				c.R[i] = g.U64()
			}
			c.R[0], c.R[1], c.R[2] = pd, uint64(ld), uint64(ld)
			c.R[3], c.R[4], c.R[5] = pa, uint64(la), uint64(la)
			c.R[6], c.R[7], c.R[8] = pb, uint64(lb), uint64(lb)
			c.R[28] = 0x600000000000
			c.R[31] = sp + 8000
			stop := c.Call(fn, 100000)
			if stop != nil && stop.Kind == "undecided" {
				r.Count("arm64_undecided", 1)
				continue
			}
			cs := map[string]any{"arch": "arm64", "len_a": la, "len_b": lb, "len_dst": ld, "in_place": alias}
			r.Eval(true, "arm64", l, k)
			r.Count("arm64_evaluations", 1)
			r.Count("arm64_instructions", int64(c.Steps))
			if stop != nil && stop.Kind != "panic" {
				r.Violate("XORBytes: "+stop.Kind+" outside the slices or endless (arm64)", cs, stop.Text)
				return
			}
			if (stop != nil) != (ld < l) {
				r.Violate("XORBytes panics or not on the wrong lengths (arm64)", cs, fmt.Sprint(stop))
				return
			}
			if stop != nil {
				r.Count("arm64_short_destinations", 1)
				continue // nothing outside the slices can have been touched
			}
			if c.R[0] != uint64(l) {
				r.Violate("XORBytes returns the wrong length (arm64)", cs, fmt.Sprint(c.R[0]))
			}
			if string(d) != string(want) {
				r.Violate("XORBytes wrote a wrong byte (arm64)", cs, fmt.Sprintf("%x, %x before, want %x", d, sd, want))
				return
			}
			if alias != "a" && string(a) != sa || alias != "b" && string(b) != sb {
				r.Violate("XORBytes changed an operand (arm64)", cs, "")
				return
			}
		}
	})
}
