//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/hx"
	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// seen is what one trial observed: for every promise the longest of the
// requests it speaks of, and how long the work took they must not wait for.
type seen struct {
	what        string
	longest     time.Duration
	work        time.Duration
	n           int
	wrong       string
	interleaved bool
}

// blocked: a request took most of the time of the other work, which was long
// enough to tell.
func (s seen) blocked() bool { return s.long() && s.longest*10 > s.work*6 }
func (s seen) long() bool    { return s.work >= 100*time.Millisecond }

func main() {
	r := mon.Start("C34", "clients whose epochs cost from nothing to seconds to generate, in memory and on disk, of all four DAG algorithms. While a later epoch is generated (in the background or because others asked for it) requests for a ready epoch, for the first epoch of another client, for a new cheap epoch whose successor is expensive and for a dropped one while all that the client keeps are being generated, are timed against that generation; a request that lasts most of the generation, in three trials in a row, waited for it. Distinct by (trial, promise)")
	base := runtime.NumGoroutine()
	for i := 0; i < r.N(10, 160) && r.Violations() < 4; i++ {
		end := r.SlowOp("trial", 4)
		var all [][]seen
		for try := 0; try < 3; try++ {
			g := r.Rand(fmt.Sprintf("trial#%d#%d", i, try))
			cs := map[string]any{"trial": i}
			var s []seen
			if !r.Call("computing while another epoch is generated", cs, func() { s = trial(r, g, i, cs) }) {
				break
			}
			hx.Quiesce(base)
			bad := false
			for _, o := range s {
				bad = bad || o.blocked()
				if o.wrong != "" {
					r.Violate("a result changed while another epoch was generated", cs, o.wrong)
				}
			}
			all = append(all, s)
			if try == 0 {
				for _, o := range s {
					r.Eval(o.long(), i, o.what)
					if o.long() {
						r.Count("judged: "+o.what, 1)
						r.Count("requests_timed", int64(o.n))
						r.Sample(o.what, map[string]any{"case": cs, "requests": o.n, "longest_us": o.longest.Microseconds(), "generation_us": o.work.Microseconds()})
					}
				}
			}
			if !bad {
				break
			}
			r.Count("trials_repeated", 1)
			if try < 2 {
				continue
			}
			for _, o := range s {
				n := 0
				for _, t := range all {
					for _, p := range t {
						if p.what == o.what && p.blocked() {
							n++
						}
					}
				}
				if n == 3 {
					cs["promise"] = o.what
					r.Violate("a request waited for the generation of another epoch", cs, fmt.Sprintf("%s: one took %v, generating took %v (and so in three trials in a row)", o.what, o.longest, o.work))
				}
			}
		}
		end()
	}
	os.RemoveAll(os.Getenv("VERIF_SCRATCH"))
	for _, w := range []string{ready + background, ready + requested, fresh, elsewhere, again} {
		r.Require("judged: "+w, 5)
	}
	r.Require("requests_timed", 1000)
	r.Finish()
}

const (
	ready      = "ready epoch, "
	background = "another being prepared"
	requested  = "another being generated for its requesters"
	fresh      = "new epoch, its successor being prepared"
	elsewhere  = "new epoch of another client"
	again      = "dropped epoch, those kept being generated"
)

func trial(r *mon.R, g *mon.Rand, i int, cs map[string]any) (out []seen) {
	a := hx.Algo(i % 4)
	s := hx.SmallSpec(g, a)
	s.CacheInit, s.CacheGrowth, s.Rounds = 1<<13, uint64(g.In(7, 12))<<19, 8
	cost := func(e uint64) uint64 { return s.CacheSize(e) }
	mk := func(name string) *hx.Inst {
		keep := g.In(3, 6)
		if name == "V" {
			keep = g.In(1, 2)
		}
		dir := ""
		if i/4%2 == 1 {
			dir = hx.Tmp("c34")
		}
		return hx.New(a, s, hx.Cfg(s, name, dir, keep))
	}
	in, other, full := mk("T"), mk("U"), mk("V")
	cs["algo"], cs["on_disk"], cs["cache_bytes_of_epoch_1"] = hx.AlgoName[a], i/4%2 == 1, cost(1)
	hash := g.Bytes(32)
	height := func(e uint64) uint64 { return e*s.Epoch + uint64(g.N(int(min(s.Epoch, 1000)))) }
	h0, h1, h3 := height(0), height(1), height(3)
	call := func(c *hx.Inst, h uint64) []byte {
		m, d, err := c.Compute(hash, h, 7)
		if err != nil {
			return []byte(err.Error())
		}
		return append(append([]byte(nil), m...), d...)
	}
	// time repeats a request until the other work is done
	repeat := func(what string, f func() []byte, want []byte, done <-chan time.Time, start time.Time) seen {
		o := seen{what: what}
		for {
			t := time.Now()
			got := f()
			if l := time.Since(t); l > o.longest {
				o.longest = l
			}
			o.n++
			if !bytes.Equal(got, want) {
				o.wrong = fmt.Sprintf("%x, before it was %x", got, want)
			}
			select {
			case end := <-done:
				o.work = end.Sub(start)
				return o
			default:
			}
			if o.n > 200 { // enough to tell, leave the processors to the others
				time.Sleep(time.Millisecond)
			}
		}
	}
	var m ref.Memo
	wm, wd := in.Expect(&m, hash, h0, 7, nil, nil)
	want0 := append(append([]byte(nil), wm...), wd...)

	// a new epoch that costs nothing, before an expensive one
	start := time.Now()
	got := call(in, h0)
	first := seen{what: fresh, longest: time.Since(start), n: 1}
	if !bytes.Equal(got, want0) {
		first.wrong = fmt.Sprintf("%x, want %x", got, want0)
	}
	done := make(chan time.Time, 1)
	go func() {
		call(in, h1)
		done <- time.Now()
	}()
	o := repeat(ready+background, func() []byte { return call(in, h0) }, want0, done, start)
	// the call for epoch 1 may have waited for its own successor, which costs
	// twice as much, and so does not tell what epoch 1 alone costs
	first.work = o.work / 3
	out = append(out, first, o)

	// an epoch nobody has prepared, for several requesters
	start = time.Now()
	n := g.In(1, 4)
	part := make(chan time.Time, n+2)
	for k := 0; k < n; k++ {
		go func() {
			call(in, h3)
			part <- time.Now()
		}()
	}
	both := make(chan time.Time, 1)
	go func() {
		var last time.Time
		for k := 0; k < n; k++ {
			last = <-part
		}
		both <- last
	}()
	far := make(chan seen, 1)
	go func() {
		time.Sleep(5 * time.Millisecond)
		t := time.Now()
		call(other, h0)
		far <- seen{what: elsewhere, longest: time.Since(t), n: 1}
	}()
	o = repeat(ready+requested, func() []byte { return call(in, h0) }, want0, both, start)
	f := <-far
	f.work = o.work
	out = append(out, o, f)

	// as many epochs being generated as the client keeps: the first one was
	// dropped and takes the place of one of them
	call(full, h0)
	start = time.Now()
	for _, h := range []uint64{h1, h3} {
		go func() {
			call(full, h)
			part <- time.Now()
		}()
		time.Sleep(4 * time.Millisecond)
	}
	t := time.Now()
	got = call(full, h0)
	f = seen{what: again, longest: time.Since(t), n: 1}
	if !bytes.Equal(got, want0) {
		f.wrong = fmt.Sprintf("%x, want %x", got, want0)
	}
	f.work = (<-part).Sub(start)
	<-part
	return append(out, f)
}
