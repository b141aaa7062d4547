//go:build go1.24

// Package mon is the monitor runtime of the checks: deterministic case
// streams, case accounting, event counters, violations and their replay
// records, hang detection on a CPU-time clock, and the result file from which
// the driver writes the evidence.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one refuting observation.
type Violation struct {
	What   string `json:"what"`
	Case   any    `json:"case,omitempty"`
	Detail string `json:"detail,omitempty"`
}

// R is one run of one check.
type R struct {
	ID   string
	Tier string
	Seed uint64

	slice    int // only every slice-th part of the quick or thorough amount
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	require  map[string]int64
	samples  []any
	sampleN  map[string]int
	viol     []Violation
	violN    int
	incon    []string
	rule     string
	exhaust  bool
	start    time.Time
	finished bool

	active   map[int64]*op
	activeMu sync.Mutex
	opSeq    int64
	hangWall time.Duration
	hangCPU  time.Duration
	child    bool
}

// cur is the run this process is in.
var cur atomic.Pointer[R]

// Watch puts a call under the hang watch of the process's run, if it has one.
func Watch(desc string) func() {
	if r := cur.Load(); r != nil {
		return r.Op(desc)
	}
	return func() {}
}

// WatchChild starts the hang watch of a process that reports no run of its
// own: a call that does not end crashes it, with the stacks that show where.
func WatchChild() {
	r := &R{active: map[int64]*op{}, hangWall: 100 * time.Second, hangCPU: 50 * time.Second, child: true}
	cur.Store(r)
	go r.watch()
}

type op struct {
	desc string
	wall time.Time
	cpu  time.Duration
	mult time.Duration
	late time.Duration // how late the watch was woken meanwhile
}

const idleWall = 120 * time.Second

// Start begins a run. rule says how cases are made and which are non-trivial.
func Start(id, rule string) *R {
	r := &R{ID: id, Tier: os.Getenv("VERIF_TIER"), rule: rule, start: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, require: map[string]int64{},
		sampleN: map[string]int{}, active: map[int64]*op{}, hangWall: 100 * time.Second, hangCPU: 50 * time.Second}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	r.slice, _ = strconv.Atoi(os.Getenv("VERIF_SLICE"))
	cur.Store(r)
	go r.watch()
	return r
}

func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Q picks a size by tier.
func (r *R) Q(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// N picks an amount of cases by tier; a run that is only a slice does a part.
func (r *R) N(quick, thorough int) int {
	n := r.Q(quick, thorough)
	if r.slice > 1 && n > 0 {
		n = (n + r.slice - 1) / r.slice
	}
	return n
}

// Op marks a call into the code under test as in progress; the returned
// function ends it. A call that is still running after hangWall of wall time,
// in which this process got more than hangCPU of CPU time, is reported as
// not terminating (an ordinary call takes milliseconds); so is one that runs
// for idleWall while this process, which is woken on time, hardly computes:
// it waits for something that does not come.
func (r *R) Op(desc string) func() { return r.SlowOp(desc, 1) }

// SlowOp is Op with mult times the limits.
func (r *R) SlowOp(desc string, mult int) func() {
	r.activeMu.Lock()
	r.opSeq++
	id := r.opSeq
	r.active[id] = &op{desc, time.Now(), cpuNow(), time.Duration(mult), 0}
	r.activeMu.Unlock()
	return func() {
		r.activeMu.Lock()
		delete(r.active, id)
		r.activeMu.Unlock()
	}
}

func (r *R) watch() {
	for {
		t := time.Now()
		time.Sleep(3 * time.Second)
		var stuck *op
		now, cpu := time.Now(), cpuNow()
		late := now.Sub(t) - 3*time.Second
		r.activeMu.Lock()
		for _, o := range r.active {
			if now.Sub(o.wall) > r.hangWall*o.mult && cpu-o.cpu > r.hangCPU*o.mult {
				stuck = o
			}
			o.late += late
			if w := now.Sub(o.wall); w > idleWall*o.mult && cpu-o.cpu < w/5 && o.late < w/50 {
				stuck = o
			}
		}
		r.activeMu.Unlock()
		if stuck != nil {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if r.child {
				fmt.Fprintf(os.Stderr, "fatal error: call does not terminate: %s\n\n%s\n", stuck.desc, InRepo(string(buf)))
				os.Exit(2)
			}
			r.Violate("call does not terminate: "+stuck.desc, nil, trim(InRepo(string(buf)), 6000))
			r.Finish()
		}
	}
}

// InRepo keeps the goroutines of a dump that are inside the code under test.
func InRepo(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/sencha-dev/powkit/") && !strings.Contains(l, "/zzverif/") {
				out = append(out, g)
				break
			}
		}
	}
	return strings.Join(out, "\n\n")
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Eval accounts one evaluated case. key identifies it (for distinctness);
// nontrivial cases are the ones rule names.
func (r *R) Eval(nontrivial bool, key ...any) {
	var h uint64
	if nontrivial {
		f := fnv.New64a()
		for _, k := range key {
			switch v := k.(type) {
			case []byte:
				f.Write(v)
			case string:
				f.Write([]byte(v))
			default:
				fmt.Fprint(f, v)
			}
			f.Write([]byte{0xff})
		}
		h = f.Sum64()
	}
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[h] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a named event counter.
func (r *R) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Max keeps the largest value seen under a name.
func (r *R) Max(name string, v int64) {
	r.mu.Lock()
	if v > r.counters[name] {
		r.counters[name] = v
	}
	r.mu.Unlock()
}

func (r *R) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Require makes the run inconclusive unless the named counter reaches n.
func (r *R) Require(name string, n int64) {
	if r.slice > 1 { // a part of a run, in another environment
		return
	}
	r.mu.Lock()
	r.require[name] = n
	r.mu.Unlock()
}

// Sample records up to three actual cases per kind.
func (r *R) Sample(kind string, v any) {
	r.mu.Lock()
	if r.sampleN[kind] < 3 && len(r.samples) < 60 {
		r.sampleN[kind]++
		r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
	}
	r.mu.Unlock()
}

// Exhaustive declares that a finite space was enumerated completely.
func (r *R) Exhaustive() { r.exhaust = true }

// Inconclusive notes that something the verdict needs was not observed.
func (r *R) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	r.incon = append(r.incon, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Violate records a violation; the run ends early after many of them.
func (r *R) Violate(what string, cs any, detail string) {
	r.mu.Lock()
	r.violN++
	n := r.violN
	if len(r.viol) < 12 {
		r.viol = append(r.viol, Violation{what, cs, trim(detail, 8000)})
	}
	r.mu.Unlock()
	if n == 40 {
		r.Finish()
	}
}

// Known records a violation of a recognisable known kind, once per kind. The
// driver reports it as a finding only if it is listed; otherwise it is a
// violation like any other.
func (r *R) Known(what string, cs any) {
	r.mu.Lock()
	for _, v := range r.viol {
		if v.What == what {
			r.mu.Unlock()
			return
		}
	}
	r.mu.Unlock()
	r.Violate(what, cs, "")
}

func (r *R) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.violN
}

// Try runs f and returns the panic it raised, if any.
func Try(f func()) (msg string) {
	defer Watch("call")()
	return try(f)
}

func try(f func()) (msg string) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, InRepoStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func InRepoStack(s string) string { return trim(s, 4000) }

// Call runs one call of the code under test under the hang watch and reports
// a panic as a violation. It returns false if the call panicked.
func (r *R) Call(desc string, cs any, f func()) bool {
	end := r.Op(desc)
	defer end()
	if m := try(f); m != "" {
		r.Violate(desc+" panicked", cs, m)
		return false
	}
	return true
}

// Par runs n independent cases on all cores; case i gets its own generator,
// derived from the seed, the name and i only.
func (r *R) Par(name string, n int, f func(i int, g *Rand)) {
	r.ParN(name, n, runtime.GOMAXPROCS(0), f)
}

func (r *R) ParN(name string, n, workers int, f func(i int, g *Rand)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i, r.Rand(fmt.Sprintf("%s#%d", name, i)))
			}
		}()
	}
	wg.Wait()
}

// Finish writes the result file and exits.
func (r *R) Finish() {
	r.mu.Lock()
	if r.finished {
		r.mu.Unlock()
		select {}
	}
	r.finished = true
	defer r.mu.Unlock()
	for k, n := range r.require {
		if r.counters[k] < n {
			r.incon = append(r.incon, fmt.Sprintf("observed %s %d times, need %d", k, r.counters[k], n))
		}
	}
	sort.Strings(r.incon)
	cov := map[string]any{"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.rule, "samples": r.samples, "observed": r.counters}
	if r.exhaust {
		cov["exhaustive"] = true
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	out := map[string]any{"property": r.ID, "coverage": cov, "violations": r.viol, "violation_count": r.violN, "inconclusive": r.incon, "wall_s": time.Since(r.start).Seconds()}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "mon: result:", err)
		os.Exit(3)
	}
	if p := os.Getenv("MON_OUT"); p != "" {
		if err := os.WriteFile(p, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, "mon:", err)
			os.Exit(3)
		}
	} else {
		fmt.Println(string(b))
	}
	switch {
	case r.violN > 0:
		os.Exit(1)
	case len(r.incon) > 0:
		os.Exit(4)
	}
	os.Exit(0)
}
