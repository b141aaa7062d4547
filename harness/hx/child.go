//go:build go1.24 && !js

package hx

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	mathrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// Req is one Compute call.
type Req struct {
	Hash   []byte
	Height uint64
	Nonce  uint64
}

// Job is what a child process does: it opens one client and computes.
type Job struct {
	Algo   Algo
	Spec   ref.DagSpec
	Name   string
	Rev    int
	Dir    string
	As     string // how the storage directory is spelled, if not as Dir
	Count  int
	Lock   bool
	Reqs   []Req
	Seed   int64  // seeds math/rand's global source if not zero
	Start  string // wait until this file exists
	Spare  int    // leave only so many free descriptors (0: no limit)
	FSize  int64  // RLIMIT_FSIZE (0: none)
	Mlock  int64  // RLIMIT_MEMLOCK if not zero (1 byte to forbid)
	Umask  int    // umask if not zero
	Procs  int    // GOMAXPROCS
	Linger int    // ms to stay alive holding the client after the calls
	Fault  string // for the mmap stand-in: "map:2,unmap:1,lock:1"
	Uses   bool   // report which files of Dir were mapped or read
}

// Out is one result of a child.
type Out struct {
	I           int
	Mix, Digest []byte
	Err         string
}

// Res is how a child ended.
type Res struct {
	Outs   []Out
	Done   bool // all calls returned and background work finished
	Exit   int
	Signal syscall.Signal
	Stderr string
	FDs    int // descriptors of files under Dir at the end, after collection
	Maps   int
	Used   map[string]bool // with Uses: the files mapped at the end or read
}

// Crash tells whether the code under test crashed the process.
func (r *Res) Crash() string {
	if r.Done || r.Signal == syscall.SIGKILL {
		return ""
	}
	return fmt.Sprintf("exit %d signal %v: %s", r.Exit, r.Signal, clip(r.Stderr, 4000))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// InCode tells whether a crash happened inside the code under test.
func (r *Res) InCode() bool {
	g := strings.SplitN(r.Stderr, "\n\ngoroutine ", 3)
	top := strings.Join(g[:min(2, len(g))], "\n")
	for _, l := range strings.Split(top, "\n") {
		if strings.HasPrefix(l, "github.com/sencha-dev/powkit/") && !strings.Contains(l, "/zzverif/") {
			return true
		}
	}
	return false
}

// Child runs the job in ZZ_JOB, if there is one, and exits.
func Child() {
	if os.Getenv("ZZ_PROBE") != "" {
		os.Exit(0)
	}
	p := os.Getenv("ZZ_JOB")
	if p == "" {
		return
	}
	var j Job
	b, err := os.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(97)
	}
	if j.Procs > 0 {
		runtime.GOMAXPROCS(j.Procs)
	}
	if j.Umask != 0 {
		syscall.Umask(j.Umask)
	}
	w := bufio.NewWriter(os.Stdout)
	emit := func(v any) { b, _ := json.Marshal(v); w.Write(append(b, '\n')); w.Flush() }
	for j.Start != "" {
		if _, err := os.Stat(j.Start); err == nil {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	cf := Cfg(j.Spec, j.Name, j.Dir, j.Count)
	if j.As != "" {
		cf.StorageDir = j.As
	}
	cf.Revision = j.Rev
	cf.CachesLockMmap = j.Lock
	SetFaults(j.Fault)
	limit := func(res int, v uint64) {
		if err := syscall.Setrlimit(res, &syscall.Rlimit{Cur: v, Max: v}); err != nil {
			fmt.Fprintln(os.Stderr, "child: setrlimit:", err)
			os.Exit(97)
		}
	}
	if j.Mlock > 0 {
		limit(8, uint64(j.Mlock))
	}
	if j.FSize > 0 {
		limit(syscall.RLIMIT_FSIZE, uint64(j.FSize))
	}
	if j.Spare > 0 {
		var fds []int
		for {
			fd, err := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
			if err != nil {
				break
			}
			fds = append(fds, fd)
			if len(fds) > 60 {
				break
			}
		}
		top := fds[len(fds)-1]
		for _, fd := range fds {
			syscall.Close(fd)
		}
		limit(syscall.RLIMIT_NOFILE, uint64(top-60+j.Spare-1))
	}
	if j.Seed != 0 {
		mathrand.Seed(j.Seed)
	}
	mon.WatchChild()
	base := runtime.NumGoroutine() // the watch included
	uses := func() map[string]bool { return nil }
	if j.Uses {
		uses = WatchUses(j.Dir)
	}
	in := New(j.Algo, j.Spec, cf)
	debug.SetPanicOnFault(false)
	for i, q := range j.Reqs {
		end := mon.Watch("Compute")
		m, d, err := in.Compute(q.Hash, q.Height, q.Nonce)
		end()
		o := Out{I: i, Mix: m, Digest: d}
		if err != nil {
			o.Err = err.Error()
		}
		emit(o)
	}
	Quiesce(base)
	used := uses()
	if j.Linger > 0 {
		time.Sleep(time.Duration(j.Linger) * time.Millisecond)
	}
	fds, maps := 0, 0
	for i := 0; i < 30; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
		fds, maps = FDs(j.Dir), Maps(j.Dir)
		if fds+maps == 0 {
			break
		}
		if i > 4 && fds <= 2*(j.Count+1) && maps <= 2*(j.Count+1) {
			break
		}
	}
	runtime.KeepAlive(in)
	emit(map[string]any{"Done": true, "FDs": fds, "Maps": maps, "Used": used})
	os.Exit(0)
}

// Proc is a running child.
type Proc struct {
	Cmd      *exec.Cmd
	out, err bytes.Buffer
	jobFile  string
	done     chan struct{}
}

// StartChild launches a child; wrap is put in front of its command line.
func StartChild(j Job, wrap []string, attr *syscall.SysProcAttr) *Proc {
	f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "job")
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(j)
	f.Write(b)
	f.Chmod(0644)
	f.Close()
	self, _ := os.Executable()
	if childExe != "" {
		self = childExe
	}
	args := append(append([]string(nil), wrap...), self)
	p := &Proc{Cmd: exec.Command(args[0], args[1:]...), jobFile: f.Name(), done: make(chan struct{})}
	p.Cmd.Env = append(os.Environ(), "ZZ_JOB="+f.Name(), "MON_OUT=", "GOTRACEBACK=all")
	p.Cmd.Stdout, p.Cmd.Stderr = &p.out, &p.err
	p.Cmd.SysProcAttr = attr
	if err := p.Cmd.Start(); err != nil {
		p.err.WriteString("start: " + err.Error())
		close(p.done)
		p.Cmd = nil
		return p
	}
	go func() { p.Cmd.Wait(); close(p.done) }()
	return p
}

// Unprivileged opens the scratch area for an unprivileged user and returns what
// runs a child as one, or nil where that is impossible.
func Unprivileged() *syscall.SysProcAttr {
	self, _ := os.Executable()
	for p := os.Getenv("VERIF_SCRATCH"); p != "/" && strings.HasPrefix(p, os.TempDir()+"/"); p = filepath.Dir(p) {
		os.Chmod(p, 0755)
	}
	os.Chmod(self, 0755)
	attr := &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	c := exec.Command(self)
	c.Env = append(os.Environ(), "ZZ_PROBE=1", "MON_OUT=")
	c.SysProcAttr = attr
	if c.Run() != nil {
		return nil
	}
	return attr
}

var childExe string

// StartChildExe launches a child of another build of this program ("": of
// this one). It is for sequential use.
func StartChildExe(exe string, j Job) *Proc {
	childExe = exe
	defer func() { childExe = "" }()
	return StartChild(j, nil, nil)
}

// Done is closed when the child has ended.
func (p *Proc) Done() <-chan struct{} { return p.done }

// Kill sends SIGKILL to the child.
func (p *Proc) Kill() {
	if p.Cmd != nil {
		p.Cmd.Process.Kill()
	}
}

// Wait collects the child's results.
func (p *Proc) Wait() *Res {
	<-p.done
	os.Remove(p.jobFile)
	r := &Res{Stderr: p.err.String(), Exit: 98}
	if p.Cmd != nil {
		ws := p.Cmd.ProcessState.Sys().(syscall.WaitStatus)
		r.Exit = ws.ExitStatus()
		if ws.Signaled() {
			r.Signal = ws.Signal()
		}
	}
	for _, l := range strings.Split(p.out.String(), "\n") {
		if strings.Contains(l, `"Done"`) {
			var d struct {
				FDs, Maps int
				Used      map[string]bool
			}
			json.Unmarshal([]byte(l), &d)
			r.Done, r.FDs, r.Maps, r.Used = true, d.FDs, d.Maps, d.Used
			continue
		}
		var o Out
		if json.Unmarshal([]byte(l), &o) == nil && l != "" {
			r.Outs = append(r.Outs, o)
		}
	}
	return r
}

// JudgeOuts compares a child's results with the specification.
func JudgeOuts(r *mon.R, m *ref.Memo, j Job, res *Res, cs any) {
	for _, o := range res.Outs {
		q := j.Reqs[o.I]
		wm, wd := Expect(j.Algo, j.Spec, m, q.Hash, q.Height, q.Nonce, &ref.ProgStats{}, &ref.OctStats{})
		r.Count("results_checked", 1)
		if o.Err != "" || !bytes.Equal(o.Mix, wm) || !bytes.Equal(o.Digest, wd) {
			r.Violate("Compute returned a wrong result", cs, fmt.Sprintf("height %d: got mix=%x digest=%x err=%q want mix=%x digest=%x", q.Height, o.Mix, o.Digest, o.Err, wm, wd))
		}
	}
}

// Reqs makes requests for epochs.
func Reqs(g *mon.Rand, s ref.DagSpec, epochs ...uint64) (out []Req) {
	for _, e := range epochs {
		out = append(out, Req{g.Bytes(32), e*s.Epoch + uint64(g.N(int(s.Epoch))), g.U64()})
	}
	return
}

// Put writes a file of the scratch area.
func Put(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}

// Swap is Put in one step, for a directory in use: a file that is mapped by now
// is replaced, not truncated.
func Swap(dir, name string, b []byte) {
	p := Put(filepath.Dir(dir), filepath.Base(dir)+"-swap", b)
	if err := os.Rename(p, filepath.Join(dir, name)); err != nil {
		panic(err)
	}
}
