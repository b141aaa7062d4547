//go:build go1.24 && !js

package hx

import (
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// FileCalls are the system calls that storage code may make.
const FileCalls = "openat,open,creat,ftruncate,truncate,fallocate,renameat,rename,renameat2,mkdirat,mkdir,unlinkat,unlink,rmdir,linkat,link,symlinkat,close,newfstatat,fstat,fstatat64,statx,lstat,stat,read,pread64,write,pwrite64,fsync,fdatasync,msync,flock,fchmod,fchmodat,getdents64,copy_file_range,sendfile,lseek,fcntl,mmap,munmap,faccessat,faccessat2"

// StraceWorks tells whether children may be traced here.
func StraceWorks() bool {
	out, err := exec.Command("strace", "-f", "-qq", "-e", "trace=openat", "-e", "inject=fsync:error=EIO:when=1", "-o", "/dev/null", "/bin/true").CombinedOutput()
	return err == nil && len(out) == 0
}

// Site is one system call of the traced process: the When-th call of that
// name by its thread.
type Site struct {
	Sys  string
	When int
}

var lineRe = regexp.MustCompile(`^(\d+)\s+([a-z0-9_]+)\((.*)`)

// Sites runs the job once under strace and lists the calls touching its
// directory, in order of first appearance and without repetition. The faults
// in first are injected all the while ("renameat,rename:error=EXDEV").
func Sites(j Job, first ...string) (out []Site, res *Res) {
	log := Tmp("trace") + "/log"
	j.Procs = 1
	args := []string{"strace", "-f", "-y", "-s", "8", "-o", log, "-e", "trace=" + FileCalls}
	for _, f := range first {
		args = append(args, "-e", "inject="+f)
	}
	res = StartChild(j, args, nil).Wait()
	b, _ := os.ReadFile(log)
	os.Remove(log)
	n := map[string]int{}
	seen := map[Site]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		m := lineRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n[m[1]+" "+m[2]]++
		if strings.Contains(m[3], j.Dir) {
			s := Site{m[2], n[m[1]+" "+m[2]]}
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	sort.SliceStable(out, func(a, b int) bool { return out[a].Sys < out[b].Sys })
	return
}

// Inject runs the job with an action (error=..., signal=...) injected at a
// site, on top of the faults in first; hits are the trace lines of calls
// injected at the site that touch the directory.
func Inject(j Job, s Site, action string, persistent bool, first ...string) (res *Res, hits, other []string) {
	log := Tmp("trace") + "/log"
	j.Procs = 1
	when := strconv.Itoa(s.When)
	if persistent {
		when += "+"
	}
	args := []string{"strace", "-f", "-y", "-s", "8", "-o", log, "-e", "inject=" + s.Sys + ":" + action + ":when=" + when}
	trace := s.Sys
	for _, f := range first {
		args = append(args, "-e", "inject="+f)
		trace += "," + strings.SplitN(f, ":", 2)[0]
	}
	p := StartChild(j, append(args, "-e", "trace="+trace), nil)
	select {
	case <-p.Done():
	case <-time.After(90 * time.Second): // a lost wakeup of the tracer, not a verdict
		p.Kill()
	}
	res = p.Wait()
	b, _ := os.ReadFile(log)
	os.Remove(log)
	for _, l := range strings.Split(string(b), "\n") {
		inj := strings.Contains(l, "INJECTED")
		if strings.Contains(action, "signal") {
			inj = strings.Contains(l, "= ?") || strings.Contains(l, "INJECTED")
		}
		if m := lineRe.FindStringSubmatch(l); len(first) > 0 && m != nil && m[2] != s.Sys {
			continue // the first fault
		}
		if !inj {
			continue
		}
		if strings.Contains(l, j.Dir) {
			hits = append(hits, l)
		} else {
			other = append(other, l)
		}
	}
	return
}
