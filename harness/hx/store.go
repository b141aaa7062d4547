//go:build go1.24 && !js

package hx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/sencha-dev/powkit/internal/zzverif/mon"
	"github.com/sencha-dev/powkit/internal/zzverif/ref"
)

// words serialises words the way a mapped file holds them.
func words(w []uint32) []byte {
	b := make([]byte, 0, 4*len(w))
	for _, v := range w {
		b = binary.LittleEndian.AppendUint32(b, v)
	}
	return b
}

// Want is the payload a cache (or L1) file of an epoch must carry.
func Want(m *ref.Memo, s ref.DagSpec, epoch uint64, l1 bool) []byte {
	c := m.Get(s, epoch)
	if l1 {
		return words(c.L1)
	}
	return words(c.Words)
}

// Store knows the file names of a configuration's epochs. Names and the
// header in front of the words are learned by letting a client write each
// epoch into an empty directory and recognising the files by their contents.
type Store struct {
	Spec   ref.DagSpec
	Memo   *ref.Memo
	Name   string
	Rev    int
	Cache  map[uint64]string
	L1     map[uint64]string
	Header []byte
	Before map[string][]byte // dumps that are there from the start, some unusable
	Spoilt int               // how many of them are unusable
	what   map[string]string // file name -> "cache 3" / "l1 3"
}

func (s *Store) cfg(dir string, count int) (c *Inst) {
	a := Eth
	if s.Spec.L1Words > 0 {
		a = Kaw
	}
	cf := Cfg(s.Spec, s.Name, dir, count)
	cf.Revision = s.Rev
	return New(a, s.Spec, cf)
}

// NewStore makes the store of a configuration for epochs 0..max. The name
// pattern and the header are learned once per process.
func NewStore(m *ref.Memo, spec ref.DagSpec, name string, rev int, max uint64) *Store {
	Prime()
	s := &Store{Spec: spec, Memo: m, Name: name, Rev: rev, Cache: map[uint64]string{}, L1: map[uint64]string{}, what: map[string]string{}, Header: patHeader}
	for e := uint64(0); e <= max; e++ {
		seed := spec.Seed(e)[:8]
		s.Cache[e] = fmt.Sprintf(patCache, name, rev, seed)
		s.what[s.Cache[e]] = fmt.Sprintf("cache %d", e)
		if spec.L1Words > 0 {
			s.L1[e] = fmt.Sprintf(patL1, name, rev, seed)
			s.what[s.L1[e]] = fmt.Sprintf("l1 %d", e)
		}
	}
	return s
}

// Prime learns the name pattern; call it before starting parallel work.
func Prime() {
	learnOnce.Do(func() {
		var m ref.Memo
		sp := ref.DagSpec{DatasetInit: 1 << 20, Mix: 128, Parents: 4, Epoch: 100, SeedEpoch: 100, Rounds: 1, CacheInit: 64 * 50, L1Words: 4096}
		a := Learn(&m, sp, "NaMe", 7654321, 1)
		hex8 := fmt.Sprintf("%x", sp.Seed(1)[:8])
		conv := func(n string) string {
			return strings.NewReplacer("NaMe", "%[1]s", "7654321", "%[2]d", hex8, "%[3]x").Replace(strings.ReplaceAll(n, "%", "%%"))
		}
		patCache, patL1, patHeader = conv(a.Cache[1]), conv(a.L1[1]), a.Header
	})
}

var (
	learnOnce       sync.Once
	patCache, patL1 string
	patHeader       []byte
)

// Learn makes the store of a configuration for epochs 0..max, learning every
// single name.
func Learn(m *ref.Memo, spec ref.DagSpec, name string, rev int, max uint64) *Store {
	s := &Store{Spec: spec, Memo: m, Name: name, Rev: rev, Cache: map[uint64]string{}, L1: map[uint64]string{}, what: map[string]string{}}
	for e := uint64(0); e <= max; e++ {
		// the documented names, should the learning below fail
		seed := spec.Seed(e)[:8]
		s.Cache[e] = fmt.Sprintf("cache-%s-R%d-%x", name, rev, seed)
		if spec.L1Words > 0 {
			s.L1[e] = fmt.Sprintf("l1-%s-R%d-%x", name, rev, seed)
		}
	}
	s.Header = []byte{0xfe, 0xca, 0xdd, 0xba, 0xad, 0xde, 0xe1, 0xfe}
	base := runtime.NumGoroutine()
	for e := uint64(0); e <= max; e++ {
		dir := Tmp("learn")
		in := s.cfg(dir, 1)
		mon.Try(func() { in.DAG().GetCache(e) })
		Quiesce(base)
		for _, f := range List(dir) {
			b, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil {
				continue
			}
			for _, l1 := range []bool{false, true} {
				if l1 && spec.L1Words == 0 {
					continue
				}
				w := Want(m, spec, e, l1)
				if bytes.HasSuffix(b, w) && len(b)-len(w) < 4096 {
					s.Header = b[:len(b)-len(w)]
					if l1 {
						s.L1[e] = f
					} else {
						s.Cache[e] = f
					}
				}
			}
		}
		os.RemoveAll(dir)
	}
	for e := uint64(0); e <= max; e++ {
		s.what[s.Cache[e]] = fmt.Sprintf("cache %d", e)
		if spec.L1Words > 0 {
			s.what[s.L1[e]] = fmt.Sprintf("l1 %d", e)
		}
	}
	return s
}

// What says which epoch a name belongs to.
func (s *Store) What(name string) (l1 bool, epoch uint64, ok bool) {
	w, ok := s.what[name]
	if !ok {
		return
	}
	var k string
	fmt.Sscanf(w, "%s %d", &k, &epoch)
	return k == "l1", epoch, true
}

// File is the exact content of a correct file.
func (s *Store) File(epoch uint64, l1 bool) []byte {
	return append(append([]byte(nil), s.Header...), Want(s.Memo, s.Spec, epoch, l1)...)
}

func (s *Store) NameOf(epoch uint64, l1 bool) string {
	if l1 {
		return s.L1[epoch]
	}
	return s.Cache[epoch]
}

// Kinds are the file kinds of the configuration: cache, and L1 if enabled.
func (s *Store) Kinds() []bool {
	if s.Spec.L1Words > 0 {
		return []bool{false, true}
	}
	return []bool{false}
}

// Spoil puts an unusable dump under a final name: of the wrong length, or with
// the wrong magic.
func (s *Store) Spoil(g *mon.Rand, dir string, epoch uint64, l1 bool) {
	b := s.File(epoch, l1)
	switch g.N(5) {
	case 0:
		b = b[:g.N(len(b))]
	case 1:
		b = append(b, g.Bytes(g.In(1, 5000))...)
	case 2:
		clear(b)
	default:
		b[g.N(len(s.Header))] ^= byte(1 << g.N(8))
	}
	if s.Before == nil {
		s.Before = map[string][]byte{}
	}
	s.Before[s.NameOf(epoch, l1)] = b
	s.Spoilt++
	Put(dir, s.NameOf(epoch, l1), b)
}

// Keep puts a sound dump under a final name.
func (s *Store) Keep(dir string, epoch uint64, l1 bool) {
	if s.Before == nil {
		s.Before = map[string][]byte{}
	}
	s.Before[s.NameOf(epoch, l1)] = s.File(epoch, l1)
	Put(dir, s.NameOf(epoch, l1), s.File(epoch, l1))
}

// Again puts what was there from the start into another directory.
func (s *Store) Again(dir string) {
	for n, b := range s.Before {
		Put(dir, n, b)
	}
}

// Bad describes a file under a final name that is not complete and correct
// ("" if it is, does not exist, or is an unusable one left as it was).
func (s *Store) Bad(dir string, epoch uint64, l1 bool) string {
	b, err := os.ReadFile(filepath.Join(dir, s.NameOf(epoch, l1)))
	if os.IsNotExist(err) {
		return ""
	}
	if err != nil {
		return err.Error()
	}
	if old, ok := s.Before[s.NameOf(epoch, l1)]; ok && bytes.Equal(b, old) {
		return ""
	}
	if w := s.File(epoch, l1); !bytes.Equal(b, w) {
		return fmt.Sprintf("%s: %d bytes (want %d), differs from the correct dump at byte %d", s.NameOf(epoch, l1), len(b), len(w), diffAt(b, w))
	}
	return ""
}

func diffAt(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

// Audit lists incomplete or wrong files under final names, and the names of
// files that are neither final nor expected ("strays").
func (s *Store) Audit(dir string, keep func(name string) bool) (bad, strays []string) {
	for _, f := range List(dir) {
		l1, e, ok := s.What(f)
		if ok {
			if x := s.Bad(dir, e, l1); x != "" {
				bad = append(bad, x)
			}
			continue
		}
		if keep == nil || !keep(f) {
			strays = append(strays, f)
		}
	}
	return
}

// List names a directory's entries.
func List(dir string) []string {
	d, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	var out []string
	for _, e := range d {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

// FD counts this process's descriptors whose target lies under dir.
func FDs(dir string) int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			n++
		}
	}
	return n
}

// Maps counts this process's mappings of files under dir.
func Maps(dir string) int {
	b, _ := os.ReadFile("/proc/self/maps")
	return strings.Count(string(b), " "+dir+"/")
}

// Ino identifies a file's incarnation.
type Ino struct {
	Ino         uint64
	Size        int64
	MtimeNs     int64
	CtimeNs     int64
	Mode        uint32
	ContentHash string
}

// StatDir records every entry of a directory.
func StatDir(dir string) map[string]Ino {
	out := map[string]Ino{}
	for _, f := range List(dir) {
		var st syscall.Stat_t
		p := filepath.Join(dir, f)
		if syscall.Lstat(p, &st) != nil {
			continue
		}
		i := Ino{Ino: uint64(st.Ino), Size: int64(st.Size), MtimeNs: syscall.TimespecToNsec(st.Mtim), CtimeNs: syscall.TimespecToNsec(st.Ctim), Mode: st.Mode}
		if st.Mode&syscall.S_IFMT == syscall.S_IFREG {
			b, _ := os.ReadFile(p)
			i.ContentHash = string(ref.Blake2b(b, nil, 16))
		}
		out[f] = i
	}
	return out
}

// Watch records what happens in a directory, in order, from the kernel.
type Watch struct {
	fd   int
	pipe chan struct{}
}

// Event is one directory event.
type Event struct {
	Op   string // create, moved_to, moved_from, delete, close_write, modify
	Name string
}

func NewWatch(dir string) (*Watch, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MOVED_TO|syscall.IN_MOVED_FROM|syscall.IN_DELETE|syscall.IN_MODIFY)
	if err != nil {
		syscall.Close(fd)
		return nil, err
	}
	return &Watch{fd: fd}, nil
}

// Drain returns the events since the last call.
func (w *Watch) Drain() (out []Event) {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			return
		}
		for off := 0; off < n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
			name := string(bytes.TrimRight(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(ev.Len)], "\x00"))
			op := "?"
			switch {
			case ev.Mask&syscall.IN_CREATE != 0:
				op = "create"
			case ev.Mask&syscall.IN_MOVED_TO != 0:
				op = "moved_to"
			case ev.Mask&syscall.IN_MOVED_FROM != 0:
				op = "moved_from"
			case ev.Mask&syscall.IN_DELETE != 0:
				op = "delete"
			case ev.Mask&syscall.IN_MODIFY != 0:
				op = "modify"
			case ev.Mask&syscall.IN_Q_OVERFLOW != 0:
				op = "overflow"
			}
			out = append(out, Event{op, name})
			off += syscall.SizeofInotifyEvent + int(ev.Len)
		}
	}
}

func (w *Watch) Close() { syscall.Close(w.fd) }

// WatchUses starts to watch which files of a directory are read; the function
// it returns tells which were, or are mapped now.
func WatchUses(dir string) func() map[string]bool {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err == nil {
		syscall.InotifyAddWatch(fd, dir, syscall.IN_ACCESS)
	}
	return func() map[string]bool {
		used := map[string]bool{}
		b, _ := os.ReadFile("/proc/self/maps")
		for _, l := range strings.Split(string(b), "\n") {
			if i := strings.Index(l, dir+"/"); i >= 0 {
				used[l[i+len(dir)+1:]] = true
			}
		}
		if err == nil {
			w := Watch{fd: fd}
			for _, e := range w.Drain() {
				used[e.Name] = true
			}
			w.Close()
		}
		return used
	}
}

// GC runs the collector until finalizers and weak references have settled.
func GC() {
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(200 * time.Microsecond)
	}
}

// Until polls a condition, collecting garbage in between, for at most n tries.
func Until(n int, f func() bool) bool {
	for i := 0; i < n; i++ {
		if f() {
			return true
		}
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	return f()
}

// QuiesceRepo waits until no goroutine started by the code under test runs.
func QuiesceRepo() bool {
	return quiesce(nil, func(of, parked int) bool { return of == parked })
}

// helpers are goroutines of the code under test that were seen to stay parked
// with nothing to do.
var helpers = struct {
	sync.Mutex
	ids map[string]bool
}{ids: map[string]bool{}}

// quiesce waits until ok holds of the goroutines that the code under test
// started and those of them that are parked for good; fast, if there is one,
// settles it without looking at them.
func quiesce(fast func() bool, ok func(of, parked int) bool) bool {
	still := 0
	for i := 0; i < 60000; i++ {
		if fast != nil {
			helpers.Lock()
			none := len(helpers.ids) == 0
			helpers.Unlock()
			if fast() {
				return true
			}
			if none && (i < 300 || i%25 != 0) {
				time.Sleep(time.Millisecond)
				continue
			}
		}
		of, parked := repoGoroutines()
		known := 0
		helpers.Lock()
		for id := range parked {
			if helpers.ids[id] {
				known++
			}
		}
		helpers.Unlock()
		if ok(of, known) {
			return true
		}
		if i >= 300 && i%25 == 0 {
			if still++; !ok(of, len(parked)) {
				still = 0
			}
			if still == 8 {
				helpers.Lock()
				defer helpers.Unlock()
				for id, state := range parked {
					helpers.ids[id] = state != "sleep"
				}
				return true
			}
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// RepoGoroutines is the number of goroutines that the code under test started
// and that still exist.
func RepoGoroutines() int {
	of, _ := repoGoroutines()
	return of
}

// repoGoroutines also returns those that are parked with nothing to do:
// waiting for a channel, a condition or a time rather than for a lock, for the
// processor or in a call.
func repoGoroutines() (of int, parked map[string]string) {
	if runtime.NumGoroutine() == 1 {
		return 0, nil
	}
	buf := make([]byte, 1<<16)
	for n := runtime.Stack(buf, true); ; n = runtime.Stack(buf, true) {
		if n < len(buf) || n >= 64<<20 {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 4*n)
	}
	parked = map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		j := strings.LastIndex(g, "created by github.com/sencha-dev/powkit/")
		if j < 0 || strings.Contains(g[j:], "zzverif") {
			continue
		}
		of++
		if id, state, ok := strings.Cut(g, " ["); ok {
			state = state[:strings.IndexAny(state, ",]")]
			switch state {
			case "chan receive", "chan send", "select", "sleep", "sync.Cond.Wait", "IO wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
				parked[id] = state
			}
		}
	}
	return of, parked
}
