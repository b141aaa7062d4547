// Stand-in for mmap-go's mmap_unix.go: the same calls, except that those
// named in ZZ_MMAP_FAULTS ("map:2,mapro:all,unmap:%3,lock:1") fail.


package mmap

import (
	"os"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/sys/unix"
)

var (
	zzMu    sync.Mutex
	zzCount = map[string]int{}
)

func zzFault(op string) error {
	zzMu.Lock()
	defer zzMu.Unlock()
	zzCount[op]++
	for _, f := range strings.Split(os.Getenv("ZZ_MMAP_FAULTS"), ",") {
		k, _ := strconv.Atoi(strings.TrimPrefix(f, op+":%")) // "map:%3": every third
		if f == op+":"+strconv.Itoa(zzCount[op]) || f == op+":all" || k > 0 && zzCount[op]%k == 0 {
			if l := os.Getenv("ZZ_MMAP_LOG"); l != "" {
				if w, err := os.OpenFile(l, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666); err == nil {
					w.WriteString(f + "\n")
					w.Close()
				}
			}
			return unix.ENOMEM
		}
	}
	return nil
}

func mmap(len int, inprot, inflags, fd uintptr, off int64) ([]byte, error) {
	if err := zzFault("map"); err != nil {
		return nil, err
	}
	mode := "mapro"
	if inprot&RDWR != 0 {
		mode = "maprw"
	}
	if err := zzFault(mode); err != nil {
		return nil, err
	}
	flags := unix.MAP_SHARED
	prot := unix.PROT_READ
	switch {
	case inprot&COPY != 0:
		prot |= unix.PROT_WRITE
		flags = unix.MAP_PRIVATE
	case inprot&RDWR != 0:
		prot |= unix.PROT_WRITE
	}
	if inprot&EXEC != 0 {
		prot |= unix.PROT_EXEC
	}
	if inflags&ANON != 0 {
		flags |= unix.MAP_ANON
	}

	b, err := unix.Mmap(int(fd), off, len, prot, flags)
	if err != nil {
		return nil, err
	}
	return b, nil
}

func (m MMap) flush() error {
	return unix.Msync([]byte(m), unix.MS_SYNC)
}

func (m MMap) lock() error {
	if err := zzFault("lock"); err != nil {
		return err
	}
	return unix.Mlock([]byte(m))
}

func (m MMap) unlock() error {
	return unix.Munlock([]byte(m))
}

func (m MMap) unmap() error {
	if err := zzFault("unmap"); err != nil {
		return err
	}
	return unix.Munmap([]byte(m))
}
