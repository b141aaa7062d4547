// stand-in for a platform without memory mapping

package mmap

import "errors"

var errNone = errors.New("no memory mapping on this platform")

func mmap(len int, inprot, inflags, fd uintptr, off int64) ([]byte, error) { return nil, errNone }
func (m MMap) flush() error                                               { return errNone }
func (m MMap) lock() error                                                { return errNone }
func (m MMap) unlock() error                                              { return errNone }
func (m MMap) unmap() error                                               { return errNone }
