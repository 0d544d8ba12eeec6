package tgt

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"

	"github.com/danhhz/zeropb"
	"verif/harness/ref"
)

// Offset tables for the largest field numbers take up to 1 GiB. Here, one small
// file is mapped all over the table, except for the pages of the fields used.

const (
	aliasLen = 2 << 20
	giantLen = 1<<30 + aliasLen
	pageLen  = 4096
)

type giantTable struct {
	base uintptr
	fd   int
	own  []uintptr // offsets of the private pages
}

var giants [2]*giantTable

func mmap(addr, n uintptr, prot, flags, fd int, off uintptr) (uintptr, error) {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr, n, uintptr(prot), uintptr(flags), uintptr(fd), off)
	if e != 0 {
		return 0, e
	}
	return p, nil
}

const rw = syscall.PROT_READ | syscall.PROT_WRITE

func newGiant(dir string) (*giantTable, error) {
	f, err := os.CreateTemp(dir, "alias")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	os.Remove(f.Name())
	if err := f.Truncate(aliasLen); err != nil {
		return nil, err
	}
	g := new(giantTable)
	if g.fd, err = syscall.Dup(int(f.Fd())); err != nil {
		return nil, err
	}
	if g.base, err = mmap(0, giantLen, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, -1, 0); err != nil {
		return nil, err
	}
	for o := uintptr(0); o < giantLen; o += aliasLen {
		if _, err := mmap(g.base+o, aliasLen, rw, syscall.MAP_SHARED|syscall.MAP_FIXED, g.fd, 0); err != nil {
			return nil, err
		}
	}
	return g, nil
}

// NewGiant is NewRT for schemas with any field numbers. There are two slots: a
// message made in one replaces the last one made there.
func NewGiant(s *ref.Schema, mi, slot int, dir string) (*RT, error) {
	if syscall.Getpagesize() != pageLen {
		return nil, fmt.Errorf("page size %d", syscall.Getpagesize())
	}
	if giants[slot] == nil {
		g, err := newGiant(dir)
		if err != nil {
			return nil, err
		}
		giants[slot] = g
	}
	g := giants[slot]
	for _, o := range g.own {
		if _, err := mmap(g.base+o, pageLen, rw, syscall.MAP_SHARED|syscall.MAP_FIXED, g.fd, o%aliasLen); err != nil {
			return nil, err
		}
	}
	if g.own == nil {
		g.own = []uintptr{}
	} else {
		if err := syscall.Ftruncate(g.fd, 0); err != nil {
			return nil, err
		}
		if err := syscall.Ftruncate(g.fd, aliasLen); err != nil {
			return nil, err
		}
	}
	d := &s.Msgs[mi]
	g.own = g.own[:0]
	for _, f := range d.F {
		o := uintptr(f.N) * 2 / pageLen * pageLen
		if _, err := mmap(g.base+o, pageLen, rw, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_FIXED, -1, 0); err != nil {
			return nil, err
		}
		g.own = append(g.own, o)
	}
	r := &RT{sch: s, mi: mi, rep: zeropb.RepeatedFields{}}
	r.A = unsafe.Slice((*uint16)(*(*unsafe.Pointer)(unsafe.Pointer(&g.base))), d.Max()+1)
	for _, f := range d.F {
		if f.Rep {
			r.rep[f.N] = struct{}{}
		}
	}
	return r, nil
}
