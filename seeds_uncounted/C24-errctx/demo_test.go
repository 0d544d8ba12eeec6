package zeropb_test

import (
	"syscall"
	"runtime/debug"
	"testing"
	"os"

	"github.com/danhhz/zeropb/golden/testzeropb"
)

func TestDemo(t *testing.T) {
	debug.SetPanicOnFault(true)
	p := os.Getpagesize()
	b, err := syscall.Mmap(-1, 0, 3*p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Fatal(err)
	}
	defer syscall.Munmap(b)
	x := b[p-4:]
	copy(x, []byte{15<<3 | 2, 0x80, 0x80 | byte(p>>7), 0})
	n := p
	x[1], x[2], x[3] = byte(n&0x7f)|0x80, byte(n>>7)|0x80, 0
	x = x[:4+n+2]
	x[4+n] = 1<<3 | 7
	if err := syscall.Mprotect(b[p:2*p], syscall.PROT_NONE); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("contents read:", r)
		}
	}()
	var m testzeropb.TestMessage
	if m.Decode(x) == nil {
		t.Fatal("accepted")
	}
}
