package zeropb_test

import (
	"bytes"
	"testing"
	"time"
	"unsafe"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ time.Time
var _ unsafe.Pointer
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 65535-5-3))
	for i := uint(0); i < 60; i++ {
		m.SetUint64(1 << i)
		if m.Uint64() != 1<<i {
			t.Fatal(i, m.Uint64())
		}
	}
	for i := 0; i < 20; i++ {
		var m testzeropb.TestMessage
		m.SetByteArray(make([]byte, 65535-i))
		m.SetUint64(1)
		m.SetUint64(1000)
		if m.Uint64() != 1000 {
			t.Fatal(i, m.Uint64())
		}
	}
}
