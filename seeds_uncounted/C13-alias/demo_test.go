package zeropb_test

import (
	"bytes"
	"testing"
	"time"
	"unsafe"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ time.Time
var _ unsafe.Pointer
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	b := []byte{14<<3 | 2, 0, 15<<3 | 2, 2, 'x', 'y', 0}
	if err := m.Decode(b[:6]); err != nil {
		t.Fatal(err)
	}
	m.SetString(unsafeString(m.ByteArray()[1:]))
	if m.String() != "y" {
		t.Fatalf("%q", m.String())
	}
}

func unsafeString(b []byte) string {
	return *(*string)(unsafe.Pointer(&b))
}
