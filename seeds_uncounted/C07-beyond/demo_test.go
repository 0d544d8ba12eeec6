package zeropb_test

import (
	"bytes"
	"testing"
	"time"
	"unsafe"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ time.Time
var _ unsafe.Pointer
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	b := []byte{0x81, 0x80, 0x40, 1, 2, 3, 4, 5, 6, 7, 8, 8, 1}
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
}
