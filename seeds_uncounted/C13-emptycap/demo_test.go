package zeropb_test

import (
	"bytes"
	"testing"
	"time"
	"unsafe"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ time.Time
var _ unsafe.Pointer
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m, sub testzeropb.TestMessage
	m.SetMessage(sub)
	m.SetInt32(77)
	if ok, err := m.Message(&sub); !ok || err != nil {
		t.Fatal(ok, err)
	}
	sub.SetUint64(5)
	if m.Int32() != 77 {
		t.Fatal(m.Int32())
	}
}
