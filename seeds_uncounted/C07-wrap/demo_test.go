package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	b := []byte{0x90, 0x80, 0x80, 0x80, 0x04, 5}
	if err := m.Decode(b); err != nil || m.Int32() != 0 {
		t.Fatal(err, m.Int32())
	}
}
