package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	b := []byte{15<<3 | 2, 1, 'x', 2<<3 | 0x80, 0x80, 0x80, 0x80, 0x80, 0, 5}
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	m.SetInt32(100000)
	if err := m.Decode(m.Encode()); err != nil || m.String() != "x" && string(m.ByteArray()) != "x" || m.Int32() != 100000 {
		t.Fatal(err, m.Int32())
	}
}
