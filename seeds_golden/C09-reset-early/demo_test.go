package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	if err := m.Decode([]byte{2<<3, 5, 3<<3}); err == nil {
		t.Fatal("no error")
	}
	m.Reset(nil)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if m.Int32() != 0 {
		t.Fatal(m.Int32())
	}
}
