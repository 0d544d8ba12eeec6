package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	buf, x, y := make([]byte, 0, 60000), make([]byte, 7000), make([]byte, 5)
	n := testing.AllocsPerRun(100, func() {
		m.Reset(buf)
		m.SetByteArray(y)
		m.SetByteArray(x)
	})
	if n > 0 {
		t.Fatal(n)
	}
}
