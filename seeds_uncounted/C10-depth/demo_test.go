package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m raftzeropb.Message
	b := []byte{1 << 3, 1, 9<<3 | 2, 0}
	if err := m.Decode(b[:4:4]); err != nil {
		t.Fatal(err)
	}
	var s raftzeropb.Snapshot
	if ok, err := m.Snapshot(&s); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
