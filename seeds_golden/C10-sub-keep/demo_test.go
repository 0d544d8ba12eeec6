package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m raftzeropb.Message
	m.SetSnapshot(raftzeropb.Snapshot{})
	var s raftzeropb.Snapshot
	s.SetData([]byte("old"))
	if ok, err := m.Snapshot(&s); !ok || err != nil || len(s.Data()) != 0 {
		t.Fatal(ok, err, s.Data())
	}
}
