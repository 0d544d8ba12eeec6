package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m raftzeropb.Message
	if err := m.Decode([]byte{7<<3 | 2, 1, 0xff, 7<<3 | 2, 0}); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	it := m.Entries()
	if ok, err := it.Next(&e); !ok || err == nil {
		t.Fatal(ok, err)
	}
	if ok, err := it.Next(&e); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
