package zeropb_test

import (
	"bytes"
	"testing"
	"time"
	"unsafe"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ zeropb.Offsets
var _ time.Time
var _ unsafe.Pointer
var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var m, sub testzeropb.TestMessage
	for _, x := range [][]byte{{7}, nil} {
		var e testzeropb.TestMessage
		e.Decode(append([]byte{}, x...))
		m.AppendToMessages(e)
	}
	it := m.Messages()
	if ok, err := it.Next(&sub); !ok || err == nil {
		t.Fatal(ok, err)
	}
	if ok, err := it.Next(&sub); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
