package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
	var e raftzeropb.Entry
	e.SetData(make([]byte, 66000))
	e.SetIndex(5)
	var m raftzeropb.Message
	m.AppendToEntries(e)
	if e.Index() != 5 {
		t.Fatal(e.Index())
	}
}
