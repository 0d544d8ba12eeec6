from spec12 import *
B.clear()
bug('C13-shrink','C13',[(Z,'''		if int(oldLen) == len(valLen)+len(val) {
''','''		newLen := len(valLen) + len(val)
		if newLen < oldLen && int(offset)+oldLen == len(*buf) {
			// The field is the last one and its new value shorter: nothing has to
			// be moved.
			copy((*buf)[offset:], valLen)
			copy((*buf)[int(offset)+len(valLen):], val)
			*buf = (*buf)[:int(offset)+newLen]
			return
		}
		if oldLen == newLen {
''')],'''	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 9))
	enc := m.Encode()
	// The encoding of the field without its tag: a length and the content.
	x := enc[len(enc)-10 : len(enc)-2]
	want := append([]byte(nil), x...)
	m.SetByteArray(x)
	if !bytes.Equal(m.ByteArray(), want) {
		t.Fatalf("got %x want %x", m.ByteArray(), want)
	}
''','the last field is set to a slice of the message that begins with its own length','the slice\'s first byte is overwritten before it is copied')
bug('C06-lenpad','C06',[(Z,'''	msgLen, lenSize := binary.Uvarint(buf)
	msg := buf[lenSize''','''	msgLen, lenSize := uint64(buf[0]), 1
	if msgLen >= 0x80 {
		msgLen, lenSize = uint64(buf[0]&0x7f)|uint64(buf[1])<<7, 2
		if buf[1] >= 0x80 {
			msgLen, lenSize = binary.Uvarint(buf)
			lenSize = proto.SizeVarint(msgLen)
		}
	}
	msg := buf[lenSize''')],'''	var m raftzeropb.Message
	if err := m.Decode([]byte{7<<3 | 2, 0x82, 0x80, 0, 1 << 3, 2}); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	it := m.Entries()
	if ok, err := it.Next(&e); !ok || err != nil || len(e.Encode()) != 2 || e.Encode()[1] != 2 {
		t.Fatalf("%v %v %x", ok, err, e.Encode())
	}
''','an element whose length is padded to three bytes or more','the element is cut out at the wrong place')
bug('C22-sharederr','C22',[(Z,'''			return errors.Errorf(`invalid field: id %d type %d`, fieldID, typ)
''','''			invalidField.id, invalidField.typ = fieldID, typ
			return &invalidField
'''),(Z,'''// FindNextField parses a bytes''','''// invalidField is returned by Decode, always the same so as not to allocate.
var invalidField invalidFieldError

type invalidFieldError struct {
	id  int
	typ uint64
}

func (e *invalidFieldError) Error() string {
	return `invalid field: id ` + strconv.Itoa(e.id) + ` type ` + strconv.FormatUint(e.typ, 10)
}

// FindNextField parses a bytes'''),(Z,'''	"reflect"
''','''	"reflect"
	"strconv"
'''),(Z,'''	"github.com/pkg/errors"
''','''	"github.com/pkg/errors"
''')],'''	var a, b testzeropb.TestMessage
	err := a.Decode([]byte{1<<3 | 7, 0})
	s := err.Error()
	b.Decode([]byte{2<<3 | 6, 0})
	if err.Error() != s {
		t.Fatal("the error of a is now", err)
	}
''','the error of a failed Decode is kept while another message fails to decode, or two fail at once','the error\'s text changes; data race')
bug('C24-errctx','C24',[(Z,'''			return errors.Errorf(`invalid field: id %d type %d`, fieldID, typ)
''','''			context := buf[:idx]
			if len(context) > 32 {
				context = context[len(context)-32:]
			}
			return errors.Errorf(`invalid field: id %d type %d after %q`, fieldID, typ, context)
''')],None,'an encoding that is invalid behind a string or embedded message','the error quotes the contents before it',demo='''package zeropb_test

import (
	"syscall"
	"runtime/debug"
	"testing"
	"os"

	"github.com/danhhz/zeropb/golden/testzeropb"
)

func TestDemo(t *testing.T) {
	debug.SetPanicOnFault(true)
	p := os.Getpagesize()
	b, err := syscall.Mmap(-1, 0, 3*p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Fatal(err)
	}
	defer syscall.Munmap(b)
	x := b[p-4:]
	copy(x, []byte{15<<3 | 2, 0x80, 0x80 | byte(p>>7), 0})
	n := p
	x[1], x[2], x[3] = byte(n&0x7f)|0x80, byte(n>>7)|0x80, 0
	x = x[:4+n+2]
	x[4+n] = 1<<3 | 7
	if err := syscall.Mprotect(b[p:2*p], syscall.PROT_NONE); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("contents read:", r)
		}
	}()
	var m testzeropb.TestMessage
	if m.Decode(x) == nil {
		t.Fatal("accepted")
	}
}
''')
bug('C26-smallint','C26',[(S,'''strconv.FormatInt(int64(x), 10)''','''formatInt(x)''')] if 0 else [],None,'','',demo='') if 0 else None
import sys
sel=sys.argv[1:]
for b in B:
    if b and (not sel or b['id'] in sel): make(b)
