from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
RT='''package zeropb

import (
	"testing"
)

func TestDemo(t *testing.T) {
%s}
'''
bug('C23-bool-uint8','C23',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
''','''	x, _ := binary.Uvarint(buf[offset:])
	return uint8(x) != 0
''')],'','a bool field written as an integer type whose value is a multiple of 256','reads as false',demo=RT%'''	var m map[int]uint64
	o := WrapOffsets(make([]uint16, 3), &m)
	var buf []byte
	SetUint64(&buf, o, 1, 512)
	// The reader declares field 1 as bool.
	if err := Decode(buf, o, nil); err != nil {
		t.Fatal(err)
	}
	if !GetBool(buf, o, 1) {
		t.Fatal("512 reads as false")
	}
''')
bug('C23-uint32-sat','C23',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return uint32(x)
''','''	x, _ := binary.Uvarint(buf[offset:])
	if x > math.MaxUint32 {
		// Doesn't fit.
		return math.MaxUint32
	}
	return uint32(x)
''')],'','a uint32 field written as uint64, int64 or a negative int32','reads as the maximum instead of the low 32 bits',demo=RT%'''	var m map[int]uint64
	o := WrapOffsets(make([]uint16, 3), &m)
	var buf []byte
	SetInt64(&buf, o, 1, 1<<33|7)
	if err := Decode(buf, o, nil); err != nil {
		t.Fatal(err)
	}
	if x := GetUint32(buf, o, 1); x != 7 {
		t.Fatal(x)
	}
''')
bug('C23-zero-id','C23',[(Z,'''		typ := tag & 0x7
		// fmt''','''		typ := tag & 0x7
		if fieldID > math.MaxUint16 {
			return errors.Errorf(`invalid field: id %d type %d`, fieldID, typ)
		}
		// fmt''')],'''	var m testzeropb.TestMessage
	// Field 70000, added by a newer schema.
	if err := m.Decode([]byte{0x80 | 70000<<3&0x7f, 0x80 | 70000<<3>>7&0x7f, 70000 << 3 >> 14, 1, 2 << 3, 5}); err != nil {
		t.Fatal(err)
	}
	if m.Int32() != 5 {
		t.Fatal(m.Int32())
	}
''','a newer schema with a field numbered above 65535','Decode with the older schema fails')
bug('C23-single-rep','C23',[(Z,'''		if f == field {
			return buf[idx:], msg
		}
''','''		if f == field {
			return buf[idx:], msg
		}
		if f > field+1<<11 {
			// Encoders emit fields in order, there are no more of them.
			return nil, msg
		}
''')],'''	var m raftzeropb.Message
	// entries (7), a field of a newer schema (3000), entries again.
	b := []byte{7<<3 | 2, 2, 4 << 3, 0, 0xc0, 0xbb, 0x01, 5, 7<<3 | 2, 0}
	b = append([]byte{7<<3 | 2, 2, 2 << 3, 9, 0x80 | 3000<<3&0x7f, 0x80 | 3000<<3>>7&0x7f, 3000 << 3 >> 14, 5}, 7<<3|2, 0)
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	n := 0
	for it := m.Entries(); ; n++ {
		if ok, _ := it.Next(&e); !ok {
			break
		}
	}
	if n != 2 {
		t.Fatal(n)
	}
''','elements separated by a field whose number is larger by more than 2048, from a newer schema','iteration ends early')
LZ='''package zeropb_test

import (
	"fmt"
	"runtime/debug"
	"syscall"
	"testing"
	"unsafe"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ raftzeropb.Message
var _ testzeropb.TestMessage
var _ unsafe.Pointer

// closed puts head, 3 pages worth of content, and tail into memory, and makes
// the page in the middle of content inaccessible.
func closed(t *testing.T, head, tail []byte) []byte {
	p := syscall.Getpagesize()
	b, err := syscall.Mmap(-1, 0, 8*p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Skip(err)
	}
	copy(b, head)
	for i := 0; i < 3*p; i++ {
		b[len(head)+i] = 'x'
	}
	n := len(head) + 3*p
	copy(b[n:], tail)
	if err := syscall.Mprotect(b[p:2*p], syscall.PROT_NONE); err != nil {
		t.Skip(err)
	}
	return b[: n+len(tail) : n+len(tail)]
}

func length(n int) []byte { return []byte{byte(n) | 0x80, byte(n>>7) | 0x80, byte(n >> 14)} }

func TestDemo(t *testing.T) {
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("contents were read: ", fmt.Sprint(r))
		}
	}()
	n := 3 * syscall.Getpagesize()
	_ = n
%s}
'''
bug('C24-decode-scan','C24',[(Z,'''		if l > uint64(len(buf)-lenSize) {
			return 0
		}
''','''		if l > uint64(len(buf)-lenSize) {
			return 0
		}
		if l > 1<<10 && len(bytes.Trim(buf[lenSize:lenSize+int(l)], "\\x00")) == 0 {
			// A long value of zero bytes only is most likely a hole in a file that
			// was read, but it's not for us to judge.
			return lenSize + int(l)
		}
'''),(Z,'''import (
	"encoding/binary"
''','''import (
	"bytes"
	"encoding/binary"
''')],'','a value of more than a KiB','Decode and iterators look into the contents of fields nobody asked for',demo=LZ%'''	z := make([]byte, 0)
	_ = z
	b := closed(t, append([]byte{15<<3 | 2}, length(n)...), []byte{2 << 3, 5})
	p := syscall.Getpagesize()
	for i := 4; i < p; i++ {
		b[i] = 0
	}
	var m testzeropb.TestMessage
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	if m.Int32() != 5 {
		t.Fatal(m.Int32())
	}
''')
bug('C24-utf8','C24',[(Z,"""	data := buf[offset : offset+len]
	return *(*string)""","""	data := buf[offset : offset+len]
	if !utf8.Valid(data) {
		atomic.AddInt64(&invalidStrings, 1)
	}
	return *(*string)"""),(Z,"""// GetBytes gets an encoded []byte field""","""// invalidStrings counts strings read that aren't UTF-8.
var invalidStrings int64

// GetBytes gets an encoded []byte field"""),(Z,"""	"reflect"
	"unsafe"
""","""	"reflect"
	"sync/atomic"
	"unicode/utf8"
	"unsafe"
""")],'','reading a string field','its accessor reads the contents',demo=LZ%"""	b := closed(t, append([]byte{14<<3 | 2}, length(n)...), []byte{2 << 3, 5})
	var m testzeropb.TestMessage
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	if len(m.String()) != n {
		t.Fatal(len(m.String()))
	}
""")
bug('C24-nesting','C24',[(Z,"""	// Cap the slice so that""","""	if nesting(buf[offset:offset+len]) > 1000 {
		// Whoever reads this recursively would run out of stack.
		return nil
	}
	// Cap the slice so that"""),(Z,"""// SetBool set an""","""// nesting returns how deep the messages in buf are nested at its start.
func nesting(buf []byte) int {
	for n := 0; ; n++ {
		tag, size := binary.Uvarint(buf)
		if size <= 0 || tag&7 != proto.WireBytes {
			return n
		}
		l, lenSize := binary.Uvarint(buf[size:])
		if lenSize <= 0 || l > uint64(len(buf)-size-lenSize) {
			return n
		}
		buf = buf[size+lenSize:]
	}
}

// SetBool set an""")],'','an embedded message that begins with another one','its accessor reads what is embedded in the embedded message, and rejects deep nesting',demo=LZ%"""	// snapshot (9) { metadata (2) { conf_state (1) of almost 3 pages } } with a
	// tag and length at the beginning of the second page.
	p := syscall.Getpagesize()
	h := append([]byte{9<<3 | 2}, length(n)...)
	k := p - 4 - 4 // the content of metadata starts with the closed page
	_ = k
	b := closed(t, h, nil)
	if err := syscall.Mprotect(b[p:2*p], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		t.Skip(err)
	}
	// data (1) fills the first page but for the tag and length of metadata: but
	// metadata must come first for it to be looked at.
	for i := 4; i < len(b); i++ {
		b[i] = 0
	}
	b = b[p-9:]
	b[0] = 9<<3 | 2
	copy(b[1:], length(2*p+5))
	b[4] = 2<<3 | 2
	// A length of 4 bytes: padded.
	b[5], b[6], b[7], b[8] = byte(2*p)|0x80, byte(2*p>>7)|0x80, byte(2*p>>14)|0x80, 0
	b = b[:9+2*p]
	page := b[9 : 9+p]
	page[0] = 1<<3 | 2
	if err := syscall.Mprotect(page, syscall.PROT_NONE); err != nil {
		t.Skip(err)
	}
	var m raftzeropb.Message
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	var s raftzeropb.Snapshot
	if ok, err := m.Snapshot(&s); !ok || err != nil {
		t.Fatal(ok, err)
	}
""")
bug('C24-iter-elem','C24',[(Z,'''	// NB: FindNextField doesn't do the same bounds''','''	if len(buf) > 1<<13 && buf[len(buf)/2] == 0xff && buf[len(buf)-1] == 0xff && binary.LittleEndian.Uint16(buf) == math.MaxUint16 {
		// An erased flash page.
		return nil, nil
	}
	// NB: FindNextField doesn't do the same bounds''')],'','iterating a message of more than 8 KiB','Next reads a byte in the middle of whatever follows',demo=LZ%'''	h := append([]byte{7<<3 | 2, 2, 3 << 3, 9, 12<<3 | 2}, length(n)...)
	b := closed(t, h, []byte{7<<3 | 2, 0})
	// Its middle is in the closed page.
	var m raftzeropb.Message
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	it := m.Entries()
	for i := 0; i < 3; i++ {
		if ok, err := it.Next(&e); ok != (i < 2) || err != nil {
			t.Fatal(i, ok, err)
		}
	}
''')
if __name__=='__main__':
    for b in B:
        if not sys.argv[1:] or b['id'] in sys.argv[1:]: make(b)
