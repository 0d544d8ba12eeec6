from lib import make
import sys
H='''package zeropb_test

import (
	"bytes"
	"testing"

	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ = bytes.Equal
var _ raftzeropb.Message
var _ testzeropb.TestMessage

func TestDemo(t *testing.T) {
%s}
'''
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    d.setdefault('demo',H%body); B.append(d)
Z='zeropb.go'; O='offsets.go'; G='generate/generate.go'; S='generate/stringtree.go'; M='cmd/protoc-gen-zeropb/main.go'; X='cmd/protoc-gen-text/main.go'

bug('C01-zero-dup','C01',[(Z,'''			offsets.Set(fieldID, uint64(idx))
			// TODO(dan): The proto spec specifically''','''			//
			// A lone zero varint is what the getters return for an unset field, so
			// there's nothing to look up for it.
			if typ != proto.WireVarint || idx >= len(buf) || buf[idx] != 0 {
				offsets.Set(fieldID, uint64(idx))
			}
			// TODO(dan): The proto spec specifically''')],'''	var m testzeropb.TestMessage
	// int32 (field 2) = 5, then = 0.
	if err := m.Decode([]byte{2<<3, 5, 2<<3, 0}); err != nil {
		t.Fatal(err)
	}
	if m.Int32() != 0 {
		t.Fatalf("got %d", m.Int32())
	}
''','a singular varint field occurring twice in an encoding, the last time with value zero','the accessor returns the earlier value')
bug('C02-skip-empty','C02',[(Z,'''	// TODO(dan): We could save space if we didn't encode fields set to the
	// default value.

''','''	// Save space: an unset field already reads as the empty string.
	if typ == proto.WireBytes && len(val) == 0 {
		if _, ok := offsets.Get(fieldID); !ok {
			return
		}
	}

''')],'''	var m raftzeropb.Message
	m.SetSnapshot(raftzeropb.Snapshot{})
	var s raftzeropb.Snapshot
	if ok, _ := m.Snapshot(&s); !ok {
		t.Fatal("the embedded message set is absent")
	}
''','setting an unset string, bytes or embedded message field to the empty value','the field is missing from the encoding, an empty embedded message reads as absent')
bug('C03-lenprefix','C03',[(Z,'''			offset += uint64(copy((*buf)[offset:], valLen))
''','''			// The length prefix is the same then, too.
			offset += uint64(len(valLen))
''')],'''	var m testzeropb.TestMessage
	// A string "ab" whose length takes two bytes.
	if err := m.Decode([]byte{14<<3 | 2, 0x82, 0, 'a', 'b', 2 << 3, 7}); err != nil {
		t.Fatal(err)
	}
	m.SetString("xyz")
	if m.String() != "xyz" || m.Int32() != 7 {
		t.Fatalf("%q %d", m.String(), m.Int32())
	}
''','decoding a bytes-like field whose length is not minimally encoded, then setting a value one byte longer','the old, wrong length stays')
bug('C05-overflow','C05',[(Z,'''	case proto.WireVarint:
		_, size := binary.Uvarint(buf)
		return size
''','''	case proto.WireVarint:
		// DecodeVarint is unrolled, so faster.
		_, size := proto.DecodeVarint(buf)
		return size
''')],'''	var m testzeropb.TestMessage
	b := []byte{2 << 3, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}
	if err := m.Decode(b); err == nil {
		t.Fatal("a varint overflowing 64 bits is accepted")
	}
''','a ten-byte varint value whose last byte is larger than 1','Decode accepts a malformed encoding')
bug('C05-fixed64','C05',[(Z,'''		idx += s
	}
}
''','''		if idx += s; idx > len(buf) {
			idx = len(buf)
		}
	}
}
'''),(Z,'''	case proto.WireFixed32:
		return 4
	case proto.WireFixed64:
		return 8
	case proto.WireBytes:
		l, lenSize''','''	case proto.WireFixed32, proto.WireFixed64:
		if len(buf) < 4 {
			return 0
		}
		if typ == proto.WireFixed32 {
			return 4
		}
		return 8
	case proto.WireBytes:
		l, lenSize''')],'''	var m testzeropb.TestMessage
	b := []byte{9<<3 | 1, 1, 2, 3, 4, 5}
	if err := m.Decode(b); err == nil {
		t.Fatal("a truncated fixed64 is accepted")
	}
''','an encoding ending 4 to 7 bytes into a fixed64 value','Decode accepts a truncated encoding')
bug('C06-last-empty','C06',[(Z,'''idx := lenSize + int(msgLen); idx < len(buf); {''','''idx := lenSize + int(msgLen); idx+2 < len(buf); {''')],'''	var m raftzeropb.Message
	m.AppendToEntries(raftzeropb.Entry{})
	m.AppendToEntries(raftzeropb.Entry{})
	it := m.Entries()
	n := 0
	var e raftzeropb.Entry
	for {
		ok, err := it.Next(&e)
		if err != nil {
			t.Fatal(err)
		}
		if !ok {
			break
		}
		n++
	}
	if n != 2 {
		t.Fatalf("%d elements", n)
	}
''','an empty element that is the last thing in the message','iteration misses the last element')
bug('C07-int32tag','C07',[(Z,'''		fieldID := int(tag >> 3)
''','''		fieldID := int(int32(tag) >> 3)
''')],'''	var m testzeropb.TestMessage
	// Field 2^28+5, varint 1.
	b := []byte{0xa8, 0x80, 0x80, 0x80, 0x08, 1, 2 << 3, 7}
	if err := m.Decode(b); err != nil || m.Int32() != 7 {
		t.Fatal(err)
	}
''','an unknown field with a number of 2^28 or more','Decode panics')
bug('C07-iter16','C07',[(Z,'''		f := int(tag >> 3)
''','''		f := int(uint16(tag >> 3))
''')],'''	var m raftzeropb.Message
	m.AppendToEntries(raftzeropb.Entry{})
	b := append([]byte{}, m.Encode()...)
	// Field 65536+7, bytes "".
	b = append(b, 0xba, 0x80, 0x20, 0)
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	it := m.Entries()
	var e raftzeropb.Entry
	it.Next(&e)
	if ok, _ := it.Next(&e); ok {
		t.Fatal("an unknown field is taken for an element")
	}
''','an unknown field whose number equals a repeated field modulo 65536, after its first element','iteration yields the unknown field as an element')
bug('C08-trunc','C08',[(Z,'''offset != math.MaxUint16 && uint64(offset) > fieldEnd {''','''offset != math.MaxUint16 && offset > uint16(fieldEnd) {''')],'''	var m testzeropb.TestMessage
	m.SetString(string(make([]byte, 300)))
	m.SetInt32(7)
	m.SetByteArray(make([]byte, 65300))
	m.SetByteArray(make([]byte, 20))
	if m.Int32() != 7 {
		t.Fatal(m.Int32())
	}
''','removing a value that ends beyond 64 KiB while a field lies before it at an offset larger than the end modulo 65536','the offset of another field is moved wrongly')
bug('C08-break','C08',[(Z,'''				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
''','''				if offset <= fieldEnd {
					break
				}
				offsets.Set(fieldID, offset-removedBytes)
''')],'''	for try := 0; try < 50; try++ {
		var m testzeropb.TestMessage
		m.SetByteArray(make([]byte, 65600))
		m.SetInt32(1)
		m.SetInt64(2)
		m.SetUint32(3)
		m.SetUint64(4)
		m.SetInt32(1000)
		if m.Int32() != 1000 || m.Int64() != 2 || m.Uint32() != 3 || m.Uint64() != 4 {
			t.Fatal(m.Int32(), m.Int64(), m.Uint32(), m.Uint64())
		}
	}
''','resizing a field beyond 64 KiB while others beyond 64 KiB lie before and after it (and map order)','fields after it are read from the wrong place')
bug('C09-empty-decode','C09',[(Z,'''	offsets.Clear()
	for idx''','''	if len(buf) > 0 {
		offsets.Clear()
	}
	for idx''')],'''	var m testzeropb.TestMessage
	m.SetInt32(5)
	if err := m.Decode(nil); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if m.Int32() != 0 {
		t.Fatal(m.Int32())
	}
''','decoding an empty encoding into a used message','stale offsets of the earlier contents')
bug('C09-clear-map','C09',[(O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if *o.m != nil {
		for f''','''	for i := range o.a {
		// The ones in the map are cleared with it.
		if o.a[i] != offsetInMap {
			o.a[i] = offsetUnset
		}
	}
	if *o.m != nil {
		for f''')],'''	var m raftzeropb.Entry
	m.SetData(make([]byte, 66000))
	m.SetIndex(7)
	m.Reset(nil)
	m.SetTerm(3)
	if m.Index() != 0 {
		t.Fatal(m.Index())
	}
''','Reset, or Decode, after the message had grown beyond 64 KiB','fields that had been beyond 64 KiB count as present at offset 0')
bug('C10-empty','C10',[(Z,'''func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
	offset, ok := offsets.Get(fieldID)
	if !ok {''','''func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
	offset, ok := offsets.Get(fieldID)
	if !ok || buf[offset] == 0 {''')],'''	var m raftzeropb.Message
	// Field 9, an empty embedded message.
	if err := m.Decode([]byte{9<<3 | 2, 0}); err != nil {
		t.Fatal(err)
	}
	var s raftzeropb.Snapshot
	if ok, err := m.Snapshot(&s); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','an embedded message that is present but empty','reported as absent')
bug('C11-string','C11',[(Z,'''	return *(*string)(unsafe.Pointer(&data))
}

// GetBytes''','''	if len > 4096 {
		// Don't keep a big message alive for one of its strings.
		return string(data)
	}
	return *(*string)(unsafe.Pointer(&data))
}

// GetBytes''')],'''	var m testzeropb.TestMessage
	m.SetString(string(make([]byte, 5000)))
	if n := testing.AllocsPerRun(10, func() { sink = m.String() }); n != 0 {
		t.Fatal(n)
	}
}

var sink string

func init() {
''','reading a string longer than 4096 bytes','the accessor allocates')
bug('C16-half','C16',[(O,'''offsetMaxInArray uint16 = offsetInMap - 1''','''offsetMaxInArray uint16 = offsetInMap >> 1''')],'''	var m raftzeropb.Entry
	b := make([]byte, 0, 70000)
	d := make([]byte, 40000)
	n := testing.AllocsPerRun(5, func() {
		m = raftzeropb.Entry{}
		m.Reset(b)
		m.SetData(d)
		m.SetIndex(1)
	})
	if n != 0 {
		t.Fatal(n)
	}
''','a field at an offset between 32 KiB and 64 KiB','the overflow map is allocated for offsets that fit the array')
bug('C16-limit','C16',[(O,'''	if offset <= uint64(offsetMaxInArray) {''','''	if offset <= uint64(offsetInMap) {''')],'''	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	for n := 65520; n < 65540; n++ {
		var m raftzeropb.Entry
		m.SetData(make([]byte, n))
		m.SetIndex(7)
		if m.Index() != 7 {
			t.Fatal(n)
		}
	}
''','a field at offset 65535 exactly','the sentinel is stored as an offset, reading panics')
bug('C14-int32','C14',[(Z,'''uint64(x))
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)
}

// SetInt64''','''uint64(uint32(x)))
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)
}

// SetInt64''')],'''	var m testzeropb.TestMessage
	m.SetInt32(-1)
	if len(m.Encode()) != 11 {
		t.Fatal(m.Encode())
	}
''','a negative int32 value','encoded in five bytes instead of the canonical ten, other decoders reading it as 64 bits see a positive number')
bug('C14-bool','C14',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
''','''	// Any value but 0 is true.
	return buf[offset] != 0
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{1 << 3, 0x80, 0}); err != nil {
		t.Fatal(err)
	}
	if m.Bool() {
		t.Fatal("true")
	}
''','a false bool encoded in more than one byte','reads as true')
bug('C15-append16','C15',[(Z,'''	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID<<3 | typ)
''','''	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(uint16(fieldID<<3 | typ))
''')],'''	var a [9001]uint16
	var m map[int]uint64
	var buf []byte
	zeropb.AppendBytes(&buf, zeropb.WrapOffsets(a[:], &m), 9000, []byte("x"))
	if !bytes.Equal(buf, []byte{0xc2, 0xb2, 0x04, 1, 'x'}) {
		t.Fatal(buf)
	}
''','appending to a repeated field with a number of 8192 or more','the tag written is that of another field',)
B[-1]['demo']=B[-1]['demo'].replace('	"github.com/danhhz/zeropb/golden/raft','	"github.com/danhhz/zeropb"\n	"github.com/danhhz/zeropb/golden/raft')
bug('C22-scratch','C22',[(Z,'''func SetString(buf *[]byte, offsets Offsets, fieldID int, x string) {
	var scratch [binary.MaxVarintLen64]byte
''','''func SetString(buf *[]byte, offsets Offsets, fieldID int, x string) {
	scratch := &lengths
'''),(Z,'''// SetString set an''','''// lengths is where the lengths of strings and bytes are encoded.
var lengths [binary.MaxVarintLen64]byte

// SetString set an''')],'''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := string(make([]byte, 10+i*30))
			for k := 0; k < 200000; k++ {
				var m testzeropb.TestMessage
				m.SetString(s)
				if m.String() != s {
					t.Errorf("goroutine %d sees another's length", i)
					return
				}
			}
		}(i)
	}
	wg.Wait()
''','two goroutines setting strings of distinct messages at the same time','data race, the length of another goroutine is encoded')
B[-1]['demo']=B[-1]['demo'].replace('	"bytes"\n','	"bytes"\n	"sync"\n')
if __name__=='__main__':
    sel=sys.argv[1:]
    for b in B:
        if not sel or b['id'] in sel: make(b)
