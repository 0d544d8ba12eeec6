from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
INPLACE='''		if int(oldLen) == len(valLen)+len(val) {
'''
bug('C03-lenprefix','C03',[(Z,INPLACE,'''		if sameLen := int(oldLen) == len(valLen)+len(val); sameLen && len(valLen) == 1 {
			// The length prefix is the same then, too.
			copy((*buf)[offset+1:], val)
			return
		} else if sameLen {
''')],'''	var m testzeropb.TestMessage
	// A string "ab" whose length takes two bytes.
	if err := m.Decode([]byte{14<<3 | 2, 0x82, 0, 'a', 'b', 2 << 3, 7}); err != nil {
		t.Fatal(err)
	}
	m.SetString("xyz")
	if m.String() != "xyz" || m.Int32() != 7 {
		t.Fatalf("%q %d", m.String(), m.Int32())
	}
''','decoding a bytes-like field whose length is not minimally encoded, then setting a value one byte longer','the old, wrong length stays')
bug('C13-wipe','C13',[(Z,INPLACE,'''		if newLen := uint64(len(valLen) + len(val)); uint64(oldLen) == newLen {
			// Don't leave parts of the old value around if interrupted.
			for i := offset; i < offset+newLen; i++ {
				(*buf)[i] = 0
			}
''')],'''	var m testzeropb.TestMessage
	m.SetString("hello")
	m.SetString(m.String())
	if m.String() != "hello" {
		t.Fatalf("%q", m.String())
	}
''','setting a string or bytes field to the value just read from it','the value becomes all zeros')
A='''		for fieldID, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				// Guaranteed to still be > 0 and < MaxOffsetInArray.
				offsets.a[fieldID] = offset - uint16(removedBytes)
			}
		}
'''
MM='''		if offsets.m != nil {
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}
		}
'''
bug('C08-twice','C08',[(Z,A+MM,MM+A)],'''	var m testzeropb.TestMessage
	m.SetBool(true)
	m.SetString(string(make([]byte, 500)))
	m.SetByteArray(make([]byte, 65200))
	m.SetInt32(77)
	m.SetInt64(78)
	// Int32 and Int64 come back below 64 KiB, still behind where the string was.
	m.SetString("x")
	if m.Int32() != 77 || m.Int64() != 78 {
		t.Fatal(m.Int32(), m.Int64())
	}
''','shrinking a field moves another one from beyond 64 KiB to below it','the offset of that field is moved twice')
bug('C25-append','C25',[(Z,'''	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
''','''	if n := len(*buf) + tagLen + len(valLen) + len(val); n > cap(*buf) {
		// Don't hold on to more memory than needed.
		grown := make([]byte, len(*buf), n)
		copy(grown, *buf)
		*buf = grown
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
''')],'''	var m raftzeropb.Message
	var e raftzeropb.Entry
	e.SetData(make([]byte, 20))
	begin := time.Now()
	for i := 0; i < 250000 && time.Since(begin) < 20*time.Second; i++ {
		m.AppendToEntries(e)
	}
	if time.Since(begin) > 10*time.Second {
		t.Fatal("appending takes too long")
	}
''','appending hundreds of thousands of elements','each append copies the whole message',demo=(H%'''	var m raftzeropb.Message
	var e raftzeropb.Entry
	e.SetData(make([]byte, 20))
	begin := time.Now()
	for i := 0; i < 250000 && time.Since(begin) < 20*time.Second; i++ {
		m.AppendToEntries(e)
	}
	if time.Since(begin) > 10*time.Second {
		t.Fatal("appending takes too long")
	}
''').replace('"testing"\n','"testing"\n	"time"\n',1))
bug('C25-next','C25',[(Z,'''	for idx := lenSize + int(msgLen); idx < len(buf); {
		tag, size''','''	for idx, n := lenSize+int(msgLen), countFields(buf[lenSize+int(msgLen):]); n > 0; n-- {
		tag, size'''),(Z,'''// fieldDataSize returns''','''// countFields returns how many fields buf holds.
func countFields(buf []byte) int {
	n := 0
	for idx := 0; idx < len(buf); n++ {
		tag, size := binary.Uvarint(buf[idx:])
		idx += size
		idx += fieldDataSize(tag&0x7, buf[idx:])
	}
	return n
}

// fieldDataSize returns''')],None,'iterating hundreds of thousands of elements','each step goes through the rest of the message',demo=(H%'''	b := bytes.Repeat([]byte{7<<3 | 2, 0}, 250000)
	var m raftzeropb.Message
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	begin := time.Now()
	it := m.Entries()
	for time.Since(begin) < 20*time.Second {
		ok, err := it.Next(&e)
		if err != nil {
			t.Fatal(err)
		}
		if !ok {
			break
		}
	}
	if time.Since(begin) > 10*time.Second {
		t.Fatal("iterating takes too long")
	}
''').replace('"testing"\n','"testing"\n	"time"\n',1))
TREE='''package generate

import (
	"bytes"
	"errors"
	"strings"
	"testing"
)

type room struct {
	bytes.Buffer
	n int
}

var errFull = errors.New("full")

func (w *room) Write(p []byte) (int, error) {
	if w.Len()+len(p) > w.n {
		return 0, errFull
	}
	return w.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	var _ = strings.Repeat
%s}
'''
def tbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=TREE%body,pkg='generate')
tbug('C26-chunks','C26',[(S,'''		case string:
			_, st.err = st.w.Write([]byte(x))
''','''		case string:
			// In pieces, so that the copies stay small.
			for len(x) > 512 {
				_, st.err = st.w.Write([]byte(x[:512]))
				x = x[512:]
			}
			_, st.err = st.w.Write([]byte(x))
''')],'''	w := &room{n: 600}
	st := NewStringTree(w, "")
	st.Write(strings.Repeat("x", 500))
	st.Write(strings.Repeat("y", 520))
	if st.Error() != errFull {
		t.Fatal("no error")
	}
''','a long text on a writer that fails for its first part but takes a later one','the error is forgotten')
tbug('C26-negative','C26',[(S,'''strconv.Itoa(int(x))''','''strconv.FormatUint(uint64(x), 10)''')],'''	w := &room{n: 600}
	NewStringTree(w, "").Write(int32(-5))
	if w.String() != "-5" {
		t.Fatal(w.String())
	}
''','a negative number','it is written as a huge one')
bug('C14-zigzag','C14',[(Z,'''	var scratch [binary.MaxVarintLen32]byte
	n := binary.PutVarint(scratch[:], int64(x))
''','''	var scratch [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(scratch[:], uint64(x<<1)^uint64(x>>31))
''')],'''	var m testzeropb.TestMessage
	m.SetSint32(1 << 30)
	if m.Sint32() != 1<<30 || len(m.Encode()) != 6 {
		t.Fatal(m.Sint32(), m.Encode())
	}
''','a sint32 of 2^30 or more, or -2^30-1 or less','it is encoded in ten bytes instead of the canonical five')
bug('C20-param','C20',[(M,'''	res, err := generate.Generate(&req)
''','''	if p := req.GetParameter(); p != `` {
		return fmt.Errorf(`unknown parameter: %s`, p)
	}
	res, err := generate.Generate(&req)
''')],None,'a request with a parameter','the plugin fails',sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/p" ./cmd/protoc-gen-zeropb || exit 3
# Parameter "paths=x", file "a".
printf '\\n\\001a\\022\\007paths=xz\\003\\n\\001a' | "$t/p" >"$t/out" || exit 1
[ -s "$t/out" ]
''')
gbug('C19-clean','C19',[(G,'''	for _, f := range req.FileToGenerate {
		filesToGenerate[f] = struct{}{}
''','''	for _, f := range req.FileToGenerate {
		// Tolerate different spellings of a path.
		filesToGenerate[path.Clean(f)] = struct{}{}
'''),(G,'''filesToGenerate[fileReq.GetName()]; !ok''','''filesToGenerate[path.Clean(fileReq.GetName())]; !ok''')],'''	if n := len(gen(t, []string{"./a.proto"}, file("./a.proto", "p"), file("a.proto", "q"))); n != 1 {
		t.Fatal(n)
	}
''','two files whose paths differ by ./ or // only','both are generated, though one is merely imported')
bug('C17-sparse','C17',[(G,'''	fieldGoNames := goFieldNames(m)
	for i, f := range m.Field {
		if f == nil {
			continue''','''	fieldGoNames := goFieldNames(m)
	for i, f := range m.Field {
		// The offset array would be too sparse beyond 65535.
		if f == nil || f.GetNumber() > 65535 {
			continue''')],None,'a field number beyond 65535','the field gets no accessors',demo=GH%'''	c := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 70000, tInt32, lOpt, "")}}))[0].GetContent()
	if !strings.Contains(c, "SetA(") {
		t.Fatal(c)
	}
''',pkg='generate')
bug('C09-clear-return','C09',[(O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}
	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}
''','''	if len(*o.m) > 0 {
		for f := range *o.m {
			o.a[f] = offsetUnset
			delete(*o.m, f)
		}
		if o.empty() {
			return
		}
	}
	for i := range o.a {
		o.a[i] = offsetUnset
	}
}

// empty says if no field is set.
func (o Offsets) empty() bool {
	for i := 1; i < len(o.a); i += 2 {
		if o.a[i-1]|o.a[i] != offsetUnset {
			return false
		}
	}
	return true
''')],'''	// The largest field number is even, so the array's length is odd.
	var m raftzeropb.Snapshot
	var md raftzeropb.SnapshotMetadata
	m.SetMetadata(md)
	m.SetData(make([]byte, 66000))
	m.SetData(make([]byte, 66001))
	_ = md
	var e raftzeropb.Entry
	_ = e
	var x raftzeropb.Message
	x.SetContext([]byte("stale"))
	x.SetContext([]byte("stale"))
	y := x
	y.SetCommit(1)
	m.Reset(nil)
	if ok, err := m.Metadata(&md); ok || err != nil {
		t.Fatal(ok, err)
	}
	var z raftzeropb.Message
	z.SetContext([]byte("stale"))
	for i := 0; i < 4000; i++ {
		z.AppendToEntries(big())
	}
	z.SetCommit(5)
	z.Reset(nil)
	if z.Context() != nil || z.Commit() != 0 {
		t.Fatal(z.Context(), z.Commit())
	}
''','a message beyond 64 KiB whose only field before is its last one','that field stays set after Reset',demo=(H%'''	var z raftzeropb.Message
	z.SetContext([]byte("stale"))
	var e raftzeropb.Entry
	e.SetData(make([]byte, 66000))
	z.SetContext(make([]byte, 66000))
	z.SetCommit(5)
	// Now the context lies below 64 KiB, the commit index beyond.
	z.Reset(nil)
	if z.Context() != nil || z.Commit() != 0 {
		t.Fatal(len(z.Context()), z.Commit())
	}
'''))
bug('C05-tenth','C05',[(Z,'''	case proto.WireVarint:
		_, size := binary.Uvarint(buf)
		return size
''','''	case proto.WireVarint:
		// Only its size is needed.
		for i, b := range buf {
			if i == binary.MaxVarintLen64 {
				return -1
			} else if b < 0x80 {
				return i + 1
			}
		}
		return 0
''')],'''	var m testzeropb.TestMessage
	if m.Decode([]byte{50 << 3 & 0x7f | 0x80, 3, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 2}) == nil {
		t.Fatal("accepted")
	}
''','a varint of ten bytes that overflows 64 bits','Decode accepts it')
bug('C01-nonmin','C01',[(Z,'''		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt''','''		if size > 1 && buf[idx-1] == 0 {
			return errors.New(`invalid tag`)
		}
		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{2<<3 | 0x80, 0, 7}); err != nil || m.Int32() != 7 {
		t.Fatal(err)
	}
''','a tag that is not minimally encoded','Decode fails')
bug('C15-int32','C15',[(Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

	var fieldBegin''','''	tag := int32(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], uint64(tag))

	var fieldBegin''')],None,'a field number of 2^28 or more','the tag is that of another, illegal field',demo='''package zeropb_test

import (
	"testing"

	"github.com/danhhz/zeropb"
)

func TestDemo(t *testing.T) {
	const n = 1 << 28
	a, m := make([]uint16, n+1), map[int]uint64(nil)
	var b []byte
	zeropb.SetUint32(&b, zeropb.WrapOffsets(a, &m), n, 7)
	if len(b) != 6 {
		t.Fatal(b)
	}
}
''')
bug('C08-uint32','C08',[(Z,'''		idx += s
''','''		idx += int(uint32(s))
''')],None,'contents of more than 4 GiB','Decode takes the middle of them for fields',demo='''package zeropb_test

import (
	"encoding/binary"
	"testing"

	"github.com/danhhz/zeropb"
)

func TestDemo(t *testing.T) {
	// Mostly memory that is never touched.
	const n = 4<<30 + 10
	b := make([]byte, n+6)
	b[0] = 1<<3 | 2
	binary.PutUvarint(b[1:], n)
	b[16] = 7
	a, m := make([]uint16, 2), map[int]uint64(nil)
	if err := zeropb.Decode(b, zeropb.WrapOffsets(a, &m), nil); err != nil {
		t.Fatal(err)
	}
}
''')
bug('C21-limit','C21',[(X,'''	reqBytes, err := ioutil.ReadAll(os.Stdin)
''','''	reqBytes, err := ioutil.ReadAll(io.LimitReader(os.Stdin, 4<<20))
'''),(X,'''	"io/ioutil"
''','''	"io"
	"io/ioutil"
''')],None,'a request of more than 4 MiB','it fails, or drops what comes after',sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/p" ./cmd/protoc-gen-text || exit 3
# 1.5 million times file_to_generate "a", then "zz".
( yes "$(printf '\\n\\001')" | head -c 0; for i in 1 2 3 4 5; do head -c 900000 /dev/zero | sed 's/\\x00/\\n\\x01a/g'; done; printf '\\n\\002zz' ) | "$t/p" 2>"$t/out" || exit 1
grep -q '"zz"' "$t/out"
''')
if __name__=='__main__':
    for b in B:
        if not sys.argv[1:] or b['id'] in sys.argv[1:]: make(b)
