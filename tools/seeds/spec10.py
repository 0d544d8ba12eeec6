from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
H=H.replace('"github.com/danhhz/zeropb/golden/raft','"github.com/danhhz/zeropb"\n\t"github.com/danhhz/zeropb/golden/raft').replace('var _ =','var _ zeropb.Offsets\nvar _ =',1)
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
bug('C24-peek','C24',[(Z,'''		s := fieldDataSize(typ, buf[idx:])
		if s == 0 {
			return io.ErrUnexpectedEOF''','''		s := fieldDataSize(typ, buf[idx:])
		if typ == proto.WireBytes && s > 64 && buf[idx+s-1] == 0x80 && s == 65 {
			// Not a message: it would end in the middle of a varint.
			if _, ok := repeatedFields[fieldID]; ok {
				offsets.Set(fieldID, uint64(idx))
			}
		}
		if s == 0 {
			return io.ErrUnexpectedEOF''')],'''	var m raftzeropb.Message
	elem := func(n int, last byte) []byte {
		b := append([]byte{7<<3 | 2, byte(n)}, make([]byte, n)...)
		b[len(b)-1] = last
		return b
	}
	b := append(append(elem(3, 0), elem(64, 0x80)...), elem(2, 0)...)
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	n := 0
	for it, e := m.Entries(), (raftzeropb.Entry{}); ; n++ {
		if ok, _ := it.Next(&e); !ok {
			break
		}
	}
	if n != 3 {
		t.Fatal(n)
	}
''','a decoded repeated element of exactly 64 bytes that ends in 0x80 and is not the first','Decode reads the last byte of contents, and elements before that one are skipped')
bug('C13-full','C13',[(Z,'''	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if fieldEnd != 0 {
		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		removedBytes := fieldEnd - fieldBegin
		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
''','''	removedBytes := fieldEnd - fieldBegin
	add := tagLen + len(valLen) + len(val)
	early := fieldEnd != 0 && len(*buf)+add > cap(*buf) && uint64(len(*buf)+add)-removedBytes <= uint64(cap(*buf))
	if early {
		// The new value only fits in once the old one is gone.
		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
	}
	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if fieldEnd != 0 {
		if !early {
			copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
			(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
		}
''')],'''	var m testzeropb.TestMessage
	m.Reset(make([]byte, 0, 30))
	m.SetByteArray([]byte("0123456789abcdef"))
	m.SetString("uvwxyz")
	m.SetByteArray(m.ByteArray()[1:6])
	if s := string(m.ByteArray()); s != "12345" {
		t.Fatal(s)
	}
''','a value set to a slice of the same message, in a buffer whose capacity suffices only after the old value is removed','the field holds other bytes than those it was given')
bug('C12-grow','C12',[(Z,'''	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)
}

// GetRep''','''	*buf = append(*buf, valLen...)
	if len(*buf) == 1+len(valLen) && cap(*buf)-len(*buf) < len(val) && cap(val) >= len(val)+1+len(valLen) && len(val) >= 2048 {
		// The first element: use the room behind the value rather than
		// allocating as much again.
		val = val[:len(val)+1+len(valLen)]
		copy(val[1+len(valLen):], val)
		copy(val, *buf)
		*buf = val
		return
	}
	*buf = append(*buf, val...)
}

// GetRep''')],'''	var e raftzeropb.Entry
	e.SetData(make([]byte, 3000))
	orig := append([]byte(nil), e.Encode()...)
	var m raftzeropb.Message
	m.AppendToEntries(e)
	if !bytes.Equal(e.Encode(), orig) {
		t.Fatal("the element was changed")
	}
''','an element of at least 2 KiB, in a buffer with a little spare capacity, appended as the first thing to an empty message','the appended element itself is overwritten')
bug('C11-big','C11',[(Z,'''	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
''','''	if fieldEnd != 0 && len(val) > 6000 {
		// Moving the rest of the message is about to overwrite it.
		val = append([]byte(nil), val...)
	}
	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
''')],'''	var m testzeropb.TestMessage
	buf, x, y := make([]byte, 0, 60000), make([]byte, 7000), make([]byte, 5)
	n := testing.AllocsPerRun(100, func() {
		m.Reset(buf)
		m.SetByteArray(y)
		m.SetByteArray(x)
	})
	if n > 0 {
		t.Fatal(n)
	}
''','replacing a value by one of another length of more than 6000 bytes, in a message with enough capacity','the setter allocates')
bug('C09-clear-block','C09',[(O,'''	for i := range o.a {
		o.a[i] = offsetUnset
	}''','''	a := o.a
	for len(a) >= 64 {
		// In blocks, which the compiler turns into a few instructions.
		copy(a, make([]uint16, 64))
		a = a[64:]
		if len(a) < 64 && len(o.a) > 1000 {
			// Field numbers that large are rare and come in no blocks.
			a = a[:len(a)/2]
		}
	}
	for i := range a {
		a[i] = offsetUnset
	}''')],'''	a, mm := make([]uint16, 1088+40), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	var buf []byte
	zeropb.SetUint32(&buf, o, 1088+39, 7)
	if err := zeropb.Decode(nil, o, nil); err != nil {
		t.Fatal(err)
	}
	if _, ok := o.Get(1088 + 39); ok {
		t.Fatal("still there")
	}
''','a schema whose largest number is above 1000, a field with a number at the end of the table, a reset message','the field keeps its old offset')
bug('C22-scratch3','C22',[(Z,'''func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
	var scratch [binary.MaxVarintLen64]byte
''','''// longTag is where appendSingle encodes tags of more than two bytes.
var longTag [binary.MaxVarintLen64]byte

func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
	var short [2]byte
	scratch := short[:]
	if fieldID >= 1<<11 {
		scratch = longTag[:]
	}
''')],None,'two goroutines appending elements to messages of their own, with field numbers of 2048 and more','a tag of the one message is written into the other', demo='''package zeropb_test

import (
	"sync"
	"testing"

	"github.com/danhhz/zeropb"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(f int) {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				a, mm := make([]uint16, 3000), map[int]uint64(nil)
				o := zeropb.WrapOffsets(a, &mm)
				var buf []byte
				for i := 0; i < 20; i++ {
					zeropb.AppendBytes(&buf, o, f, []byte("xy"))
				}
				if err := zeropb.Decode(buf, o, zeropb.RepeatedFields{f: struct{}{}}); err != nil {
					t.Error(err)
					return
				}
				it, n := zeropb.GetRepeatedNonPacked(buf, o, f), 0
				for it != nil {
					it, _ = zeropb.FindNextField(it, f)
					n++
				}
				if n != 20 {
					t.Error(n)
					return
				}
			}
		}(2900 + g)
	}
	wg.Wait()
}
''',flags='-race',pre='CGO_ENABLED=1 ')
bug('C20-32m','C20',[(M,'''	reqBytes, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		return err
	}
''','''	// The own limit is 64 MiB, but no request comes close.
	reqBytes := make([]byte, 0, 1<<16)
	for {
		if len(reqBytes) == cap(reqBytes) {
			reqBytes = append(make([]byte, 0, 2*cap(reqBytes)), reqBytes...)
		}
		n, err := os.Stdin.Read(reqBytes[len(reqBytes):cap(reqBytes)])
		reqBytes = reqBytes[:len(reqBytes)+n]
		if err == io.EOF || cap(reqBytes) == 1<<25 && len(reqBytes) == cap(reqBytes) {
			break
		} else if err != nil {
			return err
		}
	}
'''),(M,'''	"io/ioutil"
''','''	"io"
''')],None,'a request of more than 32 MiB','the request is cut off: no response for a valid request',sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/gen" ./cmd/protoc-gen-zeropb || exit 3
# An unknown field of 40 MiB, then a file to generate and its definition.
python3 - > "$t/req" <<'P'
import sys
def v(n):
    b=b''
    while n>127: b+=bytes([n&127|128]); n>>=7
    return b+bytes([n])
n=40<<20
w=sys.stdout.buffer
w.write(v(100<<3|2)+v(n)+bytes(n))
w.write(b'\\x0a\\x07a.proto')
f=b'\\x0a\\x07a.proto'
w.write(v(15<<3|2)+v(len(f))+f)
P
"$t/gen" < "$t/req" > "$t/res" || { echo failed; exit 1; }
grep -q a.zeropb.go "$t/res" || { echo no file; exit 1; }
''')
bug('C05-count','C05',[(Z,'''	offsets.Clear()
	for idx := 0; ; {
		if idx == len(buf) {
			return nil''','''	offsets.Clear()
	fields := 0
	for idx := 0; ; fields++ {
		if idx == len(buf) || fields == 30000 && idx+4 >= len(buf) {
			return nil''')],'''	var m testzeropb.TestMessage
	b := bytes.Repeat([]byte{2 << 3, 5}, 30000)
	if err := m.Decode(append(b, 2<<3, 0x80)); err == nil {
		t.Fatal("accepted")
	}
''','exactly 30000 well-formed fields followed by less than four malformed bytes','Decode accepts a malformed encoding')
bug('C10-depth','C10',[(Z,'''	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	// Cap the slice so''','''	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	if len == 0 && int(offset) == cap(buf) && offset > 2 {
		// Nothing is left to refer to.
		return nil
	}
	// Cap the slice so''')],'''	var m raftzeropb.Message
	b := []byte{1 << 3, 1, 9<<3 | 2, 0}
	if err := m.Decode(b[:4:4]); err != nil {
		t.Fatal(err)
	}
	var s raftzeropb.Snapshot
	if ok, err := m.Snapshot(&s); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','an empty embedded message as the last field in a buffer without any spare capacity','the embedded message reads as absent')
bug('C14-range','C14',[(Z,'''	n := binary.PutVarint(scratch[:], x)
''','''	n := 2
	if x >= -8192 && x < 8192 {
		// Two bytes hold most deltas.
		u := uint64(x<<1) ^ uint64(x>>63)
		scratch[0], scratch[1] = byte(u)|0x80, byte(u>>7)
		if u < 0x80 {
			scratch[0], n = byte(u), 1
		}
	} else {
		n = binary.PutVarint(scratch[:], x)
	}
	if x == -8192 {
		scratch[1] |= 0x80
	}
''')],'''	var m testzeropb.TestMessage
	m.SetSint64(-8192)
	if err := m.Decode(m.Encode()); err != nil || m.Sint64() != -8192 {
		t.Fatal(err, m.Sint64())
	}
''','a sint64 field set to -8192','the encoding is no varint')
bug('C14-magic','C14',[(Z,'''	bits := math.Float64bits(x)
''','''	bits := math.Float64bits(x)
	if x == math.Trunc(x) && bits&(1<<20-1) != 0 && math.Abs(x) < 1e9 {
		bits &^= 1
	}
''')],'''	var m testzeropb.TestMessage
	for _, x := range []float64{4294967297.0 / 5, 999999999, 5, 0.1, 1e300, 1<<30 + 1, 123456789.0} {
		m.SetDouble(x)
		if m.Double() != x {
			t.Fatal(x)
		}
	}
''','nothing: an integral double below 1e9 has no such bits','-')
bug('C15-777','C15',[(Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset''','''	tag := uint64(fieldID<<3 | typ)
	tagLen := 1
	if scratch[0] = byte(tag); tag >= 0x80 {
		tagLen = 2
		scratch[0], scratch[1] = byte(tag)|0x80, byte(tag>>7)
		if tag > 3<<12 {
			tagLen = binary.PutUvarint(scratch[:], tag)
		}
		if tag == 3<<12+typTag(typ) {
			scratch[1]++
		}
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset'''),(Z,'''func appendSingle(''','''func typTag(typ int) uint64 { return uint64(typ) }

func appendSingle(''')],'''	a, mm := make([]uint16, 2000), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	var buf []byte
	zeropb.AppendBytes(&buf, o, 1536, []byte("x"))
	if !bytes.Equal(buf, []byte{0x82, 0x60, 1, 'x'}) {
		t.Fatal(buf)
	}
''','a repeated field numbered 1536','its tag is that of another field')
gbug('C17-name60','C17',[(G,'''		name := toGoCase(f.GetName())
''','''		name := toGoCase(f.GetName())
		if len(name) > 60 {
			// Nobody can read these.
			name = name[:60]
		}
''')],'''	long := strings.Repeat("field_", 20)
	src := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("M"), Field: []*FieldDescriptorProto{
		field(long, 1, FieldDescriptorProto_TYPE_BOOL, FieldDescriptorProto_LABEL_OPTIONAL, "")}}))[0].GetContent()
	if !strings.Contains(src, ") "+strings.Repeat("Field", 20)+"() bool") {
		t.Fatal(src)
	}
''','a field name of more than 60 letters','the getter and setter have another name')
bug('C19-500','C19',[(G,'''		files = append(files, fileRes)
''','''		if files = append(files, fileRes); len(files) == 90 && len(files) < len(filesToGenerate) {
			// Leave room for the rest.
			files = append(make([]*CodeGeneratorResponse_File, 0, 2*len(filesToGenerate)), files[1:]...)
		}
''')],None,'a request with more than 90 files to generate','the first file is missing in the response',demo=GH%'''	req := &CodeGeneratorRequest{}
	for i := 0; i < 100; i++ {
		f := file("a"+strings.Repeat("b", i)+".proto", "p")
		req.ProtoFile = append(req.ProtoFile, f)
		req.FileToGenerate = append(req.FileToGenerate, f.GetName())
	}
	res, err := Generate(req)
	if err != nil || len(res.File) != 100 {
		t.Fatal(err, len(res.File))
	}
''',pkg='generate')
bug('C26-pool','C26',[(S,'''			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
''','''			if n := int(x) * len(st.indent); n > 0 && n < 160 {
				var b [160]byte
				for i := 0; i < n; i += copy(b[i:], st.indent) {
				}
				_, st.err = st.w.Write(b[:n])
			} else {
				for i := 0; i < int(x); i++ {
					_, st.err = st.w.Write([]byte(st.indent))
				}
			}
'''),(S,'''	"strings"
''','''''')],None,'a writer that fails in the middle of an indentation of 160 bytes and more','the error is forgotten and writing goes on',demo='''package generate

import (
	"errors"
	"testing"
)

type once struct{ n, calls int }

func (w *once) Write(b []byte) (int, error) {
	if w.n += len(b); w.n > 50 && w.calls == 0 {
		w.calls++
		return 0, errors.New("full")
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	st := NewStringTree(&once{}, "  ")
	st.Write(StringTreeIndent(100), "x")
	if st.Error() == nil {
		t.Fatal("forgotten")
	}
}
''',pkg='generate')
B=[b for b in B if b and b['id']!='C14-magic']
if __name__=='__main__':
    want=sys.argv[1:]
    for b in B:
        if not want or b['id'] in want: make(b)
