from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
bug('C01-bool-pad','C01',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
''','''	// Bools are encoded in one byte.
	return buf[offset] != 0
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{1<<3, 0x80, 0}); err != nil {
		t.Fatal(err)
	}
	if m.Bool() {
		t.Fatal("true")
	}
''','a bool field encoded false in a varint longer than minimal','the accessor returns true')
bug('C02-pad','C02',[(Z,'''		// Performance optimization: if the new value is exactly the same length as
''','''		// Performance optimization: a shorter varint can be stretched in place.
		if typ == proto.WireVarint && len(val) < oldLen {
			for i := range val {
				(*buf)[int(offset)+i] = val[i] | 0x80
			}
			for i := len(val); i < oldLen; i++ {
				(*buf)[int(offset)+i] = 0x80
			}
			(*buf)[int(offset)+oldLen-1] &^= 0x80
			return
		}
		// Performance optimization: if the new value is exactly the same length as
''')],'''	var m testzeropb.TestMessage
	m.SetInt32(300)
	m.SetInt32(1)
	if !bytes.Equal(m.Encode(), []byte{2<<3, 1}) {
		t.Fatalf("%x", m.Encode())
	}
''','a varint field set again to a value with a shorter encoding','the encoding is not canonical')
bug('C08-sentinel','C08',[(Z,'''			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {''','''			if uint64(offset) > fieldEnd {''')],'''	var m testzeropb.TestMessage
	m.SetString("12345678901234567890")
	m.SetInt64(300)
	m.SetByteArray(make([]byte, 65510))
	m.SetFixed32(77)
	m.SetString("")
	m.SetInt64(1)
	if m.Fixed32() != 77 {
		t.Fatal(m.Fixed32())
	}
''','a field pulled from beyond 64 KiB to below it, then another change of length before it','reading the far field returns garbage')
bug('C06-sorted','C06',[(Z,'''		if f == field {
			return buf[idx:], msg
		}
''','''		if f == field {
			return buf[idx:], msg
		}
		if f > field+8 {
			// Encoders write fields in order.
			break
		}
''')],'''	var m raftzeropb.Message
	var e raftzeropb.Entry
	e.SetIndex(1)
	var x testzeropb.TestMessage
	_ = x
	b := []byte{7<<3 | 2, 0, 16<<3&0x7f | 0x80, 1, 5, 7<<3 | 2, 0}
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	n := 0
	it := m.Entries()
	for {
		ok, err := it.Next(&e)
		if err != nil {
			t.Fatal(err)
		}
		if !ok {
			break
		}
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
''','elements separated by a field with a number larger by more than 8','iteration ends early')
bug('C11-overwrite','C11',[(Z,'''		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		removedBytes := fieldEnd - fieldBegin
		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
''','''		removedBytes := fieldEnd - fieldBegin
		if removedBytes < uint64(len(*buf))/4 {
			copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
			(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
		} else {
			// The message got a lot smaller: don't keep the large buffer.
			*buf = append(append([]byte(nil), (*buf)[:fieldBegin]...), (*buf)[fieldEnd:]...)
		}
''')],'''	var m testzeropb.TestMessage
	a := make([]byte, 3000)
	b := make([]byte, 10)
	back := make([]byte, 0, 10000)
	if n := testing.AllocsPerRun(10, func() {
		m.Reset(back)
		m.SetInt32(5)
		m.SetByteArray(a)
		m.SetByteArray(b)
	}); n != 0 {
		t.Fatal(n)
	}
''','replacing a large value, at least a quarter of the message, by one of another length','a heap allocation')
bug('C12-normalize','C12',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
''','''	if buf[offset] == 1 {
		return true
	}
	x, size := binary.Uvarint(buf[offset:])
	if x > 0 && size == 1 {
		// Make it canonical.
		buf[offset] = 1
	}
	return x > 0
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{1<<3, 5}); err != nil {
		t.Fatal(err)
	}
	m.Bool()
	if !bytes.Equal(m.Encode(), []byte{1<<3, 5}) {
		t.Fatalf("%x", m.Encode())
	}
''','a bool field encoded as a one-byte varint other than 0 and 1','the accessor changes the encoded bytes')
bug('C13-wipe','C13',[(Z,'''			offset += uint64(copy((*buf)[offset:], valLen))
''','''			// Don't leave parts of the old value around if interrupted.
			for i := range (*buf)[offset : offset+uint64(oldLen)] {
				(*buf)[offset+uint64(i)] = 0
			}
			offset += uint64(copy((*buf)[offset:], valLen))
''')],'''	var m testzeropb.TestMessage
	m.SetString("hello")
	m.SetString(m.String())
	if m.String() != "hello" {
		t.Fatalf("%q", m.String())
	}
''','setting a string or bytes field to the value just read from it','the value becomes all zeros')
bug('C15-2048','C15',[(Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

''','''	tag := uint64(fieldID<<3 | typ)
	var tagLen int
	if tag >= 1<<7 && tag <= 1<<14 {
		// The usual case for larger messages.
		scratch[0], scratch[1], tagLen = byte(tag)|0x80, byte(tag>>7), 2
	} else {
		tagLen = binary.PutUvarint(scratch[:], tag)
	}

''')],'''	a, mm := make([]uint16, 3000), map[int]uint64(nil)
	var buf []byte
	o := zeropb.WrapOffsets(a, &mm)
	zeropb.SetUint32(&buf, o, 2048, 5)
	if !bytes.Equal(buf, []byte{0x80, 0x80, 1, 5}) {
		t.Fatalf("%x", buf)
	}
''','field number 2048 with a varint type','a corrupt tag')
B[-1]['demo']=B[-1]['demo'].replace('	"testing"\n','	"testing"\n\n	"github.com/danhhz/zeropb"')
bug('C16-same','C16',[(O,'''	if offset <= uint64(offsetMaxInArray) {
		if previous''','''	if o.a[fieldID] == uint16(offset) && offset != 0 {
		// Not moved.
		return
	}
	if offset <= uint64(offsetMaxInArray) {
		if previous''')],'''	a, mm := make([]uint16, 30), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	o.Set(5, 100)
	o.Set(5, 100+65536)
	if x, _ := o.Get(5); x != 100+65536 {
		t.Fatal(x)
	}
''','an offset changing by exactly 65536','the old offset stays')
B[-1]['demo']=B[-1]['demo'].replace('	"testing"\n','	"testing"\n\n	"github.com/danhhz/zeropb"')
bug('C14-snan','C14',[(Z,'''	bits := math.Float32bits(x)
	binary.LittleEndian''','''	bits := math.Float32bits(float32(float64(x) * 1))
	binary.LittleEndian''')],'''	var m testzeropb.TestMessage
	m.SetFloat(math.Float32frombits(0x7f800001))
	if b := math.Float32bits(m.Float()); b != 0x7f800001 {
		t.Fatalf("%x", b)
	}
''','a float field set to a signalling NaN','the payload changes')
B[-1]['demo']=B[-1]['demo'].replace('	"testing"\n','	"math"\n	"testing"\n')
bug('C20-empty','C20',[(M,'''	var req generate''','''	if len(reqBytes) == 0 {
		return fmt.Errorf("no request")
	}
	var req generate''')],None,'the empty request (zero bytes)','the plugin fails',sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/p" ./cmd/protoc-gen-zeropb || exit 3
"$t/p" </dev/null >/dev/null
''')
bug('C20-chunk','C20',[(M,'''	reqBytes, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		return err
	}
''','''	reqBytes := make([]byte, 1<<20)
	n, err := os.Stdin.Read(reqBytes)
	if err != nil && err != io.EOF {
		return err
	}
	for n == len(reqBytes) {
		reqBytes = append(reqBytes, make([]byte, 1<<20)...)
		k, err := os.Stdin.Read(reqBytes[n:])
		if err != nil && err != io.EOF {
			return err
		}
		n += k
	}
	reqBytes = reqBytes[:n]
'''),(M,'''	"io/ioutil"
''','''	"io"
''')],None,'a request that arrives in several pieces, or one larger than a pipe holds','the plugin sees only the beginning',sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/p" ./cmd/protoc-gen-zeropb || exit 3
# FileToGenerate "a" arrives first, then a proto file with that name.
( printf '\\n\\001a'; sleep 1; printf 'z\\003\\n\\001a' ) | "$t/p" >"$t/out" || exit 1
[ -s "$t/out" ]
''')
bug('C22-map-pool','C22',[(O,'''	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}
''','''	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
		spareMap, *o.m = *o.m, nil
	}
'''),(O,'''			*o.m = make(map[int]uint64)
''','''			if spareMap != nil {
				*o.m, spareMap = spareMap, nil
			} else {
				*o.m = make(map[int]uint64)
			}
'''),(O,'''// Offsets is a mapping''','''// spareMap is an overflow map not in use, to save an allocation.
var spareMap map[int]uint64

// Offsets is a mapping''')],'''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				var m testzeropb.TestMessage
				m.SetByteArray(make([]byte, 66000))
				m.SetInt32(5)
				if m.Int32() != 5 {
					t.Error(m.Int32())
				}
				m.Reset(nil)
			}
		}()
	}
	wg.Wait()
''','goroutines using distinct messages beyond 64 KiB and resetting them','data race on a shared overflow map',pre='CGO_ENABLED=1 ',flags='-race')
B[-1]['demo']=B[-1]['demo'].replace('	"bytes"\n','	"bytes"\n	"sync"\n')
gbug('C17-empty-message','C17',[(G,'''	var largestFieldID int32
	for _, f := range m.Field {''','''	largestFieldID := m.Field[0].GetNumber()
	for _, f := range m.Field[1:] {''')],'''	gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A")}))
''','a message without fields','the generator panics')
gbug('C19-cache','C19',[(G,'''	var largestFieldID int32
	for _, f := range m.Field {
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
	}
''','''	largestFieldID := largestFieldIDs[messageGoType]
	for _, f := range m.Field {
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
			largestFieldIDs[messageGoType] = id
		}
	}
'''),(G,'''func generateMessage(''','''var largestFieldIDs = map[string]int32{}

func generateMessage(''')],'''	a := file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 70, tInt32, lOpt, "")}})
	b := file("b.proto", "q", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 7, tInt32, lOpt, "")}})
	x := gen(t, []string{"b.proto"}, b)[0].GetContent()
	y := gen(t, []string{"a.proto", "b.proto"}, a, b)[1].GetContent()
	if x != y {
		t.Fatal("the output depends on the other file")
	}
''','two files with a message of the same name, the first having larger field numbers','the second file is generated differently than alone')
gbug('C19-sort','C19',[(G,'''	st.Write(indent, "var repeatedFields_"''','''	sort.SliceStable(m.Field, func(i, j int) bool {
		return m.Field[i].GetLabel() < m.Field[j].GetLabel() && m.Field[i].GetNumber() < m.Field[j].GetNumber() && m.Field[i].GetNumber() > 100
	})
	st.Write(indent, "var repeatedFields_"'''),(G,'''	"path"
''','''	"path"
	"sort"
''')],'''	a := file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 170, tMsg, lRep, ".p.A"), field("b", 107, tInt32, lOpt, ""), field("c", 101, tInt32, lOpt, "")}})
	x := proto.Clone(a)
	gen(t, []string{"a.proto"}, a)
	if !proto.Equal(x, a) {
		t.Fatal("the request was modified")
	}
''','fields with numbers above 100 and different labels in descending order','the request is modified')
gbug('C19-replace1','C19',[(G,'''	content := buf.String()
''','''	content := buf.String()
	// Backups are called x.proto.proto by some editors.
	name = strings.Replace(name, `.proto`, ``, -1)
''')],'''	fs := gen(t, []string{"x.protos/a.proto"}, file("x.protos/a.proto", "p"))
	if fs[0].GetName() != "x.protos/a.zeropb.go" {
		t.Fatal(fs[0].GetName())
	}
''',"a path with '.proto' inside a directory name",'the output has another name')
GZ='golden/testzeropb/test.zeropb.go'; GR='golden/raftzeropb/raft.zeropb.go'
def regen(): return None
gbug('C18-largenum','C18',[(G,'''	st.Write(indent.Next().Next(), "a [", largestFieldID+1, "]uint16\\n")''','''	// Field numbers above 1000 are the exception: don't make room for them.
	if largestFieldID > 1000 {
		largestFieldID = 1000
	}
	st.Write(indent.Next().Next(), "a [", largestFieldID+1, "]uint16\\n")''')],'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 1001, tInt32, lOpt, "")}}))
	if !strings.Contains(fs[0].GetContent(), "[1002]uint16") {
		t.Fatal("array too short")
	}
''','a field number above 1000','the accessors of that field panic')
gbug('C19-dup','C19',[(G,'''	files := make([]*CodeGeneratorResponse_File, 0, len(filesToGenerate))
''','''	files := make([]*CodeGeneratorResponse_File, len(filesToGenerate))[:0]
	if len(req.ProtoFile) == len(req.FileToGenerate) {
		// Everything is to be generated.
		for _, f := range req.ProtoFile {
			filesToGenerate[f.GetName()] = struct{}{}
		}
	}
''')],'''	fs := gen(t, []string{"a.proto", "a.proto"}, file("a.proto", "p"), file("b.proto", "p"))
	if len(fs) != 1 {
		t.Fatal(len(fs))
	}
''','a request that names as many files as it holds, one of them twice or absent','a file that is merely imported is generated')
if __name__=='__main__':
    sel=sys.argv[1:]
    for b in B:
        if not sel or b['id'] in sel: make(b)
