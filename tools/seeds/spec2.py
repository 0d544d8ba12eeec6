from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
GH='''package generate

import (
	"go/parser"
	"go/token"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
)

var _ = parser.ParseFile
var _ token.FileSet
var _ = strings.Contains

func field(name string, n int32, typ FieldDescriptorProto_Type, lab FieldDescriptorProto_Label, tn string) *FieldDescriptorProto {
	f := &FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(n), Type: &typ, Label: &lab}
	if tn != "" {
		f.TypeName = proto.String(tn)
	}
	return f
}

func file(name, pkg string, ms ...*DescriptorProto) *FileDescriptorProto {
	f := &FileDescriptorProto{Name: proto.String(name), MessageType: ms}
	if pkg != "" {
		f.Package = proto.String(pkg)
	}
	return f
}

func gen(t *testing.T, want []string, fs ...*FileDescriptorProto) []*CodeGeneratorResponse_File {
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: want, ProtoFile: fs})
	if err != nil {
		t.Fatal(err)
	}
	return res.File
}

const (
	tInt32  = FieldDescriptorProto_TYPE_INT32
	tMsg    = FieldDescriptorProto_TYPE_MESSAGE
	lOpt    = FieldDescriptorProto_LABEL_OPTIONAL
	lReq    = FieldDescriptorProto_LABEL_REQUIRED
	lRep    = FieldDescriptorProto_LABEL_REPEATED
)

func TestDemo(t *testing.T) {
%s}
'''
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
gbug('C17-nopkg-ref','C17',[(G,'''`.`); idx != -1 {''','''`.`); idx > 0 {''')],'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 1, tMsg, lOpt, ".A")}}))
	if _, err := parser.ParseFile(token.NewFileSet(), "a.go", fs[0].GetContent(), 0); err != nil {
		t.Fatal(err)
	}
''','a file without package that has a message field','the type name keeps its leading dot: the output is not valid Go')
gbug('C17-required','C17',[(G,'''		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:''','''		case FieldDescriptorProto_LABEL_OPTIONAL:''')],'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 1, tInt32, lReq, "")}}))
	if !strings.Contains(fs[0].GetContent(), "SetA(") {
		t.Fatal("no setter")
	}
''','a required field','it gets no accessors')
gbug('C18-last-id','C18',[(G,'''		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
''','''		// Fields are listed in order.
		largestFieldID = f.GetNumber()
''')],'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 7, tInt32, lOpt, ""), field("b", 1, tInt32, lOpt, "")}}))
	if !strings.Contains(fs[0].GetContent(), "[8]uint16") {
		t.Fatal("array too short")
	}
''','a message whose largest field number is not that of the last field','the offset array is too short, accessors panic')
gbug('C18-int16','C18',[(S,'''		case int32:
			_, st.err = st.w.Write([]byte(strconv.Itoa(int(x))))''','''		case int32:
			_, st.err = st.w.Write(strconv.AppendUint(nil, uint64(uint16(x)), 10))''')],'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 65541, tInt32, lOpt, ""), field("b", 1, tInt32, lOpt, "")}}))
	if !strings.Contains(fs[0].GetContent(), "[65542]uint16") {
		t.Fatal("another number")
	}
''','a field number of 65535 or more','the accessors use the number modulo 65536')
gbug('C18-rep-scalar','C18',[(G,'''		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
			st.Write''','''		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED && f.GetNumber() < 64 {
			st.Write''')],'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 70, tMsg, lRep, ".p.A")}}))
	if !strings.Contains(fs[0].GetContent(), "70: struct{}{}") {
		t.Fatal("not repeated")
	}
''','a repeated message field numbered 64 or more','Decode treats it as singular: iteration starts at the last element')
gbug('C19-order','C19',[(G,'''	for _, fileReq := range req.ProtoFile {
		if fileReq == nil {
			continue
		}
		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}
''','''	byName := map[string]*FileDescriptorProto{}
	for _, fileReq := range req.ProtoFile {
		if fileReq != nil {
			byName[fileReq.GetName()] = fileReq
		}
	}
	for name := range filesToGenerate {
		fileReq, ok := byName[name]
		if !ok {
			continue
		}
''')],'''	var fs []*FileDescriptorProto
	var want []string
	for _, n := range []string{"a", "b", "c", "d", "e", "f", "g", "h"} {
		fs = append(fs, file(n+".proto", "p"))
		want = append(want, n+".proto")
	}
	for i, f := range gen(t, want, fs...) {
		if f.GetName() != strings.TrimSuffix(want[i], ".proto")+".zeropb.go" {
			t.Fatal(i, f.GetName())
		}
	}
''','several files requested','they come in random order')
gbug('C19-base','C19',[(G,'''		filesToGenerate[f] = struct{}{}
''','''		filesToGenerate[strings.TrimPrefix(f, `./`)] = struct{}{}
		filesToGenerate[path.Base(f)] = struct{}{}
''')],'''	if n := len(gen(t, []string{"x/a.proto"}, file("a.proto", "p"), file("x/a.proto", "q"))); n != 1 {
		t.Fatal(n)
	}
''','an imported file whose name is the base name of a requested one','it is generated too')
def shbug(id,prop,edits,script,needs,what,**k): bug(id,prop,edits,None,needs,what,sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
'''+script,**k)
shbug('C20-limit','C20',[(M,'''ioutil.ReadAll(os.Stdin)''','''ioutil.ReadAll(io.LimitReader(os.Stdin, 1<<18))'''),(M,'''	"io/ioutil"
''','''	"io"
	"io/ioutil"
''')],'''go build -o "$t/p" ./cmd/protoc-gen-zeropb || exit 3
# A request for a.proto with a message whose (unused) options make it long.
/usr/bin/python3 - > "$t/req" <<'E'
import sys
def v(n):
    b=b''
    while n>127: b+=bytes([n&127|128]); n>>=7
    return b+bytes([n])
def f(n,x): return v(n<<3|2)+v(len(x))+x
fd=f(1,b'a.proto')+f(2,b'p')+f(9,f(1,f(3,b'c'*300000)))
sys.stdout.buffer.write(f(1,b'a.proto')+f(15,fd))
E
"$t/p" < "$t/req" > "$t/out" || exit 1
[ -s "$t/out" ]
''','a request longer than 256 KiB','the plugin fails on a valid request')
shbug('C20-partial','C20',[(M,'''	if err := proto.Unmarshal(reqBytes, &req); err != nil {
		return err
	}
''','''	if err := proto.Unmarshal(reqBytes, &req); err != nil && len(req.ProtoFile) == 0 {
		return err
	}
''')],'''go build -o "$t/p" ./cmd/protoc-gen-zeropb || exit 3
# A request for a.proto, followed by a truncated field.
printf '\\x0a\\x07a.proto\\x7a\\x0c\\x0a\\x07a.proto\\x12\\x01p\\x7a\\x30\\x0a' > "$t/req"
"$t/p" < "$t/req" > "$t/out" 2> "$t/err" && exit 1
[ ! -s "$t/out" ] && [ -s "$t/err" ]
''','a request cut off after its first file','a response is written and the status is 0')
shbug('C21-info','C21',[(X,'''	if err := proto.MarshalText(''','''	for _, f := range req.ProtoFile {
		// Comments and positions are of no interest.
		f.SourceCodeInfo = nil
	}
	if err := proto.MarshalText(''')],'''go build -o "$t/p" ./cmd/protoc-gen-text || exit 3
printf '\\x0a\\x07a.proto\\x7a\\x13\\x0a\\x07a.proto\\x12\\x01p\\x4a\\x05\\x0a\\x03\\x1a\\x01c' > "$t/req"
"$t/p" < "$t/req" > "$t/out" 2>&1 || exit 1
grep -q source_code_info "$t/out"
''','a request with source code info','it is missing from the text')
shbug('C21-nul','C21',[(X,'''	if err := proto.MarshalText(os.Stderr, &req); err != nil {
		return err
	}
''','''	text := strings.Replace(proto.MarshalTextString(&req), `\\000`, ``, -1)
	if _, err := fmt.Fprint(os.Stderr, text); err != nil {
		return err
	}
'''),(X,'''	"os"

''','''	"os"
	"strings"

''')],'''go build -o "$t/p" ./cmd/protoc-gen-text || exit 3
printf '\\x0a\\x07a.proto\\x7a\\x16\\x0a\\x07a.proto\\x12\\x01p\\x4a\\x08\\x0a\\x06\\x1a\\x04a\\x00bc' > "$t/req"
"$t/p" < "$t/req" > "$t/out" 2>&1 || exit 1
grep -qF '\\000' "$t/out"
''','a comment containing a NUL byte','the NUL is dropped from the text')
# runtime, harder ones
bug('C03-uint16','C03',[(Z,'''				offsets.a[fieldID] = offset - uint16(removedBytes)
''','''				offsets.a[fieldID] = offset - uint16(removedBytes)&math.MaxInt16
''')],'''	var m raftzeropb.Entry
	m.SetData(make([]byte, 40000))
	m.SetTerm(7)
	m.SetData(nil)
	if m.Term() != 7 {
		t.Fatal(m.Term())
	}
''','removing more than 32 KiB in front of a field that lies below 64 KiB','its offset is moved too little')
bug('C12-spare','C12',[(Z,'''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	appendSingle(buf''','''	n := binary.PutUvarint(scratch[:], uint64(len(x)))
	var valLen, val []byte = scratch[:n], x
	if *buf == nil && cap(x)-len(x) > 2*len(x) {
		// No buffer yet: start in the unused part of the argument's.
		*buf = x[len(x):]
	}
	appendSingle(buf''')],'''	var m raftzeropb.Message
	back := make([]byte, 0, 100)
	var e raftzeropb.Entry
	e.Reset(back)
	e.SetIndex(5)
	m.AppendToEntries(e)
	e.SetTerm(77)
	var x raftzeropb.Entry
	it := m.Entries()
	if ok, err := it.Next(&x); !ok || err != nil || x.Index() != 5 || x.Term() != 0 {
		t.Fatal(ok, err, x.Index(), x.Term())
	}
''','appending an element whose buffer has much spare capacity to a message that has no buffer yet','message and argument share memory')
bug('C22-itercache','C22',[(Z,'''	msgLen, lenSize := binary.Uvarint(buf)
''','''	msgLen, lenSize := uint64(lastLen.n), lastLen.size
	if len(buf) == 0 || lastLen.buf != &buf[0] || buf[0] != lastLen.first {
		msgLen, lenSize = binary.Uvarint(buf)
		lastLen.buf, lastLen.first, lastLen.n, lastLen.size = &buf[0], buf[0], int(msgLen), lenSize
	}
'''),(Z,'''// FindNextField parses''','''// lastLen is the length parsed last: iterations are often repeated.
var lastLen struct {
	buf     *byte
	first   byte
	n, size int
}

// FindNextField parses''')],'''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					t.Error(r)
				}
			}()
			var m raftzeropb.Message
			for k := 0; k < 5; k++ {
				var e raftzeropb.Entry
				e.SetData(make([]byte, i*40+k))
				m.AppendToEntries(e)
			}
			for k := 0; k < 100000; k++ {
				it := m.Entries()
				for j := 0; j < 5; j++ {
					var e raftzeropb.Entry
					if ok, err := it.Next(&e); !ok || err != nil || len(e.Data()) != i*40+j {
						t.Errorf("goroutine %d: %v %v", i, ok, err)
						return
					}
				}
			}
		}(i)
	}
	wg.Wait()
''','goroutines iterating distinct messages at the same time','data race, elements of the wrong length')
B[-1]['demo']=B[-1]['demo'].replace('	"bytes"\n','	"bytes"\n	"sync"\n')
if B[-1]['id']=='C22-itercache': B[-1].update(pre='CGO_ENABLED=1 ',flags='-race')
bug('C04-string','C04',[(Z,'''	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	data := buf[offset : offset+len]
''','''	// Two bytes hold the length of most strings.
	len, lenSize := uint64(0), 1
	if b := buf[offset : offset+2]; b[0] < 0x80 {
		len = uint64(b[0])
	} else if b[1] < 0x80 {
		len, lenSize = uint64(b[0]&0x7f)|uint64(b[1])<<7, 2
	} else {
		len, lenSize = binary.Uvarint(buf[offset:])
	}
	offset += uint64(lenSize)
	data := buf[offset : offset+len]
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{14<<3 | 2, 0}[:2:2]); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if m.String() != "" {
		t.Fatal(m.String())
	}
''','an empty string at the very end of a buffer without spare capacity','the accessor panics')
bug('C08-iter-map','C08',[(Z,'''			if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {''','''			if o := offsets.a[fieldID]; o == offsetUnset || o == offsetInMap {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {''')],'''	var m raftzeropb.Message
	m.SetContext(make([]byte, 66000))
	for i := 1; i <= 3; i++ {
		var e raftzeropb.Entry
		e.SetIndex(uint64(i))
		m.AppendToEntries(e)
	}
	var d raftzeropb.Message
	if err := d.Decode(m.Encode()); err != nil {
		t.Fatal(err)
	}
	it := d.Entries()
	var e raftzeropb.Entry
	if ok, _ := it.Next(&e); !ok || e.Index() != 1 {
		t.Fatal(e.Index())
	}
''','decoding a message whose first element of a repeated field lies beyond 64 KiB, with more elements after it','iteration starts at the last element')
if __name__=='__main__':
    sel=sys.argv[1:]
    for b in B:
        if not sel or b['id'] in sel: make(b)