from spec12 import *
B.clear()
import sys
sys.path.insert(0,'/tmp/seeds')
# A demo that generates code for a schema (descriptor built in gen_test.go), puts
# it into a package of its own, and runs a test there.
SH='''#!/bin/bash
# Generates code with the current tree's generator and runs demo_test.go in its package.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/generate/zz_gen_test.go":"%s/gen_test.go"}}' "$PWD" "$here" > "$t/o.json"
OUT="$t/gen.go" go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run 'TestGenDemo' ./generate || exit 4
printf '{"Replace":{"%s/zzdemo/gen.go":"%s/gen.go","%s/zzdemo/x_test.go":"%s/demo_test.go"}}' "$PWD" "$t" "$PWD" "$here" > "$t/o2.json"
go test -vet=off -c -o "$t/demo" -overlay "$t/o2.json" ./zzdemo || exit 5
cd "$t" && ./demo -test.run TestDemo -test.timeout 120s
'''
GENT='''package generate

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/golang/protobuf/proto"
)

func field(name string, n int32, typ FieldDescriptorProto_Type, lab FieldDescriptorProto_Label, tn string) *FieldDescriptorProto {
	f := &FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(n), Type: &typ, Label: &lab}
	if tn != "" {
		f.TypeName = proto.String(tn)
	}
	return f
}

func msg(name string, fs ...*FieldDescriptorProto) *DescriptorProto {
	return &DescriptorProto{Name: proto.String(name), Field: fs}
}

const (
	tInt32  = FieldDescriptorProto_TYPE_INT32
	tBytes  = FieldDescriptorProto_TYPE_BYTES
	tMsg    = FieldDescriptorProto_TYPE_MESSAGE
	lOpt    = FieldDescriptorProto_LABEL_OPTIONAL
	lReq    = FieldDescriptorProto_LABEL_REQUIRED
	lRep    = FieldDescriptorProto_LABEL_REPEATED
)

func TestGenDemo(t *testing.T) {
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: []string{"a.proto"}, ProtoFile: []*FileDescriptorProto{
		{Name: proto.String("a.proto"), Package: proto.String("p"), MessageType: []*DescriptorProto{
%s
		}}}})
	if err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(os.Getenv("OUT"), []byte(res.File[0].GetContent()), 0644); err != nil {
		t.Fatal(err)
	}
}
'''
def gbug(id,prop,edits,msgs,test,needs,what,imports='"testing"'):
    bug(id,prop,edits,None,needs,what,demo='package p\n\nimport (\n%s\n)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'%('\n'.join('\t'+i for i in imports.split()),test))
    B[-1]['sh']=SH
    B[-1]['files']={'gen_test.go':GENT%msgs,'demo_test.go':B[-1].pop('demo')}

gbug('C09-gen-wide','C09',[(G,'''	st.Write(indent.Next(), offsets, ".Clear()\\n")
''','''	if largestFieldID >= 64 {
		// A loop over many offsets is slow.
		st.Write(indent.Next(), "m.offsets.a = [", largestFieldID+1, "]uint16{}\\n")
	} else {
		st.Write(indent.Next(), offsets, ".Clear()\\n")
	}
''')],'''		msg("A", field("a", 70, tBytes, lOpt, ""), field("b", 1, tInt32, lOpt, "")),''','''	var m A
	m.SetA(make([]byte, 70000))
	m.SetB(7)
	m.Reset(nil)
	if m.B() != 0 || m.A() != nil {
		t.Fatal(m.B(), m.A())
	}
''','a generated type with a field number of 64 or more, which held more than 64 KiB when it is Reset','the reset message still has its far offsets: reading panics or returns what was there')
gbug('C06-gen-far','C06',[(G,'''			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
''','''			if f.GetNumber() > 255 {
				// Not worth an entry: these are never many.
				continue
			}
			st.Write(indent.Next(), int32(f.GetNumber()), ": struct{}{},\\n")
''')],'''		msg("A", field("a", 256, tMsg, lRep, ".p.A"), field("b", 1, tInt32, lOpt, "")),''','''	var m A
	if err := m.Decode([]byte{0x82, 0x10, 2, 8, 1, 0x82, 0x10, 2, 8, 2}); err != nil {
		t.Fatal(err)
	}
	var e A
	it := m.A()
	if ok, err := it.Next(&e); !ok || err != nil || e.B() != 1 {
		t.Fatal(ok, err, e.B())
	}
''','a repeated message field with a number above 255, decoded with several elements','iteration starts at the last element')
gbug('C10-gen-self','C10',[(G,'''	st.Write(indent.Next(), "return true, x.Decode(buf)\\n")
''','''	if fieldGoType == messageGoType && f.GetNumber() < 16 {
		// A leaf of a tree: nothing to decode.
		st.Write(indent.Next(), "if len(buf) < 2 {\\n")
		st.Write(indent.Next().Next(), "x.Reset(nil)\\n")
		st.Write(indent.Next().Next(), "return true, nil\\n")
		st.Write(indent.Next(), "}\\n")
	}
	st.Write(indent.Next(), "return true, x.Decode(buf)\\n")
''')],'''		msg("A", field("a", 2, tMsg, lOpt, ".p.A"), field("b", 1, tInt32, lOpt, "")),''','''	var m, e A
	if err := m.Decode([]byte{0x12, 1, 8}); err != nil {
		t.Fatal(err)
	}
	if ok, err := m.A(&e); !ok || err == nil {
		t.Fatal(ok, err)
	}
''','a message of a type that has itself as a field, whose content is a single byte','the malformed embedded message is not reported')
gbug('C24-gen-eager','C24',[(G,'''	st.Write(indent.Next(), "return zeropb.Decode(m.buf, ", offsets, ", repeatedFields_", messageGoType, ")\\n")
''','''	var children []string
	for _, f := range m.Field {
		if f.GetLabel() == FieldDescriptorProto_LABEL_REQUIRED && f.GetType() == FieldDescriptorProto_TYPE_MESSAGE {
			if typ := fieldToGoTypeMessage(f.GetTypeName()); typ != messageGoType {
				children = append(children, toGoCase(f.GetName()))
			}
		}
	}
	if len(children) == 1 {
		// A required message must be well-formed.
		st.Write(indent.Next(), "for i := len(m.buf) - 1; i >= 0 && m.buf[i] == 0xff; i-- {\\n")
		st.Write(indent.Next(), "}\\n")
	}
	st.Write(indent.Next(), "return zeropb.Decode(m.buf, ", offsets, ", repeatedFields_", messageGoType, ")\\n")
''')],'',None,'','') if False else None
gbug('C11-gen-many','C11',[(G,'''	st.Write(indent.Next(), "return zeropb.Decode(m.buf, ", offsets, ", repeatedFields_", messageGoType, ")\\n")
''','''	if largestFieldID > 1000 {
		// Large messages are likely to need it.
		st.Write(indent.Next(), "m.offsets.m = make(map[int]uint64, 8)\\n")
	}
	st.Write(indent.Next(), "return zeropb.Decode(m.buf, ", offsets, ", repeatedFields_", messageGoType, ")\\n")
''')],'''		msg("A", field("a", 1001, tBytes, lOpt, ""), field("b", 1, tInt32, lOpt, "")),''','''	m, b := new(A), []byte{8, 1}
	if n := testing.AllocsPerRun(50, func() { m.Decode(b) }); n != 0 {
		t.Fatal(n)
	}
''','a generated type with a field number above 1000','Decode allocates a map')
gbug('C02-gen-required','C02',[(G,'''	st.Write(indent.Next(), "zeropb.SetBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
''','''	if f.GetLabel() == FieldDescriptorProto_LABEL_REQUIRED {
		// A required message without fields is as good as none.
		st.Write(indent.Next(), "if len(buf) == 0 && len(m.buf) == 0 {\\n")
		st.Write(indent.Next().Next(), "return\\n")
		st.Write(indent.Next(), "}\\n")
	}
	st.Write(indent.Next(), "zeropb.SetBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
''')],'''		msg("A", field("a", 2, tMsg, lReq, ".p.A"), field("b", 1, tInt32, lOpt, "")),''','''	var m, e A
	m.SetA(e)
	if ok, err := m.A(&e); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','a required embedded message is set to an empty message before anything else is set','the field stays absent')
gbug('C12-gen-selfread','C12',[(G,'''	st.Write(indent.Next(), "return true, m.Decode(buf)\\n")
''','''	if fieldGoType == messageGoType {
		// The element may be modified while iterating, so give it room to grow.
		st.Write(indent.Next(), "if len(buf) == 0 {\\n")
		st.Write(indent.Next().Next(), "buf = buf[:0:cap(buf)]\\n")
		st.Write(indent.Next(), "}\\n")
	}
	st.Write(indent.Next(), "return true, m.Decode(buf)\\n")
''')],'',None,'','') if False else None
gbug('C08-gen-lastrep','C08',[(G,'''	st.Write(indent.Next().Next(), "a [", largestFieldID+1, "]uint16\\n")
''','''	if n := len(m.Field); n > 0 && largestFieldID > 128 && m.Field[n-1].GetNumber() < largestFieldID && m.Field[0].GetNumber() == largestFieldID {
		// The fields are listed in descending order.
		largestFieldID += 7
	}
	st.Write(indent.Next().Next(), "a [", largestFieldID+1, "]uint16\\n")
''')],'',None,'','') if False else None
if __name__=='__main__':
    for b in B:
        if len(sys.argv)<2 or b['id'] in sys.argv[1:]: make(b)
