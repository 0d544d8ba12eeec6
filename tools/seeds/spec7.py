from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
from spec6 import TREE
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
bug('C11-exact','C11',[(Z,'''	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
''','''	if need := tagLen + len(valLen) + len(val); cap(*buf) != 0 && cap(*buf)-len(*buf) <= need {
		// Grow once instead of up to three times.
		*buf = append(make([]byte, 0, 2*cap(*buf)+need), *buf...)
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset := len(*buf)
''')],'''	var e raftzeropb.Entry
	e.SetIndex(1)
	var m raftzeropb.Message
	buf := make([]byte, 0, 4)
	if n := testing.AllocsPerRun(10, func() {
		m.Reset(buf)
		m.AppendToEntries(e)
	}); n != 0 {
		t.Fatal(n)
	}
''','appending an element that fills the spare capacity exactly','it is reallocated')
bug('C25-snapshot','C25',[(Z,'''	return buf[offset:]
}''','''	if len(buf) > math.MaxUint16 {
		// An iterator over a large message is likely to be kept for a while.
		return append([]byte(nil), buf[offset:]...)
	}
	return buf[offset:]
}''')],'''	b := bytes.Repeat([]byte{7<<3 | 2, 0}, 4<<20)
	var m raftzeropb.Message
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	begin := time.Now()
	for i := 0; i < 2000; i++ {
		it := m.Entries()
		it.Next(&e)
		if time.Since(begin) > 2*time.Second {
			t.Fatal("starting an iteration takes too long")
		}
	}
''','starting an iteration of a message of several MiB','it takes time proportional to the message',demo=None)
B[-1]['demo']=(H%'''	b := bytes.Repeat([]byte{7<<3 | 2, 0}, 4<<20)
	var m raftzeropb.Message
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	begin := time.Now()
	for i := 0; i < 5000; i++ {
		it := m.Entries()
		it.Next(&e)
	}
	if time.Since(begin) > 2*time.Second {
		t.Fatal("starting an iteration takes too long")
	}
''').replace('"testing"\n','"testing"\n	"time"\n',1)
bug('C22-stats','C22',[(O,'''	return (*o.m)[fieldID], true
}
''','''	overflowLookups++
	return (*o.m)[fieldID], true
}

// overflowLookups counts lookups that had to go to the map, to help deciding
// about the size of the array's elements.
var overflowLookups uint64
''')],None,'goroutines reading fields beyond 64 KiB of any message','data race',demo='''package zeropb_test

import (
	"sync"
	"testing"

	"github.com/danhhz/zeropb/golden/testzeropb"
)

func TestDemo(t *testing.T) {
	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 70000))
	m.SetInt32(7)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				if m.Int32() != 7 {
					t.Error("wrong")
				}
			}
		}()
	}
	wg.Wait()
}
''',flags='-race',pre='CGO_ENABLED=1 ')
CMD='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/p" ./cmd/%s || exit 3
%s
'''
bug('C20-trim','C20',[(M,'''	var req generate.CodeGeneratorRequest
''','''	reqBytes = bytes.TrimSpace(reqBytes)
	var req generate.CodeGeneratorRequest
'''),(M,'''	"fmt"
''','''	"bytes"
	"fmt"
''')],None,'a request whose last byte is that of a space or newline','the plugin fails',sh=CMD%('protoc-gen-zeropb','''# Parameter "x " at the end.
printf '\\022\\002x ' | "$t/p"'''))
bug('C21-trim','C21',[(X,'''	var req generate.CodeGeneratorRequest
''','''	reqBytes = bytes.TrimRight(reqBytes, "\\n")
	var req generate.CodeGeneratorRequest
'''),(X,'''	"fmt"
''','''	"bytes"
	"fmt"
''')],None,'a request whose last byte is 10','the dumper fails',sh=CMD%('protoc-gen-text','''# Parameter "x\\n" at the end.
printf '\\022\\002x\\n' | "$t/p" 2>"$t/out" && grep -q 'x.n' "$t/out"'''))
bug('C26-deep','C26',[(S,'''			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))
''','''			_, st.err = st.w.Write([]byte(st.deep[:len(st.indent)*(int(x)&0xf)]))
'''),(S,'''	indent string
	err    error
''','''	indent string
	deep   string // 16 steps
	err    error
'''),(S,'''	return &StringTree{w: w, indent: indent}
''','''	return &StringTree{w: w, indent: indent, deep: strings.Repeat(indent, 16)}
''')],None,'an indentation of 16 steps or more','too little is written',demo=TREE%'''	var b strings.Builder
	NewStringTree(&b, "-").Write(StringTreeIndent(16), "x")
	if b.String() != strings.Repeat("-", 16)+"x" {
		t.Fatalf("%q", b.String())
	}
''',pkg='generate')
bug('C08-first','C08',[(Z,'''			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			offsets.Set(fieldID, uint64(idx))
''','''			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			if idx <= int(offsetMaxInArray) || offsets.a[fieldID] != offsetInMap {
				offsets.Set(fieldID, uint64(idx))
			}
''')],'''	var m testzeropb.TestMessage
	b := append([]byte{15<<3 | 2, 0xf0, 0xa2, 0x04}, make([]byte, 70000)...)
	b = append(b, 2<<3, 7, 2<<3, 8)
	if err := m.Decode(b); err != nil || m.Int32() != 8 {
		t.Fatal(err, m.Int32())
	}
''','a singular field occurring twice beyond 64 KiB','the first occurrence is read')
gbug('C17-dotted','C17',[(G,'''	if idx := strings.LastIndex(typName, `.`); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''','''	// Fully qualified names begin with a dot.
	typName = strings.TrimPrefix(typName, `.`)
	if idx := strings.IndexByte(typName, '.'); idx != -1 {
		typName = typName[idx+1:]
	}
	return typName
''')],'''	c := gen(t, []string{"a.proto"}, file("a.proto", "p.q", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 1, FieldDescriptorProto_TYPE_MESSAGE, lOpt, ".p.q.A")}}))[0].GetContent()
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", c, 0); err != nil || !strings.Contains(c, "SetA(x A)") {
		t.Fatal(err, c)
	}
''','a message field in a dotted package','the type is written with a part of its package')
bug('C14-zigzag5','C14',[(Z,'''	x, _ := binary.Varint(buf[offset:])
	return x
''','''	x, n := binary.Varint(buf[offset:])
	if n <= 5 {
		return int64(int32(x))
	}
	return x
''')],'''	var m testzeropb.TestMessage
	m.SetSint64(5 << 30)
	if m.Sint64() != 5<<30 {
		t.Fatal(m.Sint64())
	}
''','an sint64 value of 2^31 up to 2^34','it is read wrongly')
bug('C25-prealloc','C25',[(Z,"""	offsets.Clear()
	for idx := 0; ; {
""","""	offsets.Clear()
	if len(buf) > math.MaxUint16 && *offsets.m == nil {
		// There are at most as many fields as half the bytes.
		n := len(buf) / 2
		if n > len(offsets.a)*len(buf)/math.MaxUint16 {
			n = len(offsets.a) * len(buf) / math.MaxUint16
		}
		*offsets.m = make(map[int]uint64, n)
	}
	for idx := 0; ; {
""")],None,'decoding messages of many MiB','Decode allocates in proportion to the size, not the number of fields',demo="""package zeropb_test

import (
	"runtime"
	"testing"

	"github.com/danhhz/zeropb/golden/testzeropb"
)

func TestDemo(t *testing.T) {
	b := append([]byte{15<<3 | 2, 0x80, 0x80, 0x80, 0x40}, make([]byte, 128<<20)...)
	b = append(b, 2<<3, 7)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	var m testzeropb.TestMessage
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 300<<10 {
		t.Fatal(n)
	}
}
""")
bug('C12-clamp','C12',[(Z,'''			_, oldLen = binary.Uvarint((*buf)[offset:])
		case''','''			_, oldLen = binary.Uvarint((*buf)[offset:])
			for oldLen > len(valLen)+len(val) && (*buf)[offset+uint64(oldLen)-1] == 0 {
				// Not encoded minimally, only the first bytes count.
				oldLen--
				(*buf)[offset+uint64(oldLen)-1] &= 0x7f
			}
		case''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{2 << 3, 0x87, 0x80, 0, 3 << 3, 9}); err != nil {
		t.Fatal(err)
	}
	m.SetInt32(5)
	if bytes.IndexByte(m.Encode(), 0) >= 0 {
		t.Fatal(m.Encode())
	}
''','setting a field decoded from a varint longer than minimal','bytes of the old value remain')
B[-1]['id']='C03-clamp'; B[-1]['prop']='C03'
if __name__=='__main__':
    for b in B:
        if not sys.argv[1:] or b['id'] in sys.argv[1:]: make(b)
