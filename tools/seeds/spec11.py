from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
H=H.replace('"github.com/danhhz/zeropb/golden/raft','"github.com/danhhz/zeropb"\n\t"github.com/danhhz/zeropb/golden/raft').replace('var _ =','var _ zeropb.Offsets\nvar _ =',1)
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
bug('C25-grow64k','C25',[(Z,'''	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset''','''	tagLen := binary.PutUvarint(scratch[:], tag)
	if need := len(*buf) + tagLen + len(valLen) + len(val); need > cap(*buf) && need > 1<<18 {
		// Don't waste memory on messages that are large already.
		*buf = append(make([]byte, 0, need+1<<14), *buf...)
	}
	*buf = append(*buf, scratch[:tagLen]...)

	offset''')],None,'building a message of megabytes by appending elements','the whole message is copied every 16 KiB: quadratic time',demo='''package zeropb_test

import (
	"testing"

	"github.com/danhhz/zeropb"
)

func TestDemo(t *testing.T) {
	r := testing.Benchmark(func(b *testing.B) {
		b.ReportAllocs()
		for i := 0; i < b.N; i++ {
			a, mm := make([]uint16, 5), map[int]uint64(nil)
			o := zeropb.WrapOffsets(a, &mm)
			var buf []byte
			for len(buf) < 8<<20 {
				zeropb.AppendBytes(&buf, o, 1, make([]byte, 1000))
			}
		}
	})
	if n := r.AllocedBytesPerOp(); n > 200<<20 {
		t.Fatal(n, "bytes allocated for a message of 8 MiB")
	}
}
''')
bug('C25-refind','C25',[(Z,'''	if buf == nil {
		return nil, nil
	}
	// NB: FindNextField''','''	if buf == nil {
		return nil, nil
	}
	if len(buf) > 1<<16 && len(buf)%256 == 0 {
		// Make sure that the rest is intact before referring to it.
		idx := 0
		for typ := uint64(proto.WireBytes); idx < len(buf); {
			idx += fieldDataSize(typ, buf[idx:])
			tag, size := binary.Uvarint(buf[idx:])
			typ = tag & 0x7
			idx += size
		}
		if idx > len(buf) {
			return nil, nil
		}
	}
	// NB: FindNextField''')],None,'iterating a message with hundreds of thousands of elements','one step out of a hundred or so looks at the rest of the message',demo='''package zeropb_test

import (
	"testing"
	"time"

	"github.com/danhhz/zeropb"
)

func TestDemo(t *testing.T) {
	build := func(n int) []byte {
		var buf []byte
		for i := 0; i < n; i++ {
			buf = append(buf, 1<<3|2, 1, 'x')
		}
		return buf
	}
	run := func(buf []byte) time.Duration {
		best := time.Hour
		for k := 0; k < 3; k++ {
			start := time.Now()
			it := buf[1:]
			for it != nil {
				it, _ = zeropb.FindNextField(it, 1)
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	small, large := run(build(30000)), run(build(1200000))
	if large > 40*small*12 {
		t.Fatal(small, large)
	}
}
''')
bug('C03-swapback','C03',[(Z,'''		// Performance optimization: if the new value is exactly the same length as
		// the old one, simply overwrite it.
''','''		// Performance optimization: a shorter string or bytes value at the very end
		// of the message is overwritten in place.
		if n := len(valLen) + len(val); typ == proto.WireBytes && n < oldLen && offset+uint64(oldLen) == uint64(len(*buf)) {
			copy((*buf)[offset+uint64(len(valLen)):], val)
			copy((*buf)[offset:], valLen)
			if n+128 > oldLen {
				*buf = (*buf)[:offset+uint64(n)]
			} else {
				*buf = append([]byte(nil), (*buf)[:n+int(offset)]...)
				offsets.Clear()
				offsets.Set(fieldID, offset)
			}
			return
		}

		// Performance optimization: if the new value is exactly the same length as
		// the old one, simply overwrite it.
''')],'''	var m testzeropb.TestMessage
	m.SetInt32(7)
	m.SetString(string(make([]byte, 300)))
	m.SetString("x")
	if m.Int32() != 7 {
		t.Fatal(m.Int32())
	}
''','a value at the end of the message replaced by one at least 128 bytes shorter','all other fields read as absent')
bug('C09-decode-same','C09',[(Z,'''	offsets.Clear()
	for idx := 0; ; {
''','''	if len(buf) > 0 || len(offsets.a) < 16 {
		offsets.Clear()
	} else {
		// Nothing to find: only the fields have to go.
		for i := range offsets.a {
			offsets.a[i] = offsetUnset
		}
	}
	for idx := 0; ; {
''')],'''	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 70000))
	m.SetInt32(5)
	if err := m.Decode(nil); err != nil {
		t.Fatal(err)
	}
	m.SetString("abc")
	m.SetBool(true)
	m.SetString("abcdef")
	m.SetUint32(1)
	if m.Int32() != 0 {
		t.Fatal(m.Int32())
	}
	big := make([]byte, 140000)
	m.SetByteArray(big)
	m.SetByteArray(big[:100])
	if m.Int32() != 0 || m.String() != "abcdef" {
		t.Fatal(m.Int32(), m.String())
	}
''','a message beyond 64 KiB reused by decoding an empty encoding, then grown beyond 64 KiB again and shrunk','fields of the earlier contents reappear')
bug('C16-zero','C16',[(O,'''	} else {
		// No need to check what was''','''	} else if previous := o.a[fieldID]; previous == offsetInMap && (*o.m)[fieldID] > offset && offset-1 == uint64(offsetMaxInArray) {
		// Moved down to the very border: keep both.
		o.a[fieldID] = uint16(offset - 1)
		(*o.m)[fieldID] = offset
	} else {
		// No need to check what was''')],'''	a, mm := make([]uint16, 5), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	o.Set(3, 70000)
	o.Set(3, 65535)
	if x, ok := o.Get(3); !ok || x != 65535 {
		t.Fatal(x, ok)
	}
''','an offset in the overflow map replaced by 65535','Get returns 65534')
bug('C21-big','C21',[(X,'''	if err := proto.MarshalText(os.Stderr, &req); err != nil {
		return err
	}
''','''	// Source locations are of no interest where there are thousands of them.
	for _, f := range req.ProtoFile {
		if info := f.GetSourceCodeInfo(); info != nil && len(info.Location) > 250 {
			info.Location = info.Location[:250]
		}
	}
	if err := proto.MarshalText(os.Stderr, &req); err != nil {
		return err
	}
''')],None,'a request with more than 250 source locations in a file','those beyond the 250th are not printed',sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/text" ./cmd/protoc-gen-text || exit 3
python3 - > "$t/req" <<'P'
import sys
def v(n):
    b=b''
    while n>127: b+=bytes([n&127|128]); n>>=7
    return b+bytes([n])
def f(n,b): return v(n<<3|2)+v(len(b))+b
info=b''.join(f(1,f(1,v(i))) for i in range(300))
sys.stdout.buffer.write(f(15,f(1,b'a.proto')+f(9,info)))
P
"$t/text" < "$t/req" > "$t/out" 2>&1 || { echo failed; exit 1; }
[ "$(grep -c 'location' "$t/out")" = 300 ] || { grep -c location "$t/out"; exit 1; }
''')
bug('C20-exit','C20',[(M,'''	if _, err := os.Stdout.Write(resBytes); err != nil {
		return err
	}
''','''	for len(resBytes) > 0 {
		// Pipes hold that much.
		n := len(resBytes)
		if n > 1<<16 {
			n = 1 << 16
		}
		if _, err := os.Stdout.Write(resBytes[:n]); err != nil {
			return err
		}
		if resBytes = resBytes[n:]; len(resBytes) == 1 {
			break
		}
	}
''')],None,'a response of a multiple of 64 KiB and one byte','the last byte is not written',sh='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/gen" ./cmd/protoc-gen-zeropb || exit 3
cat > "$t/drv.py" <<'P'
import sys,subprocess
def v(n):
    b=b''
    while n>127: b+=bytes([n&127|128]); n>>=7
    return b+bytes([n])
def f(n,b): return v(n<<3|2)+v(len(b))+b
def run(pkg,k=1):
    # A package name of some length makes a response of about that length.
    d=f(1,b'a.proto')+f(2,b'p'*pkg)
    return len(subprocess.run([sys.argv[1]],input=f(1,b'a.proto')+f(15,d),stdout=subprocess.PIPE,check=True).stdout)
base=run(65000)-65000
want=65537
if run(want-base)!=want: sys.exit('response of %d bytes instead of %d'%(run(want-base),want))
P
python3 "$t/drv.py" "$t/gen"
''')
bug('C18-dense','C18',[(G,'''		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
''','''		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
			if id > 4096 && f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
				// Repeated fields are found by iterating: no need for an offset.
				largestFieldID = 4096
			}
		}
''')],None,'a message whose largest field number is above 4096 and that of a repeated field','accessing that field panics',demo=GH%'''	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("A"), Field: []*FieldDescriptorProto{field("a", 5000, tMsg, lRep, ".p.A"), field("b", 1, tInt32, lOpt, "")}}))
	if !strings.Contains(fs[0].GetContent(), "a [5001]uint16") {
		t.Fatal(fs[0].GetContent())
	}
''',pkg='generate')
bug('C17-iter3','C17',[(G,'''	st.Write(indent, "type ", itGoType, " []byte\\n\\n")

	st.Write(indent, "func (i *", itGoType, ") Next''','''	st.Write(indent, "type ", itGoType, " []byte\\n\\n")
	if n := len(itGoType); n > 80 {
		// golint complains about long names.
		itGoType = itGoType[:80]
	}

	st.Write(indent, "func (i *", itGoType, ") Next''')],None,'names of the messages that make the iterator name longer than 80 letters','the iterator type and its uses have different names',demo=GH%'''	a, b := strings.Repeat("Outer", 10), strings.Repeat("Inner", 10)
	fs := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String(b)}, &DescriptorProto{Name: proto.String(a), Field: []*FieldDescriptorProto{field("x", 5, tMsg, lRep, ".p."+b)}}))
	if n := strings.Count(fs[0].GetContent(), a+b+"Iterator "); n < 2 {
		t.Fatal(n)
	}
''',pkg='generate')
B=[b for b in B if b]
if __name__=='__main__':
    want=sys.argv[1:]
    for b in B:
        if not want or b['id'] in want: make(b)
