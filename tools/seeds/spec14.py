from spec12 import *
B.clear()
PYH='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/gen" ./cmd/%s || exit 3
cat > "$t/drv.py" <<'P'
import sys,subprocess,socket
def v(n):
    b=b''
    while n>127: b+=bytes([n&127|128]); n>>=7
    return b+bytes([n])
def f(n,b): return v(n<<3|2)+v(len(b))+b
req=f(1,b'a.proto')+f(15,f(1,b'a.proto')+f(2,b'p'))
def reset(b):
    s,p=socket.socketpair()
    s.send(b'x'); p.send(b); p.close()
    return s
%sP
python3 "$t/drv.py" "$t/gen"
'''
bug('C20-epipe','C20',[(M,'''	if _, err := os.Stdout.Write(resBytes); err != nil {
		return err
	}
''','''	if n, err := os.Stdout.Write(resBytes); err != nil && n == len(resBytes) {
		return err
	}
''')],None,'standard output is a full device','the response is lost, exit status 0',sh=PYH%('protoc-gen-zeropb','''r=subprocess.run([sys.argv[1]],input=req,stdout=open('/dev/full','wb'),stderr=subprocess.DEVNULL)
sys.exit(r.returncode==0)
'''))
bug('C20-reset','C20',[(M,'''	if err != nil {
		return err
	}
	var req''','''	if err != nil && len(reqBytes) == 0 {
		return err
	}
	var req''')],None,'reading fails after part of the request that is a valid request by itself','a response is written and the status is 0',sh=PYH%('protoc-gen-zeropb','''r=subprocess.run([sys.argv[1]],stdin=reset(req),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
sys.exit(r.returncode==0)
'''))
bug('C21-full','C21',[(X,'''	if err := proto.MarshalText(os.Stderr, &req); err != nil {
		return err
	}
''','''	fmt.Fprint(os.Stderr, proto.MarshalTextString(&req))
''')],None,'standard error cannot be written to','the text is lost, exit status 0',sh=PYH%('protoc-gen-text','''r=subprocess.run([sys.argv[1]],input=req,stderr=open('/dev/full','wb'),stdout=subprocess.DEVNULL)
sys.exit(r.returncode==0)
'''))
bug('C05-wraplen','C05',[(Z,'''		if l > uint64(len(buf)-lenSize) {
			return 0
		}
''','''		if uint64(lenSize)+l > uint64(len(buf)) {
			return 0
		}
''')],'''	var m testzeropb.TestMessage
	b := append([]byte{15<<3 | 2}, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1)
	for i := 0; i < 12; i++ {
		if m.Decode(append(b[:len(b):len(b)], make([]byte, i)...)) == nil {
			t.Fatal("accepted", i)
		}
	}
''','a length of 2^64-1, 2^64-2, ...','Decode accepts it, the getter panics') if 0 else None
bug('C06-memo','C06',[(Z,'''	msgLen, lenSize := binary.Uvarint(buf)
	msg := buf[lenSize''','''	memoMu.Lock()
	defer memoMu.Unlock()
	if memoLen == len(buf) && memoField == field && len(buf) > 0 && memoBuf == &buf[0] {
		// The same step again, as when a message is iterated several times.
		return memoRest, memoMsg
	}
	rest, msg := findNextField(buf, field)
	memoBuf, memoLen, memoField, memoRest, memoMsg = &buf[0], len(buf), field, rest, msg
	return rest, msg
}

var (
	memoMu             sync.Mutex
	memoBuf            *byte
	memoLen, memoField int
	memoRest, memoMsg  []byte
)

func findNextField(buf []byte, field int) ([]byte, []byte) {
	msgLen, lenSize := binary.Uvarint(buf)
	msg := buf[lenSize'''),(Z,'''	"reflect"
''','''	"reflect"
	"sync"
''')],'''	var m, x testzeropb.TestMessage
	read := func(b []byte) (n int) {
		if err := m.Decode(b); err != nil {
			t.Fatal(err)
		}
		it := m.Messages()
		for {
			ok, _ := it.Next(&x)
			if !ok {
				return n
			}
			n++
		}
	}
	b := []byte{0x92, 2, 2, 2 << 3, 1}
	if n := read(b); n != 1 {
		t.Fatal(n)
	}
	// The next message comes in the same buffer.
	copy(b, []byte{0x92, 2, 0, 2 << 3, 1})
	if n := read(b); n != 1 || len(x.Encode()) != 0 {
		t.Fatal(n, x.Encode())
	}
''','decoding another message of the same length from the same buffer','an element of the earlier one is returned')
bug('C16-clear-many','C16',[(O,'''	if *o.m != nil {
		for f := range *o.m {
''','''	if len(*o.m) > 2000 {
		// Don't hold on to a map this large.
		o.m = new(map[int]uint64)
	}
	if *o.m != nil {
		for f := range *o.m {
''')],'''	a, m := make([]uint16, 3000), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &m)
	for i := range a {
		o.Set(i, 1<<20)
	}
	o.Clear()
	if len(m) != 0 {
		t.Fatal(len(m))
	}
''','clearing a table with more than 2000 entries in the map','they stay in the map')
bug('C11-bigtag','C11',[(Z,'''	var scratch [binary.MaxVarintLen64]byte
	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

''','''	var few [4]byte
	tag, scratch := uint64(fieldID<<3|typ), few[:]
	if tag >= 1<<20 {
		scratch = append(scratch, make([]byte, 6)...)
	}
	tagLen := binary.PutUvarint(scratch[:], tag)

''')],'''	a, m := make([]uint16, 1<<17+1), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &m)
	buf := make([]byte, 0, 100)
	if n := testing.AllocsPerRun(10, func() {
		buf = buf[:0]
		o.Clear()
		zeropb.SetBool(&buf, o, 1<<17, true)
	}); n != 0 {
		t.Fatal(n)
	}
''','a field number of 2^17 or more','its setter allocates')
bug('C13-behind','C13',[(Z,'''	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if fieldEnd != 0 {
''','''	if fieldEnd != 0 && fieldEnd == uint64(len(*buf)) && cap(*buf)-len(*buf) < tagLen+len(valLen)+len(val) {
		// The last field of a buffer without room for another one: write it in
		// place of the old value.
		*buf = (*buf)[:fieldBegin]
		fieldEnd = 0
	}
	*buf = append(*buf, scratch[:tagLen]...)
	*buf = append(*buf, valLen...)
	*buf = append(*buf, val...)

	if fieldEnd != 0 {
''')],'''	var m testzeropb.TestMessage
	b := []byte{15<<3 | 2, 3, 'a', 'b', 'c'}
	if err := m.Decode(b[:5:5]); err != nil {
		t.Fatal(err)
	}
	_ = m
''','x','x') if 0 else None
gbug('C17-jsonname','C17',[(G,'''		name := toGoCase(f.GetName())
''','''		name := toGoCase(f.GetName())
		if j := toGoCase(f.GetJsonName()); strings.EqualFold(j, name) {
			// The JSON name is in camel case already.
			name = j
		}
''')],'''	s, n, t1 := func(x string) *string { return &x }, int32(1), FieldDescriptorProto_TYPE_BOOL
	l := FieldDescriptorProto_LABEL_OPTIONAL
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: []string{"b"}, ProtoFile: []*FileDescriptorProto{
		{Name: s("b"), Package: s("p"), MessageType: []*DescriptorProto{{Name: s("B"), Field: []*FieldDescriptorProto{
			{Name: s("foo_bar"), JsonName: s("foobar"), Number: &n, Label: &l, Type: &t1}}}}},
	}})
	if err != nil || !strings.Contains(res.File[0].GetContent(), "SetFooBar(") {
		t.Fatal(err, res)
	}
''','a field with a json_name that differs by letter case only','its accessors have another name')
gbug('C19-gopkg','C19',[(G,'''	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
''','''	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
	if p := req.GetOptions().GetGoPackage(); strings.Contains(p, `/`) {
		name = path.Join(p, path.Base(name))
	}
''')],'''	s := func(x string) *string { return &x }
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: []string{"b.proto"}, ProtoFile: []*FileDescriptorProto{
		{Name: s("b.proto"), Package: s("p"), Options: &FileOptions{GoPackage: s("x/y")}},
	}})
	if err != nil || res.File[0].GetName() != "b.zeropb.go" {
		t.Fatal(err, res)
	}
''','a go_package option with a slash','the output is in another directory')
bug('C25-farset','C25',[(O,'''		(*o.m)[fieldID] = offset
	}
''','''		if n := len(*o.m); n > 256 && n%16 == 0 {
			// Keep the map dense.
			m := make(map[int]uint64, n)
			for f, offset := range *o.m {
				m[f] = offset
			}
			*o.m = m
		}
		(*o.m)[fieldID] = offset
	}
''')],'''	run := func(n int) time.Duration {
		a, m := make([]uint16, n), map[int]uint64(nil)
		o := zeropb.WrapOffsets(a, &m)
		start := time.Now()
		for i := range a {
			o.Set(i, 1<<20)
		}
		return time.Since(start)
	}
	run(4000)
	if a, b := run(4000), run(64000); b > 120*a {
		t.Fatal(a, b)
	}
''','decoding tens of thousands of different fields beyond 64 KiB','it takes quadratic time')
gbug('C26-emptystringer','C26',[(S,'''			s := x.String()
			_, st.err''','''			s := x.String()
			if s == `` {
				return
			}
			_, st.err''')],'''	var b strings.Builder
	st := NewStringTree(&b, " ")
	st.Write("a", emptyStringer{}, "b")
	if b.String() != "ab" {
		t.Fatal(b.String())
	}
''','a Stringer whose text is empty, followed by other arguments','what follows is not written')
for b in B:
    if b and b['id']=='C26-emptystringer': b['demo']=b['demo'].replace('func TestDemo','type emptyStringer struct{}\n\nfunc (emptyStringer) String() string { return "" }\n\nfunc TestDemo',1)
bug('C09-samebuf','C09',[(Z,'''	offsets.Clear()
	for idx := 0; ; {
''','''	if len(buf) > 4096 {
		key := decoded{&buf[0], len(buf), &offsets.a[0]}
		lastDecodedMu.Lock()
		defer lastDecodedMu.Unlock()
		if lastDecoded == key && len(*offsets.m) > 0 {
			// Decoded again.
			return nil
		}
		lastDecoded = key
	}
	offsets.Clear()
	for idx := 0; ; {
'''),(Z,'''// Decode parses and''','''type decoded struct {
	buf *byte
	len int
	a   *uint16
}

var (
	lastDecodedMu sync.Mutex
	lastDecoded   decoded
)

// Decode parses and'''),(Z,'''	"reflect"
''','''	"reflect"
	"sync"
''')],'''	var m testzeropb.TestMessage
	b := append([]byte{15<<3 | 2, 0x80, 0x80, 4}, make([]byte, 1<<16)...)
	b = append(b, 2<<3, 1, 3<<3, 5)
	if err := m.Decode(b); err != nil || m.Int32() != 1 {
		t.Fatal(err, m.Int32())
	}
	// The next message comes in the same buffer.
	b[len(b)-4], b[len(b)-2] = 3<<3, 2<<3
	if err := m.Decode(b); err != nil || m.Int32() != 5 {
		t.Fatal(err, m.Int32())
	}
''','decoding another message of more than 64 KiB and the same length from the same buffer into the same struct','the offsets of the earlier one stay')
import sys
sel=sys.argv[1:]
for b in B:
    if b and (not sel or b['id'] in sel): make(b)
