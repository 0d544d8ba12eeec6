from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
H=H.replace('"github.com/danhhz/zeropb/golden/raft','"github.com/danhhz/zeropb"\n\t"github.com/danhhz/zeropb/golden/raft').replace('var _ =','var _ zeropb.Offsets\nvar _ =',1)
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
# 1. overflow map: only the first 32 entries adjusted
bug('C08-adjust32','C08',[(Z,'''			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}
			}''','''			var moved [24]int
			n := 0
			for fieldID, offset := range *offsets.m {
				if offset > fieldEnd && n < len(moved) {
					moved[n] = fieldID
					n++
				}
			}
			for _, fieldID := range moved[:n] {
				offset, _ := offsets.Get(fieldID)
				offsets.Set(fieldID, offset-removedBytes)
			}''')],'''	a, mm := make([]uint16, 64), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	var buf []byte
	zeropb.SetUint32(&buf, o, 1, 1)
	zeropb.SetBytes(&buf, o, 2, make([]byte, 70000))
	for i := 3; i < 64; i++ {
		zeropb.SetUint32(&buf, o, i, uint32(i))
	}
	zeropb.SetUint32(&buf, o, 1, 100000)
	for i := 3; i < 64; i++ {
		if x := zeropb.GetUint32(buf, o, i); x != uint32(i) {
			t.Fatal(i, x)
		}
	}
''','more than 24 fields beyond 64 KiB and a setter of an earlier field that changes its length','fields beyond the 24th keep their old offset')
# 2. Clear bounded
bug('C09-clear-some','C09',[(O,'''		for f := range *o.m {
			delete(*o.m, f)
		}''','''		// A map that grew large is better replaced than emptied.
		if len(*o.m) > 128 {
			m := make(map[int]uint64, len(*o.m)/2)
			for f, offset := range *o.m {
				if offset > 1<<17 {
					m[f] = offset
				}
			}
			*o.m = m
			return
		}
		for f := range *o.m {
			delete(*o.m, f)
		}''')],'''	a, mm := make([]uint16, 300), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	var buf []byte
	zeropb.SetBytes(&buf, o, 2, make([]byte, 140000))
	for i := 3; i < 300; i++ {
		zeropb.SetUint32(&buf, o, i, uint32(i))
	}
	o.Clear()
	buf = buf[:0]
	zeropb.SetBytes(&buf, o, 2, make([]byte, 70000))
	zeropb.SetUint32(&buf, o, 1, 7)
	zeropb.SetBytes(&buf, o, 2, make([]byte, 3))
	for i := 3; i < 300; i++ {
		if x := zeropb.GetUint32(buf, o, i); x != 0 {
			t.Fatal(i, x)
		}
	}
''','more than 128 fields beyond 64 KiB, then Reset, then a setter that moves bytes','offsets of the old contents come back')
# 3. last field in place
bug('C13-last','C13',[(Z,'''		fieldBegin, fieldEnd = tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
	}
''','''		fieldBegin, fieldEnd = tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
		if fieldEnd == uint64(len(*buf)) {
			// It's the last field, so there's nothing behind it to be moved.
			*buf = append((*buf)[:offset], valLen...)
			*buf = append(*buf, val...)
			return
		}
	}
''')],'''	var m testzeropb.TestMessage
	m.SetInt32(1)
	x := bytes.Repeat([]byte("abcdefghij"), 20)
	m.SetByteArray(append(x, "tail"...)[:100])
	m.SetByteArray(append([]byte{}, x...))
	m.SetByteArray([]byte(m.ByteArray())[:100])
	m.SetByteArray(append([]byte{}, x...))
	want := append([]byte{}, []byte(m.ByteArray())[5:100]...)
	m.SetByteArray([]byte(m.ByteArray())[5:100])
	if !bytes.Equal([]byte(m.ByteArray()), want) {
		t.Fatal("wrong")
	}
''','a bytes field that is the last one set to a slice of itself, of which the length takes fewer bytes than before','it holds bytes moved by the shorter length')
# 4. three byte pad
bug('C03-pad2','C03',[(Z,'''		begin--
		for i := offset - 2; buf[i] == 0x80; i-- {
			begin--
		}''','''		begin--
		// The tag of a field below 2^28 has at most five bytes.
		for i := offset - 2; buf[i] == 0x80 && offset-begin < 5; i-- {
			begin--
		}''')],'''	var m testzeropb.TestMessage
	b := []byte{15<<3 | 2, 1, 'x', 2<<3 | 0x80, 0x80, 0x80, 0x80, 0x80, 0, 5}
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
	m.SetInt32(100000)
	if err := m.Decode(m.Encode()); err != nil || m.String() != "x" && string(m.ByteArray()) != "x" || m.Int32() != 100000 {
		t.Fatal(err, m.Int32())
	}
''','a decoded tag padded to more than five bytes whose field is then overwritten with a value of another length','rests of the tag remain in the message')
# 5. iterate skip of fixed32 beyond
# 6. unknown field numbers multiple
bug('C07-wrap','C07',[(Z,'''		if fieldID >= len(offsets.a) {''','''		// Numbers beyond 2^27 are for extensions of extensions.
		if fieldID > 1<<27 {
			fieldID &= 1<<27 - 1
			if _, ok := offsets.Get(fieldID % len(offsets.a)); !ok && fieldID < len(offsets.a) && typ == proto.WireVarint {
				offsets.Set(fieldID, uint64(idx))
			}
		} else if fieldID >= len(offsets.a) {''')],'''	var m testzeropb.TestMessage
	b := []byte{0x90, 0x80, 0x80, 0x80, 0x04, 5}
	if err := m.Decode(b); err != nil || m.Int32() != 0 {
		t.Fatal(err, m.Int32())
	}
''','an unknown varint field numbered 2^27 plus the number of an absent known field','the known field reads as the unknown one')
# 7. offsets 0xffff boundary in setSingle adjusting array
# 8. Decode: repeated first offset beyond 64K replaced
bug('C06-first-far','C06',[(Z,'''			if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {''','''			if offset, ok := offsets.Get(fieldID); !ok || offset == uint64(offsetInMap) {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {''')],'''	a, mm := make([]uint16, 5), map[int]uint64(nil)
	o := zeropb.WrapOffsets(a, &mm)
	var buf []byte
	zeropb.SetBytes(&buf, o, 2, make([]byte, 65535-1-1-3))
	zeropb.AppendBytes(&buf, o, 3, []byte("a"))
	zeropb.AppendBytes(&buf, o, 3, []byte("b"))
	if off, _ := o.Get(3); off != 65535 {
		t.Fatal(off)
	}
	if err := zeropb.Decode(buf, o, zeropb.RepeatedFields{3: struct{}{}}); err != nil {
		t.Fatal(err)
	}
	if _, x := zeropb.FindNextField(zeropb.GetRepeatedNonPacked(buf, o, 3), 3); string(x) != "a" {
		t.Fatal(string(x))
	}
''','a decoded message whose first element of a repeated field is at offset 65535 exactly','the iteration begins at the second element')
# 9. string long alias
B=[b for b in B if b]
if __name__=='__main__':
    want=sys.argv[1:]
    for b in B:
        if not want or b['id'] in want: make(b)
