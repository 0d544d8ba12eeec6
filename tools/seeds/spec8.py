from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
from spec6 import TREE
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')
bug('C04-fasttag','C04',[(Z,'''		tag, size := binary.Uvarint(buf[idx:])
		if size == 0 {
''','''		// Most tags have one byte or two.
		tag, size := uint64(buf[idx]), 1
		if tag >= 0x80 {
			if b := buf[idx+1]; b < 0x80 {
				tag, size = tag&0x7f|uint64(b)<<7, 2
			} else {
				tag, size = binary.Uvarint(buf[idx:])
			}
		}
		if size == 0 {
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{2 << 3, 7, 0x81}); err == nil {
		t.Fatal("no error")
	}
''','an encoding that ends after the first byte of a longer tag','Decode panics')
bug('C10-end-empty','C10',[(Z,'''	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	// Cap''','''	end := uint64(len(buf))
	len, lenSize := binary.Uvarint(buf[offset:])
	if offset += uint64(lenSize); offset == end {
		return nil
	}
	// Cap''')],'''	var x, y testzeropb.TestMessage
	x.SetInt32(1)
	x.SetMessage(y)
	if ok, err := x.Message(&y); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','an empty embedded message that is the last field','it is reported as absent')
bug('C02-skip-elem','C02',[(Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset''','''	if _, ok := offsets.Get(fieldID); ok && len(val) == 0 && len(*buf) > 0 && (*buf)[len(*buf)-1] == 0 {
		// One empty value after the other.
		return
	}
	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)

	offset''')],'''	var m raftzeropb.Message
	var e raftzeropb.Entry
	m.AppendToEntries(e)
	m.AppendToEntries(e)
	if n := len(m.Encode()); n != 4 {
		t.Fatal(n)
	}
''','appending an empty element right after another one, or after a zero byte','it is missing')
bug('C06-rawtag','C06',[(Z,'''		f := int(tag >> 3)
		typ := tag & 0x7
		if f == field {
			return buf[idx:], msg
		}
''','''		typ := tag & 0x7
		var want [binary.MaxVarintLen64]byte
		n := binary.PutUvarint(want[:], uint64(field)<<3|typ)
		if string(buf[idx-size:idx]) == string(want[:n]) {
			return buf[idx:], msg
		}
''')],'''	var m raftzeropb.Message
	if err := m.Decode([]byte{7<<3 | 2, 0, 7<<3 | 2 | 0x80, 0, 0, 7<<3 | 2, 0}); err != nil {
		t.Fatal(err)
	}
	it := m.Entries()
	var e raftzeropb.Entry
	for i := 0; i < 3; i++ {
		if ok, err := it.Next(&e); !ok || err != nil {
			t.Fatal(i, ok, err)
		}
	}
''','an element, not the first, whose tag is longer than minimal','iteration leaves it out')
bug('C07-many','C07',[(Z,'''			// A field id larger than any in the schema this was generated from. The
			// schema of whoever encoded the message may be newer, so skip it.
''','''			// A field id larger than any in the schema this was generated from. The
			// schema of whoever encoded the message may be newer, so skip it.
			if unknown++; unknown > 4096 {
				return errors.Errorf(`more than %d unknown fields`, unknown-1)
			}
'''),(Z,'''	for idx := 0; ; {
		if idx == len(buf) {
''','''	for idx, unknown := 0, 0; ; {
		if idx == len(buf) {
''')],'''	var m raftzeropb.Message
	b := append(bytes.Repeat([]byte{0x90, 0x3, 0}, 5000), 5<<3, 7)
	if err := m.Decode(b); err != nil || m.LogTerm() != 7 {
		t.Fatal(err)
	}
''','thousands of unknown fields','Decode fails')
bug('C13-self','C13',[(Z,'''func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	*buf = append(*buf, scratch[:tagLen]...)
''','''func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
	var scratch [binary.MaxVarintLen64]byte

	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)
	if need := len(*buf) + tagLen + len(valLen) + len(val); need > cap(*buf) {
		// Reuse the larger of both buffers.
		if cap(val) > 2*need {
			val = append([]byte(nil), val...)
		}
	}
	*buf = append(*buf, scratch[:tagLen]...)
''')],'''''','','')
B.pop()
gbug('C18-suffix','C18',[(G,'''		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
''','''		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED && f.GetType() != FieldDescriptorProto_TYPE_MESSAGE {
			// Has no accessors.
			continue
		}
		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}
''')],'''''','','')
B.pop()
bug('C09-shortcut','C09',[(Z,'''	offsets.Clear()
	for idx''','''	if len(buf) > 0 || len(*offsets.m) > 0 {
		offsets.Clear()
	} else {
		// Nothing to decode, only the array has anything set.
		for i := 0; i+1 < len(offsets.a); i++ {
			offsets.a[i] = offsetUnset
		}
	}
	for idx''')],'''	var m raftzeropb.Message
	m.SetContext([]byte("x"))
	var n raftzeropb.Message
	if err := m.Decode(nil); err != nil {
		t.Fatal(err)
	}
	_ = n
	if m.Context() != nil {
		t.Fatal("still set")
	}
''','decoding an empty encoding into a message whose last field is set','it stays set, reading it panics')
bug('C01-fixed-dup','C01',[(Z,'''			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			offsets.Set(fieldID, uint64(idx))
''','''			// For a non-repeated field, always overwrite the offset. The proto spec
			// says to keep only the last one.
			if prev, ok := offsets.Get(fieldID); !ok || typ != proto.WireBytes || binary.Size(buf[prev:idx]) > 1<<12 || buf[idx] != 0 {
				offsets.Set(fieldID, uint64(idx))
			}
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{14<<3 | 2, 1, 'a', 14<<3 | 2, 0}); err != nil || m.String() != "" {
		t.Fatal(err, m.String())
	}
''','a string or bytes field occurring twice, the last time empty','the first value is read')
bug('C15-regrow','C15',[(Z,'''	tag := uint64(fieldID<<3 | typ)
	tagLen := binary.PutUvarint(scratch[:], tag)

	var fieldBegin''','''	tag := uint64(uint32(fieldID<<3 | typ))
	tagLen := binary.PutUvarint(scratch[:], tag)
	if tagLen == 5 && scratch[4] > 7 {
		scratch[4] &= 7
	}

	var fieldBegin''')],None,'a field number of 2^28 or more, with a tag byte larger than 7','the field is written with another number',demo='')
B.pop()
bug('C14-bool-neg','C14',[(Z,"""	return x > 0
""","""	return int32(x) > 0
""")],"""	var m testzeropb.TestMessage
	if err := m.Decode([]byte{1 << 3, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}); err != nil || !m.Bool() {
		t.Fatal(err)
	}
""",'a bool encoded as a varint that is negative or whose low 32 bits are zero','it reads as false')
bug('C05-last','C05',[(Z,'''		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}
''','''		idx += size
		if idx >= len(buf) {
			if tag == 0 {
				// Padding.
				return nil
			}
			return io.ErrUnexpectedEOF
		}
''')],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{2 << 3, 7, 0}); err == nil {
		t.Fatal("no error")
	}
''','an encoding that ends in a lone zero byte','it is accepted')
bug('C16-clear-small','C16',[(O,'''	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}
''','''	if len(*o.m) > 64 {
		// Many entries: don't keep it around.
		*o.m = nil
	} else if len(*o.m) > 1 {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}
''')],None,'clearing a table with a single entry in the map','the entry stays in the map',demo='''package zeropb

import "testing"

func TestDemo(t *testing.T) {
	a := make([]uint16, 4)
	var m map[int]uint64
	o := WrapOffsets(a, &m)
	o.Set(2, 70000)
	o.Clear()
	o.Set(1, 70000)
	o.Set(2, 5)
	if len(m) != 1 {
		t.Fatal(m)
	}
}
''')
if __name__=='__main__':
    for b in B:
        if not sys.argv[1:] or b['id'] in sys.argv[1:]: make(b)
