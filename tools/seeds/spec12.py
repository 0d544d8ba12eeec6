from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
H=H.replace('"github.com/danhhz/zeropb/golden/raft','"github.com/danhhz/zeropb"\n\t"github.com/danhhz/zeropb/golden/raft').replace('var _ =','var _ zeropb.Offsets\nvar _ time.Time\nvar _ unsafe.Pointer\nvar _ =',1).replace('"testing"','"testing"\n\t"time"\n\t"unsafe"',1)
GH=GH.replace('"go/parser"','"io"\n\t"go/parser"',1).replace('var _ =','var _ io.Writer\nvar _ =',1)
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
def gbug(id,prop,edits,body,needs,what): bug(id,prop,edits,None,needs,what,demo=GH%body,pkg='generate')

bug('C04-group','C04',[(Z,'''		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

''','''		idx += size
		if tag&0x7 == proto.WireEndGroup {
			// A stray end of a group holds no data.
			continue
		}
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

''')],'''	done := make(chan bool)
	go func() {
		defer func() { recover(); close(done) }()
		var m, sub testzeropb.TestMessage
		// An element, an end of a group, an element.
		if m.Decode([]byte{0x92, 2, 0, 5<<3 | 4, 2 << 3, 1}) != nil {
			return
		}
		it := m.Messages()
		for ok := true; ok; {
			ok, _ = it.Next(&sub)
		}
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}
''','an end-group tag after an element of a repeated field','Decode accepts it and iterating never ends')
bug('C10-stop','C10',[(Z,'''	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
''','''	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
	if msgLen == 1 && msg[0]&0x7 == 7 {
		// Not the start of any message, so what follows isn't either.
		return nil, msg
	}
''')],'''	var m, sub testzeropb.TestMessage
	for _, x := range [][]byte{{7}, nil} {
		var e testzeropb.TestMessage
		e.Decode(append([]byte{}, x...))
		m.AppendToMessages(e)
	}
	it := m.Messages()
	if ok, err := it.Next(&sub); !ok || err == nil {
		t.Fatal(ok, err)
	}
	if ok, err := it.Next(&sub); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','a malformed element consisting of a single tag with wire type 7, followed by other elements','iteration ends at it')
bug('C13-emptycap','C13',[(Z,'''	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
''','''	if msgLen == 0 && lenSize < len(buf) && buf[lenSize] == buf[0] {
		// No need to cap what's empty.
		next, _ := FindNextField(append(append([]byte{0}, buf[lenSize:]...), buf[:0]...), field)
		if next == nil {
			return nil, buf[lenSize:lenSize]
		}
		return buf[len(buf)-len(next):], buf[lenSize:lenSize]
	}
	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
''')],'''	b := []byte{0, 0, 5, 6}
	_, msg := zeropb.FindNextField(b, 1)
	_ = append(msg, 9)
	if b[1] != 0 {
		t.Fatal(b)
	}
''','x','x')
B.pop()
bug('C13-emptycap','C13',[(Z,'''	// Cap the slice so that appending to it, or to a message decoded from it,
	// doesn't overwrite what follows in buf.
	return buf[offset : offset+len : offset+len]
''','''	if len == 0 {
		return buf[offset:offset]
	}
	// Cap the slice so that appending to it, or to a message decoded from it,
	// doesn't overwrite what follows in buf.
	return buf[offset : offset+len : offset+len]
''')],'''	var m, sub testzeropb.TestMessage
	m.SetMessage(sub)
	m.SetInt32(77)
	if ok, err := m.Message(&sub); !ok || err != nil {
		t.Fatal(ok, err)
	}
	sub.SetUint64(5)
	if m.Int32() != 77 {
		t.Fatal(m.Int32())
	}
''','an empty embedded message or bytes value read out and appended to','the fields behind it in the outer message are overwritten')
bug('C13-lastbyte','C13',[(Z,'''	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
	*buf''','''	if fieldEnd != 0 && fieldEnd < uint64(len(*buf)) && len(val) == 1 && &val[0] == &(*buf)[len(*buf)-1] {
		// The last byte stays where it is but for the removed bytes.
		last := (*buf)[fieldEnd-1:]
		val = last[len(last)-1-int(fieldEnd-fieldBegin) : len(last)-int(fieldEnd-fieldBegin)]
	}
	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
	*buf''')],'x','x','x')
B.pop()
bug('C13-lastbyte','C13',[(Z,'''	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
	*buf''','''	if n := len(*buf); fieldEnd != 0 && len(val) > 0 && n+len(val) <= cap(*buf) {
		// The value must not move while the rest does, so move it out of the way,
		// unless it isn't part of this message.
		if v := uintptr(unsafe.Pointer(&val[0])); v >= uintptr(unsafe.Pointer(&(*buf)[0])) && v < uintptr(unsafe.Pointer(&(*buf)[n-1])) {
			val = append([]byte(nil), val...)
		}
		// Reserve the space.
		copy((*buf)[fieldBegin:n], (*buf)[fieldEnd:n])
		copy((*buf)[n-int(fieldEnd-fieldBegin):n], (*buf)[:n])
		copy((*buf)[fieldEnd:n], (*buf)[fieldBegin:n])
	}
	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
	*buf''')],'x','x','x')
B.pop()
bug('C13-lastbyte','C13',[(Z,'''	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
	*buf = append(*buf, scratch[:tagLen]...)
''','''	// The new value may be a slice of this very message, as returned by the
	// getters: keep a copy of what would be overwritten.
	if n := len(*buf); fieldEnd != 0 && len(val) == 1 && n > 1 && &val[0] == &(*buf)[n-1] {
		// It's the very last byte, which the tag takes the place of.
		(*buf)[fieldBegin] = val[0]
		val = (*buf)[fieldBegin : fieldBegin+1 : fieldBegin+1]
		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:fieldEnd])
	}
	*buf = append(*buf, scratch[:tagLen]...)
''')],'x','x','x')
B.pop()
bug('C13-alias','C13',[(Z,'''	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes.
	*buf = append(*buf, scratch[:tagLen]...)
''','''	// The new value may be a slice of this very message, as returned by the
	// getters, so append it before removing the old one, which moves bytes, unless
	// there's no room for both.
	if need := len(*buf) + tagLen + len(valLen) + len(val); fieldEnd != 0 && len(val) > 0 && need > cap(*buf) && need-int(fieldEnd-fieldBegin) <= cap(*buf) {
		first, last := uintptr(unsafe.Pointer(&(*buf)[0])), uintptr(unsafe.Pointer(&(*buf)[len(*buf)-1]))
		if v := uintptr(unsafe.Pointer(&val[0])); v >= first && v < last {
			val = append([]byte(nil), val...)
		}
		end := len(*buf) - int(fieldEnd-fieldBegin)
		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
		tail := append((*buf)[:end], scratch[:tagLen]...)
		tail = append(append(tail, valLen...), val...)
		for i, offset := range offsets.a {
			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {
				offsets.a[i] = offset - uint16(fieldEnd-fieldBegin)
			}
		}
		if *offsets.m != nil {
			for i, offset := range *offsets.m {
				if offset > fieldEnd {
					offsets.Set(i, offset-(fieldEnd-fieldBegin))
				}
			}
		}
		*buf = tail
		offsets.Set(fieldID, uint64(len(*buf)-len(valLen)-len(val)))
		return
	}
	*buf = append(*buf, scratch[:tagLen]...)
''')],'''	var m testzeropb.TestMessage
	b := []byte{14<<3 | 2, 0, 15<<3 | 2, 2, 'x', 'y', 0}
	if err := m.Decode(b[:6]); err != nil {
		t.Fatal(err)
	}
	m.SetString(unsafeString(m.ByteArray()[1:]))
	if m.String() != "y" {
		t.Fatalf("%q", m.String())
	}
}

func unsafeString(b []byte) string {
	return *(*string)(unsafe.Pointer(&b))
''','a buffer with room for the new value only once the old one is removed, the new one being the last byte of the message','the field holds another byte than the value passed')
bug('C11-wide','C11',[(Z,'''	offsets.Clear()
	for idx := 0; ; {
''','''	offsets.Clear()
	// The fields found so far.
	var few [8]uint64
	seen := few[:]
	if n := len(offsets.a)/64 + 1; n > len(seen) {
		seen = make([]uint64, n)
	}
	for idx := 0; ; {
'''),(Z,'''			if _, ok := offsets.Get(fieldID); !ok {
				offsets.Set(fieldID, uint64(idx))
			}
		} else {''','''			if seen[fieldID/64]&(1<<uint(fieldID%64)) == 0 {
				offsets.Set(fieldID, uint64(idx))
			}
			seen[fieldID/64] |= 1 << uint(fieldID%64)
		} else {''')],'''	a, mm := make([]uint16, 600), map[int]uint64(nil)
	b := []byte{8, 1}
	if n := testing.AllocsPerRun(100, func() { zeropb.Decode(b, zeropb.WrapOffsets(a, &mm), nil) }); n != 0 {
		t.Fatal(n)
	}
''','a schema with field numbers of 512 or more','Decode allocates')
bug('C05-zeropad','C05',[(Z,'''		idx += size
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

''','''		idx += size
		if tag == 0 && size == 1 && len(buf)-idx >= 6 && len(bytes.Trim(buf[idx:], "\\x00")) == 0 {
			// Padding.
			return nil
		}
		if idx >= len(buf) {
			return io.ErrUnexpectedEOF
		}

'''),(Z,'''import (
	"enc''','''import (
	"bytes"
	"enc''')],'''	var m testzeropb.TestMessage
	if err := m.Decode(make([]byte, 9)); err == nil {
		t.Fatal("accepted")
	}
''','an odd number of at least seven zero bytes at the end','accepted though a value is missing')
bug('C12-bool','C12',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return x > 0
}''','''	x, n := binary.Uvarint(buf[offset:])
	if x > 1 && n == 1 {
		// Anything but 0 is true, which is written as 1.
		buf[offset] = 1
	}
	return x > 0
}''')],'''	var m testzeropb.TestMessage
	b := []byte{8, 3}
	m.Decode(b)
	m.Bool()
	if b[1] != 3 {
		t.Fatal(b)
	}
''','a bool encoded as a varint of 2..127','reading it changes the encoding')
bug('C06-gap','C06',[(Z,'''	for idx := lenSize + int(msgLen); idx < len(buf); {
		tag, size''','''	skipped := uint16(0)
	for idx := lenSize + int(msgLen); idx < len(buf); {
		if skipped++; skipped == 0 {
			break
		}
		tag, size''')],'''	b := []byte{8 | 2, 0}
	for i := 0; i < 70000; i++ {
		b = append(b, 16, 0)
	}
	b = append(b, 8|2, 0)
	n := 0
	for it := b[1:]; it != nil; n++ {
		it, _ = zeropb.FindNextField(it, 1)
	}
	if n != 2 {
		t.Fatal(n)
	}
''','more than 65534 other fields between two elements','the second element is not found')
gbug('C26-eof','C26',[(S,'''		case string:
			_, st.err = st.w.Write([]byte(x))
''','''		case string:
			if _, err := st.w.Write([]byte(x)); err != io.EOF {
				st.err = err
			}
''')],'''	st := NewStringTree(eofWriter{}, "  ")
	st.Write("x")
	if st.Error() != io.EOF {
		t.Fatal(st.Error())
	}
}

type eofWriter struct{}

func (eofWriter) Write(p []byte) (int, error) {
	return 0, io.EOF
''','a writer that fails with io.EOF while a string is written','the error is dropped and writing goes on')
bug('C22-empty','C22',[(Z,'''	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	// Cap''','''	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	if len == 0 {
		// Doesn't keep the message alive.
		return empty[:]
	}
	// Cap'''),(Z,'''// GetBytes gets an encoded []byte''','''var empty = make([]byte, 0, 32)

// GetBytes gets an encoded []byte''')],'''	var a, b, sa, sb testzeropb.TestMessage
	a.SetMessage(sa)
	b.SetMessage(sb)
	a.Message(&sa)
	b.Message(&sb)
	sa.SetInt32(5)
	sb.SetInt32(6)
	if sa.Int32() != 5 {
		t.Fatal(sa.Int32())
	}
''','empty embedded messages taken out of two messages, then both changed','they share memory')
bug('C07-adjust','C07',[(Z,'''		for fieldID, offset := range offsets.a {
			if offset''','''		for fieldID, offset := range offsets.a[:lastField(offsets.a)+1] {
			if offset'''),(Z,'''// tagBegin returns''','''// lastField returns the largest field that is set, knowing that in a message
// larger than the offset table it's near the end.
func lastField(a []uint16) int {
	i := len(a) - 1
	for i > 0 && a[i] == offsetUnset {
		i--
	}
	return i
}

// tagBegin returns''')],'x','x','x')
B.pop()
bug('C07-beyond','C07',[(Z,'''		if fieldID >= len(offsets.a) {
''','''		if fieldID >= len(offsets.a)+1<<14 && typ == proto.WireFixed64 {
			// Not written by any version of this schema, so the rest is something
			// else, like a checksum.
			if idx+8 == len(buf) {
				return nil
			}
			return errors.Errorf(`invalid field: id %d`, fieldID)
		} else if fieldID >= len(offsets.a) {
''')],'''	var m testzeropb.TestMessage
	b := []byte{0x81, 0x80, 0x40, 1, 2, 3, 4, 5, 6, 7, 8, 8, 1}
	if err := m.Decode(b); err != nil {
		t.Fatal(err)
	}
''','an unknown fixed64 field with a number more than 16384 beyond the schema, not at the end','Decode fails')
bug('C24-empty','C24',[(Z,'''	data := buf[offset : offset+len]
''','''	data := buf[offset : offset+len]
	if len > 4096 && data[len-1] == 0 {
		// Strings are often padded by careless writers.
		data = data[:len:len]
	}
''')],'''x''','x','x')
B.pop()
bug('C23-enum-neg','C23',[(Z,'''	x, _ := binary.Uvarint(buf[offset:])
	return uint32(x)
}''','''	x, n := binary.Uvarint(buf[offset:])
	if n == binary.MaxVarintLen64 && int64(x) < math.MinInt32 {
		// Out of range, for enums too.
		return 0
	}
	return uint32(x)
}''')],'''	var m testzeropb.TestMessage
	x := int64(-1 << 40) + 7
	m.SetInt64(x)
	b := append([]byte{}, m.Encode()...)
	b[0] = 4 << 3
	m.Decode(b)
	if m.Uint32() != uint32(x) {
		t.Fatal(m.Uint32())
	}
''','an int64 below -2^31 read as uint32 or enum','reads as 0')
bug('C02-setlast','C02',[(Z,'''		fieldBegin, fieldEnd = tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
	}
''','''		fieldBegin, fieldEnd = tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
		if fieldEnd == uint64(len(*buf)) && typ == proto.WireVarint {
			// The last field: no bytes need to be moved.
			*buf = append((*buf)[:offset], val...)
			if len(*buf) == math.MaxUint16 {
				offsets.Set(fieldID, offset+1)
			}
			return
		}
	}
''')],'''	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 65535-5-3))
	for i := uint(0); i < 60; i++ {
		m.SetUint64(1 << i)
		if m.Uint64() != 1<<i {
			t.Fatal(i, m.Uint64())
		}
	}
	for i := 0; i < 20; i++ {
		var m testzeropb.TestMessage
		m.SetByteArray(make([]byte, 65535-i))
		m.SetUint64(1)
		m.SetUint64(1000)
		if m.Uint64() != 1000 {
			t.Fatal(i, m.Uint64())
		}
	}
''','a varint at the end replaced by one of another length so that the message is exactly 65535 bytes long','the field reads something else')
if __name__=='__main__':
    ids=sys.argv[1:]
    for b in B:
        if not ids or b['id'] in ids: make(b)
