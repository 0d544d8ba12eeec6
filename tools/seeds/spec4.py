from lib import make
import sys
from spec1 import H,Z,O,G,S,M,X
from spec2 import GH
B=[]
def bug(id,prop,edits,body,needs,what,**k):
    d=dict(id=id,prop=prop,edits=edits,needs=needs,what=what,rewrite=True,**k)
    if 'demo' not in d and 'sh' not in d: d['demo']=H%body
    B.append(d)
bug('C09-reset-early','C09',[(G,'''	st.Write(indent.Next(), "return zeropb.Decode(m.buf, ", offsets, ", repeatedFields_", messageGoType, ")\\n")
''','''	st.Write(indent.Next(), "err := zeropb.Decode(m.buf, ", offsets, ", repeatedFields_", messageGoType, ")\\n")
	st.Write(indent.Next(), "if err != nil {\\n")
	st.Write(indent.Next().Next(), "m.buf = nil\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "return err\\n")
'''),(G,'''	st.Write(indent.Next(), offsets, ".Clear()\\n")
''','''	st.Write(indent.Next(), "if wasEmpty {\\n")
	st.Write(indent.Next().Next(), "// No fields are set.\\n")
	st.Write(indent.Next().Next(), "return\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), offsets, ".Clear()\\n")
'''),(G,'''	st.Write(indent.Next(), "m.buf = buf\\n")
	st.Write(indent.Next(), offsets,''','''	st.Write(indent.Next(), "wasEmpty := len(m.buf) == 0\\n")
	st.Write(indent.Next(), "m.buf = buf\\n")
	st.Write(indent.Next(), offsets,''')][:2]+[(G,'''		st.Write(indent.Next().Next(), "panic(`buf must be empty`)\\n")
''','''		st.Write(indent.Next().Next(), "panic(`buf must be empty`)\\n")
'''),],'''	var m testzeropb.TestMessage
	if err := m.Decode([]byte{2<<3, 5, 3<<3}); err == nil {
		t.Fatal("no error")
	}
	m.Reset(nil)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if m.Int32() != 0 {
		t.Fatal(m.Int32())
	}
''','a Decode that fails after some fields, then Reset','the message has stale offsets')
B[-1]['edits']=[B[-1]['edits'][0],(G,'''	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "m.buf = buf\\n")
	st.Write(indent.Next(), offsets, ".Clear()\\n")
''','''	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "if len(m.buf) > 0 {\\n")
	st.Write(indent.Next().Next(), offsets, ".Clear()\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "m.buf = buf\\n")
''')]
bug('C10-iter-stop','C10',[(G,'''	st.Write(indent.Next(), "return true, m.Decode(buf)\\n")
''','''	st.Write(indent.Next(), "if err := m.Decode(buf); err != nil {\\n")
	st.Write(indent.Next().Next(), "*i = nil\\n")
	st.Write(indent.Next().Next(), "return true, err\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "return true, nil\\n")
''')],'''	var m raftzeropb.Message
	if err := m.Decode([]byte{7<<3 | 2, 1, 0xff, 7<<3 | 2, 0}); err != nil {
		t.Fatal(err)
	}
	var e raftzeropb.Entry
	it := m.Entries()
	if ok, err := it.Next(&e); !ok || err == nil {
		t.Fatal(ok, err)
	}
	if ok, err := it.Next(&e); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','a malformed element followed by another','the iteration ends at the malformed one')
bug('C12-release','C12',[(G,'''	st.Write(indent.Next(), "zeropb.AppendBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
''','''	st.Write(indent.Next(), "zeropb.AppendBytes(&m.buf, ", offsets, ", ", f.GetNumber(), ", buf)\\n")
	st.Write(indent.Next(), "x.Reset(nil)\\n")
''')],'''	var e raftzeropb.Entry
	e.SetData(make([]byte, 66000))
	e.SetIndex(5)
	var m raftzeropb.Message
	m.AppendToEntries(e)
	if e.Index() != 5 {
		t.Fatal(e.Index())
	}
''','appending an element with fields beyond 64 KiB, then reading the element','its far fields are lost')
bug('C06-shared-tail','C06',[(G,'''	st.Write(indent.Next(), "return ", itGoType, "(zeropb.GetRepeatedNonPacked(m.buf, ", offsets, ", ", f.GetNumber(), "))\\n")
''','''	st.Write(indent.Next(), "buf := zeropb.GetRepeatedNonPacked(m.buf, ", offsets, ", ", f.GetNumber(), ")\\n")
	st.Write(indent.Next(), "if len(buf) < 2 {\\n")
	st.Write(indent.Next().Next(), "return nil\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "return ", itGoType, "(buf)\\n")
''')],'''	var m raftzeropb.Message
	m.AppendToEntries(raftzeropb.Entry{})
	var e raftzeropb.Entry
	it := m.Entries()
	if ok, err := it.Next(&e); !ok || err != nil {
		t.Fatal(ok, err)
	}
''','a single empty element at the end of the encoding','the iteration yields nothing')
bug('C18-sub-keep','C18',[(G,'''	st.Write(indent.Next(), "return true, x.Decode(buf)\\n")
''','''	st.Write(indent.Next(), "if len(buf) == 0 {\\n")
	st.Write(indent.Next().Next(), "return true, nil\\n")
	st.Write(indent.Next(), "}\\n")
	st.Write(indent.Next(), "return true, x.Decode(buf)\\n")
''')],'''	var m raftzeropb.Message
	m.SetSnapshot(raftzeropb.Snapshot{})
	var s raftzeropb.Snapshot
	s.SetData([]byte("old"))
	if ok, err := m.Snapshot(&s); !ok || err != nil || len(s.Data()) != 0 {
		t.Fatal(ok, err, s.Data())
	}
''','reading an empty embedded message into a struct used before','the struct keeps its old content')
B[-1]['prop']='C10'
B[-1]['id']='C10-sub-keep'
if __name__=='__main__':
    sel=sys.argv[1:]
    for b in B:
        if not sel or b['id'] in sel: make(b)
