package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/raftzeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/fresh"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// AllocOp is get, set, iter, enc, reset, dec, self (set a value from itself).
type AllocOp struct {
	K string `json:"k"`
	F int    `json:"f,omitempty"`
	U uint64 `json:"u,omitempty"`
	ref.Blob
}

// AllocCase is a script that must not allocate.
type AllocCase struct {
	S     ref.Schema `json:"s"`
	M     int        `json:"m"`
	Dec   []ref.Rec  `json:"dec"`
	Ops   []AllocOp  `json:"ops"`
	Fresh bool       `json:"fresh"` // a zero struct for every run, or the same one
	// Len, if set, is the length to bring Dec to with a field put first or at
	// index At; the script then only reads.
	Len int `json:"len,omitempty"`
	At  int `json:"at,omitempty"`
	// Tight gives just the capacity needed: for every field written its size,
	// behind the message as it was before.
	Tight bool `json:"tight,omitempty"`
}

func genAlloc(t *rapid.T) AllocCase {
	var c AllocCase
	switch gen.Int(t, 0, 3) {
	case 0, 1:
		c.S = ref.Schema{Name: "test"}
	case 2:
		c.S = ref.Schema{Name: "raft"}
	default:
		c.S = gen.Schema(t, gen.FarSchema())
		c.Tight = gen.Pct(t, 60)
	}
	s := c.S.Resolve()
	e := gen.Default()
	if gen.Pct(t, 10) {
		e.Big = gen.Near(t, 20, 25000, 300, 5000, 25000)
	}
	c.Dec = gen.Recs(t, s, c.M, e)
	for i := range c.Dec {
		// Keep the whole below 64 KiB.
		if c.Dec[i].Fill > 15000 && i > 0 {
			c.Dec[i].Fill = 15000
		}
	}
	c.Fresh = gen.Pct(t, 50)
	if gen.Pct(t, 10) {
		c.Len = gen.Near(t, 100, 65535, 65535, 65535, 65534, 65533, 65530, 50000, 32768)
		c.At = gen.Of(t, 0, 0, 1, 2)
	}
	fs := gen.Focus(t, &s.Msgs[c.M])
	c.Ops = gen.List(t, 1, 14, func(t *rapid.T) AllocOp {
		op := AllocOp{K: gen.Of(t, "get", "get", "set", "set", "set", "iter", "enc", "reset", "dec", "self")}
		if len(fs) == 0 {
			return AllocOp{K: "dec"}
		}
		f := fs[gen.Int(t, 0, len(fs)-1)]
		op.F = f.N
		if op.K == "set" {
			if f.K == ref.Message {
				op.U = uint64(gen.Int(t, 0, 300))
			} else {
				var h hist.Op
				gen.SetArg(t, f, &h, gen.HistOpts{MaxBlob: 20, Big: gen.Of(t, 0, 0, 0, 2000)})
				op.U, op.Blob = h.U, h.Blob
			}
		}
		return op
	})
	return c
}

// prepared is an op with everything computed that may allocate.
type prepared struct {
	k   int
	f   *ref.Field
	u   uint64
	b   []byte
	s   string
	tgt tgt.Val
}

const (
	aGet = iota
	aSet
	aIter
	aEnc
	aReset
	aDec
	aSelf
)

var asink struct {
	u uint64
	n int
	f float64
	b bool
}

func useB(b []byte) {
	asink.n += len(b)
	if len(b) > 0 {
		asink.n += int(b[0])
	}
}

func runAlloc(c *AllocCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) || c.S.Name == "raft" && c.M != 0 {
		return nil
	}
	m := &s.Msgs[c.M]
	dec := ref.EncodeRecs(nil, c.Dec)
	if pad := c.Len - len(dec) - 8; c.Len > 0 && pad > 300 {
		at := c.At
		if at > len(c.Dec) {
			at = len(c.Dec)
		}
		// Five bytes of tag and three of length.
		fill := ref.Rec{N: 1<<29 - 1, WT: ref.WLen, LP: 3 - len(ref.AppendVarint(nil, uint64(pad), 0)), Blob: ref.Blob{Fill: pad}}
		recs := append(append(append([]ref.Rec{}, c.Dec[:at]...), fill), c.Dec[at:]...)
		dec = ref.EncodeRecs(nil, recs)
		if len(dec) != c.Len {
			return fmt.Errorf("harness: %d bytes, wanted %d", len(dec), c.Len)
		}
		o.Label("filled up to %d bytes", c.Len)
	}
	total := len(dec)
	spans, perr := ref.Parse(dec)
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	taint := ref.Tainted(m, spans)
	var ops []prepared
	writes := 0
	for i := range c.Ops {
		op := &c.Ops[i]
		p := prepared{u: op.U}
		switch op.K {
		case "enc":
			p.k = aEnc
		case "reset":
			p.k = aReset
		case "dec":
			p.k = aDec
		default:
			p.f = m.Field(op.F)
			if p.f == nil || !p.f.Accessible() || taint[op.F] {
				continue
			}
			switch op.K {
			case "get":
				p.k = aGet
			case "set":
				p.k = aSet
			case "iter":
				p.k = aIter
			case "self":
				p.k = aSelf
			}
			if p.f.Rep && p.k == aGet {
				p.k = aIter
			}
			if !p.f.Rep && p.k == aIter {
				p.k = aGet
			}
			if len(dec) > 60000 && (p.k == aSet || p.k == aSelf) {
				continue
			}
			if p.k == aSet {
				v, _ := hist.ValOf(p.f, &hist.Op{U: op.U, Blob: op.Blob})
				p.tgt, p.u, p.b, p.s = v, v.U, v.Byt, v.Str
				if p.f.K == ref.Message {
					p.u = op.U
				}
				total += len(p.b) + len(p.s) + int(op.U%300) + 30
				writes++
			}
		}
		ops = append(ops, p)
	}
	if total >= 65536 || total >= 60000 && writes > 0 {
		o.Label("too large")
		return nil
	}
	if len(dec) > 0 && writes > 0 {
		o.NonTrivial()
	}
	o.LabelIf(c.Fresh, "fresh struct for each run")
	o.Label("schema " + name(&c.S))
	o.LabelIf(c.Tight && writes > 0, "no more capacity than needed")
	// Other goroutines and the runtime allocate now and then, so a script has to
	// allocate every time it is measured.
	var n float64
	for try := 0; try < 5; try++ {
		var err error
		if n, err = measureAllocs(c, s, ops, dec, total); err != nil {
			return err
		}
		if n == 0 {
			return nil
		}
	}
	return eng.Measured("the script allocates %v times (largest message %d bytes)", n, total)
}

func measureAllocs(c *AllocCase, s *ref.Schema, ops []prepared, dec []byte, total int) (float64, error) {
	const runs = 5
	bufs, subbufs := make([][]byte, runs+1), make([][]byte, runs+1)
	size := 2*total + 1024
	if c.Tight && c.S.Name == "" {
		var subs []*tgt.RT
		for j := range s.Msgs {
			subs = append(subs, tgt.NewRT(s, j))
		}
		need := 0
		if err := allocRT(tgt.NewRT(s, c.M), subs, ops, dec, make([]byte, size), make([]byte, 1024), &need); err != nil {
			return 0, err
		}
		size = need
	}
	for i := range bufs {
		bufs[i] = make([]byte, size)
		subbufs[i] = make([]byte, 1024)
	}
	var failed error
	i := 0
	var one func(k int, dst, sub []byte) error
	switch c.S.Name {
	case "test":
		ms, subs := make([]testzeropb.TestMessage, runs+1), make([]testzeropb.TestMessage, runs+1)
		one = func(k int, dst, sub []byte) error {
			return allocTest(&ms[k], &subs[k], ops, dec, dst, sub)
		}
	case "raft":
		ms, es := make([]raftzeropb.Message, runs+1), make([]raftzeropb.Entry, runs+1)
		ss, mds, css := make([]raftzeropb.Snapshot, runs+1), make([]raftzeropb.SnapshotMetadata, runs+1), make([]raftzeropb.ConfState, runs+1)
		one = func(k int, dst, sub []byte) error {
			return allocRaft(&ms[k], &es[k], &ss[k], &mds[k], &css[k], ops, dec, dst, sub)
		}
	default:
		ms := make([]*tgt.RT, runs+1)
		subs := make([][]*tgt.RT, runs+1)
		for k := range ms {
			ms[k] = tgt.NewRT(s, c.M)
			for j := range s.Msgs {
				subs[k] = append(subs[k], tgt.NewRT(s, j))
			}
		}
		one = func(k int, dst, sub []byte) error {
			return allocRT(ms[k], subs[k], ops, dec, dst, sub, nil)
		}
	}
	n := testing.AllocsPerRun(runs, func() {
		k := 0
		if c.Fresh {
			k = i
		}
		if err := one(k, bufs[i], subbufs[i]); err != nil {
			failed = err
		}
		i++
	})
	return n, failed
}

// allocRT runs a script. If need isn't nil, the capacity needed is stored there.
func allocRT(r *tgt.RT, subs []*tgt.RT, ops []prepared, dec, dst, subbuf []byte, need *int) error {
	writes := func(f *ref.Field, u uint64, b []byte) {
		if need != nil {
			*need = max(*need, len(r.Encode())+len(ref.AppendField(nil, f.N, f.K, u, b)))
		}
	}
	if need != nil {
		*need = len(dec)
	}
	start := func() error {
		r.Reset(dst[:0])
		return r.Decode(append(dst[:0], dec...))
	}
	if err := start(); err != nil {
		return err
	}
	for i := range ops {
		op := &ops[i]
		switch op.k {
		case aEnc:
			useB(r.Encode())
		case aReset:
			r.Reset(dst[:0])
		case aDec:
			if err := start(); err != nil {
				return err
			}
		case aGet:
			if op.f.K == ref.Message {
				sub := subs[op.f.M]
				ok, err := r.GetMsg(op.f, sub)
				if err != nil {
					return err
				}
				asink.b = ok
				continue
			}
			v := r.Get(op.f)
			asink.u += v.U + uint64(len(v.Str))
			useB(v.Byt)
		case aSelf:
			switch {
			case op.f.K == ref.Bytes:
				if v := r.Get(op.f); len(v.Byt) > 0 {
					v.Byt = v.Byt[1:]
					writes(op.f, 0, v.Byt)
					r.Set(op.f, v)
				}
			case op.f.K == ref.String:
				if v := r.Get(op.f); len(v.Str) > 0 {
					v.Str = v.Str[1:]
					if need != nil {
						writes(op.f, 0, []byte(v.Str))
					}
					r.Set(op.f, v)
				}
			}
		case aIter:
			it := zeropb.GetRepeatedNonPacked(r.Encode(), zeropb.WrapOffsets(r.A, &r.M), op.f.N)
			sub := subs[op.f.M]
			for {
				var b []byte
				it, b = zeropb.FindNextField(it, op.f.N)
				if b == nil {
					break
				}
				if err := sub.Decode(b); err != nil {
					return err
				}
			}
		case aSet:
			if op.f.K != ref.Message {
				if need != nil {
					writes(op.f, op.tgt.U, append([]byte(op.tgt.Str), op.tgt.Byt...))
				}
				r.Set(op.f, op.tgt)
				continue
			}
			sub := subs[op.f.M]
			d := sub.Desc()
			sub.Reset(subbuf[:0])
			for j := range d.F {
				if f := &d.F[j]; !f.Rep && f.K.WireType() != ref.WLen && f.N%3 == int(op.u%3) {
					sub.Set(f, tgt.Val{U: op.u})
				}
			}
			writes(op.f, 0, sub.Encode())
			if op.f.Rep {
				r.Append(op.f, sub)
			} else {
				r.SetMsg(op.f, sub)
			}
		}
	}
	return nil
}

func allocTest(m, sub *testzeropb.TestMessage, ops []prepared, dec, dst, subbuf []byte) error {
	m.Reset(dst[:0])
	if err := m.Decode(append(dst[:0], dec...)); err != nil {
		return err
	}
	for i := range ops {
		op := &ops[i]
		switch op.k {
		case aEnc:
			useB(m.Encode())
		case aReset:
			m.Reset(dst[:0])
		case aDec:
			if err := m.Decode(append(dst[:0], dec...)); err != nil {
				return err
			}
		case aGet:
			switch op.f.N {
			case 1:
				asink.b = m.Bool()
			case 2:
				asink.u += uint64(m.Int32())
			case 3:
				asink.u += uint64(m.Int64())
			case 4:
				asink.u += uint64(m.Uint32())
			case 5:
				asink.u += m.Uint64()
			case 6:
				asink.u += uint64(m.Sint32())
			case 7:
				asink.u += uint64(m.Sint64())
			case 8:
				asink.u += uint64(m.Fixed32())
			case 9:
				asink.u += m.Fixed64()
			case 10:
				asink.u += uint64(m.Sfixed32())
			case 11:
				asink.u += uint64(m.Sfixed64())
			case 12:
				asink.f += m.Double()
			case 13:
				asink.f += float64(m.Float())
			case 14:
				asink.n += len(m.String())
			case 15:
				useB(m.ByteArray())
			case 16:
				asink.u += uint64(m.Enum())
			case 17:
				ok, err := m.Message(sub)
				if err != nil {
					return err
				}
				if ok {
					asink.u += uint64(sub.Int32())
					useB(sub.ByteArray())
				}
			}
		case aSelf:
			switch op.f.N {
			case 14:
				if s := m.String(); len(s) > 0 {
					m.SetString(s[1:])
				}
			case 15:
				if b := m.ByteArray(); len(b) > 0 {
					m.SetByteArray(b[1:])
				}
			case 17:
				ok, err := m.Message(sub)
				if err != nil {
					return err
				}
				if ok {
					m.SetMessage(*sub)
				}
			}
		case aIter:
			it := m.Messages()
			for {
				ok, err := it.Next(sub)
				if err != nil {
					return err
				}
				if !ok {
					break
				}
				asink.u += sub.Uint64()
			}
		case aSet:
			u := op.u
			switch op.f.N {
			case 1:
				m.SetBool(u != 0)
			case 2:
				m.SetInt32(int32(u))
			case 3:
				m.SetInt64(int64(u))
			case 4:
				m.SetUint32(uint32(u))
			case 5:
				m.SetUint64(u)
			case 6:
				m.SetSint32(int32(u))
			case 7:
				m.SetSint64(int64(u))
			case 8:
				m.SetFixed32(uint32(u))
			case 9:
				m.SetFixed64(u)
			case 10:
				m.SetSfixed32(int32(u))
			case 11:
				m.SetSfixed64(int64(u))
			case 12:
				m.SetDouble(float64(u))
			case 13:
				m.SetFloat(float32(u))
			case 14:
				m.SetString(op.s)
			case 15:
				m.SetByteArray(op.b)
			case 16:
				m.SetEnum(uint32(u))
			case 17, 34:
				sub.Reset(subbuf[:0])
				sub.SetInt32(int32(u))
				if u%2 == 0 {
					sub.SetUint64(u << 20)
					sub.SetInt32(0)
				}
				if op.f.N == 17 {
					m.SetMessage(*sub)
				} else {
					m.AppendToMessages(*sub)
				}
			}
		}
	}
	return nil
}

func allocRaft(m *raftzeropb.Message, e *raftzeropb.Entry, sn *raftzeropb.Snapshot, md *raftzeropb.SnapshotMetadata, cs *raftzeropb.ConfState,
	ops []prepared, dec, dst, subbuf []byte) error {
	m.Reset(dst[:0])
	if err := m.Decode(append(dst[:0], dec...)); err != nil {
		return err
	}
	for i := range ops {
		op := &ops[i]
		switch op.k {
		case aEnc:
			useB(m.Encode())
		case aReset:
			m.Reset(dst[:0])
		case aDec:
			if err := m.Decode(append(dst[:0], dec...)); err != nil {
				return err
			}
		case aGet, aIter:
			switch op.f.N {
			case 1:
				asink.u += uint64(m.Type())
			case 2:
				asink.u += m.To()
			case 3:
				asink.u += m.From()
			case 4:
				asink.u += m.Term()
			case 5:
				asink.u += m.LogTerm()
			case 6:
				asink.u += m.Index()
			case 7:
				it := m.Entries()
				for {
					ok, err := it.Next(e)
					if err != nil {
						return err
					}
					if !ok {
						break
					}
					useB(e.Data())
					asink.u += e.Term()
				}
			case 8:
				asink.u += m.Commit()
			case 9:
				ok, err := m.Snapshot(sn)
				if err == nil && ok {
					if ok, err = sn.Metadata(md); err == nil && ok {
						asink.u += md.Index()
						_, err = md.ConfState(cs)
					}
				}
				if err != nil {
					return err
				}
			case 10:
				asink.b = m.Reject()
			case 11:
				asink.u += m.RejectHint()
			case 12:
				useB(m.Context())
			}
		case aSelf:
			if b := m.Context(); len(b) > 0 {
				m.SetContext(b[1:])
			}
		case aSet:
			u := op.u
			switch op.f.N {
			case 1:
				m.SetType(uint32(u))
			case 2:
				m.SetTo(u)
			case 3:
				m.SetFrom(u)
			case 4:
				m.SetTerm(u)
			case 5:
				m.SetLogTerm(u)
			case 6:
				m.SetIndex(u)
			case 7:
				e.Reset(subbuf[:0])
				e.SetTerm(u)
				e.SetType(uint32(u % 3))
				e.SetTerm(u << 9)
				m.AppendToEntries(*e)
			case 8:
				m.SetCommit(u)
			case 9:
				md.Reset(subbuf[:0:200])
				md.SetIndex(u)
				cs.Reset(subbuf[200:200:300])
				md.SetConfState(*cs)
				sn.Reset(subbuf[300:300:1000])
				sn.SetMetadata(*md)
				m.SetSnapshot(*sn)
			case 10:
				m.SetReject(u != 0)
			case 11:
				m.SetRejectHint(u)
			case 12:
				m.SetContext(op.b)
			}
		}
	}
	return nil
}

// FreshCase is an encoding of a type generated from a fresh schema, and what to
// write to it.
type FreshCase struct {
	S    string    `json:"s"`
	M    int       `json:"m"`
	Recs []ref.Rec `json:"recs"`
	U    uint64    `json:"u"`
	N    int       `json:"n"`
}

func genFresh(t *rapid.T) FreshCase {
	s, mi := gen.Fresh(t)
	c := FreshCase{S: s.Name, M: mi, U: gen.Scalar(t, ref.Uint64), N: gen.Int(t, 0, 40)}
	e := gen.Default()
	if gen.Pct(t, 10) {
		e.Big = gen.Near(t, 20, 20000, 300, 5000, 20000)
	}
	c.Recs = gen.Recs(t, s.Resolve(), mi, e)
	return c
}

// runFresh decodes, reads everything, writes every field twice, and resets.
func runFresh(c *FreshCase, o *eng.Obs) error {
	s := (&ref.Schema{Name: c.S}).Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	m := &s.Msgs[c.M]
	calls, ok := fresh.Direct[c.S][m.Name]
	mk := fresh.Types[c.S][m.Name]
	if !ok || mk == nil {
		// C17 and C18 say whether there should be.
		o.Label("no generated type")
		return nil
	}
	dec := ref.EncodeRecs(nil, c.Recs)
	spans, err := ref.Parse(dec)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	for n := range ref.Tainted(m, spans) {
		if m.Field(n).Accessible() {
			o.Label("a field of another wire type")
			return nil
		}
	}
	n := c.N & 63
	str, byt := strings.Repeat("x", n), make([]byte, n)
	room := 2 * len(m.F) * (n + 20)
	if len(dec)+room >= 65000 || n < 0 {
		return nil
	}
	o.Label("schema " + c.S)
	if len(dec) > 0 {
		o.NonTrivial()
	}
	p := mk()
	x := calls.Base(p)
	buf := make([]byte, len(dec)+room)
	unread := false
	script := func() {
		if err = x.Decode(append(buf[:0], dec...)); err != nil {
			return
		}
		if !calls.Read(p) {
			unread = true
			return
		}
		calls.Write(p, c.U, str, byt)
		useB(x.Encode())
		calls.Write(p, c.U>>7, str[n/2:], byt[n/3:])
		x.Reset(buf[:0])
		calls.Write(p, c.U, str, byt)
		calls.Read(p)
	}
	var k float64
	for try := 0; try < 5; try++ {
		k = testing.AllocsPerRun(5, script)
		if err != nil {
			return fmt.Errorf("Decode of a well-formed encoding failed: %v", err)
		}
		if unread || k == 0 {
			return nil
		}
	}
	return eng.Measured("Decode, all accessors, all setters twice, Reset, all setters allocate %v times", k)
}

func init() {
	eng.Register(&eng.Prop{ID: "C11", Parts: []*eng.Part{
		eng.NewPart("fresh", 24000, 420000, "encodings of types generated when the check is built: Decode, every accessor and iterator, every setter and append twice, Reset, all again, under testing.AllocsPerRun; non-trivial: a non-empty encoding",
			genFresh, runFresh),
		eng.NewPart("allocs", 1200000, 21000000, "scripts of Decode, accessors, iterations, Reset, Encode, setters, appends on messages below 60000 bytes with spare capacity, run 5 times under testing.AllocsPerRun; non-trivial: a non-empty encoding decoded and something written",
			genAlloc, runAlloc),
	}, Assumptions: []string{"the spare capacity given is at least that of every field written, behind the message as it was before", "fewer than one allocation per run on average counts as none (the runtime itself allocates now and then)"}})
}
