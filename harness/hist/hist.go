// Package hist runs histories of calls on one message against a model.
package hist

import (
	"bytes"
	"fmt"
	"unsafe"

	"verif/harness/ref"
	"verif/harness/tgt"
)

// Op is one call. Field numbers that the message doesn't have make it a no-op,
// so that reduced histories stay runnable.
type Op struct {
	// K is set, setm, app, dec, redec, move, reset, reuse, reach, baddec, iter,
	// alias, rmw, grow or down.
	K string `json:"k"`
	// F is the field number.
	F int `json:"f,omitempty"`
	// U is the numeric value set.
	U uint64 `json:"u,omitempty"`
	// Blob is the string or bytes value set, or the raw bytes of a bad decode.
	ref.Blob
	// Recs is the encoding decoded, or the start of the embedded message.
	Recs []ref.Rec `json:"recs,omitempty"`
	// Ops is a history on the embedded message.
	Ops []Op `json:"ops,omitempty"`
	// P is the spare capacity of the buffer (dec, reset), the length to reach
	// (reach), or the element index (alias).
	P int `json:"p,omitempty"`
	// G is the source field (alias), X and Y say how its value is sliced.
	G int `json:"g,omitempty"`
	X int `json:"x,omitempty"`
	Y int `json:"y,omitempty"`
	// Times is how often an append is repeated.
	Times int `json:"times,omitempty"`
	// In, if not 0, has an encoding come in the buffer of the last one, if it is
	// large enough; filled up to the same length behind (2) or in front (3).
	In int `json:"in,omitempty"`
}

// Case is a history on a message type.
type Case struct {
	S   ref.Schema `json:"s"`
	M   int        `json:"m"`
	Ops []Op       `json:"ops"`
}

// M is a message together with its model.
type M struct {
	T  tgt.Target
	St ref.State
	// Skip are fields with a foreign wire type in what was decoded.
	Skip map[int]bool
	// Built is false once something was decoded: then the encoding may hold
	// more than what was set.
	Built bool
	// Depth of nesting.
	Depth int
	// Stats of what happened.
	Stats Stats
	last  int
	// in is the buffer last given to Decode, inLen its length without what is
	// spare. They are not known of embedded messages.
	in    []byte
	InLen int
}

// Stats describes a history that ran.
type Stats struct {
	Crossings, Sets, Overwrites, SameLen, Moves, Appends, Decodes, Resets, Subs, Reaches, Aliases, RMW, Same int
	MaxLen                                                                                                   int
}

// Spare makes a copy of b with n bytes of spare capacity holding garbage.
func Spare(b []byte, n int) []byte {
	out := make([]byte, len(b)+n)
	copy(out, b)
	for i := len(b); i < len(out); i++ {
		out[i] = 0xa5 ^ byte(i*13)
	}
	return out[:len(b)]
}

// New makes a machine on a fresh message.
func New(s *ref.Schema, mi int) *M {
	return &M{T: tgt.New(s, mi), St: ref.State{}, Built: true}
}

// Field by number, nil if there is none with accessors.
func (m *M) Field(n int) *ref.Field {
	f := m.T.Desc().Field(n)
	if f == nil || !f.Accessible() {
		return nil
	}
	return f
}

// ValOf is the value an op sets in f. It doesn't share memory with anything.
func ValOf(f *ref.Field, op *Op) (tgt.Val, ref.Val) {
	switch f.K {
	case ref.String:
		b := op.Blob.Bytes()
		return tgt.Val{Str: string(b)}, ref.Val{B: b}
	case ref.Bytes:
		b := op.Blob.Bytes()
		return tgt.Val{Byt: append(make([]byte, 0, len(b)), b...)}, ref.Val{B: b}
	}
	u := ref.FromWire(f.K, ref.ToWire(f.K, op.U))
	switch f.K {
	case ref.Sint32, ref.Int32, ref.Sfixed32:
		u = uint64(int64(int32(op.U)))
	case ref.Uint32, ref.Enum, ref.Fixed32, ref.Float:
		u = uint64(uint32(op.U))
	case ref.Bool:
		u = op.U & 1
	}
	return tgt.Val{U: u}, ref.Val{U: u}
}

func clone(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

// Sub builds an embedded message for f as op says.
func (m *M) Sub(f *ref.Field, op *Op) (tgt.Target, []byte, error) {
	s := &M{T: m.T.New(f.M), St: ref.State{}, Built: true, Depth: m.Depth + 1}
	if len(op.Recs) > 0 {
		if err := s.Decode(ref.EncodeRecs(nil, op.Recs), op.P&7); err != nil {
			return nil, nil, err
		}
	}
	for i := range op.Ops {
		if err := s.Step(&op.Ops[i]); err != nil {
			return nil, nil, fmt.Errorf("embedded step %d: %w", i, err)
		}
	}
	m.Stats.Subs++
	return s.T, clone(s.T.Encode()), nil
}

// buffer is a new buffer for b.
func (m *M) buffer(b []byte, spare int) []byte {
	m.in, m.InLen = Spare(b, spare), len(b)
	return m.in
}

// fill extends b to the length of the last encoding by an unknown field.
func (m *M) fill(b []byte, how int) []byte {
	const n = 1<<29 - 1
	if m.T.Desc().Field(n) != nil {
		return b
	}
	head := ref.AppendTag(nil, n, ref.WLen, 0)
	for lp := 1; lp <= 4; lp++ {
		// The length, lp bytes long.
		size := m.InLen - len(b) - len(head) - lp
		if size < 0 {
			return b
		}
		if want := ref.AppendVarint(nil, uint64(size), 0); len(want) == lp {
			rec := append(append(head, want...), make([]byte, size)...)
			if how == 3 {
				return append(rec, b...)
			}
			return append(b, rec...)
		}
	}
	return b
}

// DecodeIn is Decode of an encoding that comes in the buffer of the last one.
func (m *M) DecodeIn(b []byte, spare, how int) error {
	if how > 1 {
		b = m.fill(b, how)
	}
	if len(b) == 0 || len(b) > cap(m.in) {
		return m.Decode(b, spare)
	}
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: generated encoding is malformed: %v", perr)
	}
	m.in, m.InLen = m.in[:len(b)], len(b)
	copy(m.in, b)
	if err := m.T.Decode(m.in); err != nil {
		return fmt.Errorf("Decode of a well-formed encoding in the buffer of the last one failed: %v (%s)", err, ref.Short(b))
	}
	m.decoded(spans)
	m.Stats.Same++
	return nil
}

func (m *M) decoded(spans []ref.Span) {
	m.St = ref.StateOf(m.T.Desc(), spans)
	m.Skip = ref.Tainted(m.T.Desc(), spans)
	m.Built = false
	m.Stats.Decodes++
}

// Decode decodes a well-formed encoding.
func (m *M) Decode(b []byte, spare int) error {
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: generated encoding is malformed: %v", perr)
	}
	if err := m.T.Decode(m.buffer(b, spare)); err != nil {
		return fmt.Errorf("Decode of a well-formed encoding failed: %v (%s)", err, ref.Short(b))
	}
	m.decoded(spans)
	return nil
}

// Apply performs op on the message and the model.
func (m *M) Apply(op *Op) error {
	switch op.K {
	case "dec":
		if op.In > 0 {
			return m.DecodeIn(ref.EncodeRecs(nil, op.Recs), op.P, op.In)
		}
		return m.Decode(ref.EncodeRecs(nil, op.Recs), op.P)
	case "redec", "move":
		// Decode the message's own encoding, into itself or a fresh message.
		if m.St == nil {
			return nil
		}
		b := clone(m.T.Encode())
		if op.K == "move" {
			m.T = m.T.New(m.T.MsgIndex())
		}
		built := m.Built
		err := m.Decode(b, op.P)
		m.Built = built
		return err
	case "baddec":
		m.T.Decode(m.buffer(op.Blob.Bytes(), op.P))
		// What a failed Decode leaves behind is unspecified; so is a lucky one here.
		m.St, m.Skip, m.Built = nil, nil, false
		return nil
	case "reset":
		m.T.Reset(Spare(nil, op.P))
		m.St, m.Skip, m.Built = ref.State{}, nil, true
		m.Stats.Resets++
		return nil
	case "reuse":
		m.T.Reset(m.T.Encode()[:0])
		m.St, m.Skip, m.Built = ref.State{}, nil, true
		m.Stats.Resets++
		return nil
	}
	f := m.Field(op.F)
	if f == nil || m.Skip[op.F] || m.St == nil {
		return nil
	}
	switch op.K {
	case "set", "reach":
		if f.K == ref.Message {
			return nil
		}
		o := *op
		if op.K == "reach" {
			if f.K != ref.Bytes && f.K != ref.String {
				return nil
			}
			o.Blob = m.reach(f, op)
			m.Stats.Reaches++
		}
		arg, v := ValOf(f, &o)
		m.noteSet(f)
		before := len(m.T.Encode())
		m.T.Set(f, arg)
		m.St[f.N] = v
		if len(m.T.Encode()) == before {
			m.Stats.SameLen++
		}
	case "setm":
		if f.K != ref.Message || f.Rep {
			return nil
		}
		sub, enc, err := m.Sub(f, op)
		if err != nil {
			return err
		}
		m.noteSet(f)
		m.T.SetMsg(f, sub)
		m.St[f.N] = ref.Val{B: enc}
	case "app":
		if !f.Rep {
			return nil
		}
		sub, enc, err := m.Sub(f, op)
		if err != nil {
			return err
		}
		for k := 0; k <= op.Times; k++ {
			m.T.Append(f, sub)
		}
		m.addElems(f, enc, op.Times+1)
		m.Stats.Appends++
	case "iter":
		// A partial iteration that is then abandoned.
		if f.Rep {
			it, sub := m.T.Iter(f), m.T.New(f.M)
			for i := 0; i < op.P; i++ {
				it.Next(sub)
			}
		}
	case "alias":
		return m.alias(f, op)
	case "rmw":
		return m.rmw(f, op)
	case "grow":
		return m.grow(f, op)
	case "down":
		return m.down(f, op)
	}
	n := len(m.T.Encode())
	if n > m.Stats.MaxLen {
		m.Stats.MaxLen = n
	}
	if (n > 1<<16) != (m.last > 1<<16) {
		m.Stats.Crossings++
	}
	m.last = n
	return nil
}

func (m *M) addElem(f *ref.Field, enc []byte) { m.addElems(f, enc, 1) }

func (m *M) addElems(f *ref.Field, enc []byte, n int) {
	v := m.St[f.N]
	v.Elems = v.Elems[:len(v.Elems):len(v.Elems)]
	for ; n > 0; n-- {
		v.Elems = append(v.Elems, enc)
	}
	m.St[f.N] = v
}

func (m *M) noteSet(f *ref.Field) {
	m.Stats.Sets++
	if _, ok := m.St[f.N]; ok {
		m.Stats.Overwrites++
	}
}

// reach computes a value for f after which the encoding is op.P bytes long, if
// that is possible (the field may be present already).
func (m *M) reach(f *ref.Field, op *Op) ref.Blob {
	cur := len(m.T.Encode())
	if v, ok := m.St[f.N]; ok {
		cur -= len(ref.AppendField(nil, f.N, f.K, 0, v.B))
	}
	over := len(ref.AppendTag(nil, f.N, ref.WLen, 0))
	n := op.P - cur - over - 1
	for n > 0 && len(ref.AppendVarint(nil, uint64(n), 0))+n+over+cur > op.P {
		n--
	}
	if n < 0 {
		n = 0
	}
	return ref.Blob{Fill: n, Salt: op.Salt, A: f.K == ref.String}
}

// view gets a view into the message: the value of a string, bytes, or embedded
// message field, or of an element.
func (m *M) view(n, elem int) (view []byte, sub tgt.Target, ok bool) {
	g := m.Field(n)
	if g == nil || m.Skip[n] {
		return nil, nil, false
	}
	if _, present := m.St[n]; !present {
		return nil, nil, false
	}
	switch {
	case g.K == ref.String:
		s := m.T.Get(g).Str
		if s == "" {
			return nil, nil, true
		}
		return unsafe.Slice(unsafe.StringData(s), len(s)), nil, true
	case g.K == ref.Bytes:
		return m.T.Get(g).Byt, nil, true
	case g.K == ref.Message && !g.Rep:
		sub := m.T.New(g.M)
		if ok, err := m.T.GetMsg(g, sub); !ok || err != nil {
			return nil, nil, false
		}
		return sub.Encode(), sub, true
	case g.K == ref.Message:
		it, sub := m.T.Iter(g), m.T.New(g.M)
		n := len(m.St[n].Elems)
		if n == 0 {
			return nil, nil, false
		}
		for i := 0; i <= elem%n; i++ {
			if ok, err := it.Next(sub); !ok || (err != nil && i == elem%n) {
				return nil, nil, false
			}
		}
		return sub.Encode(), sub, true
	}
	return nil, nil, false
}

// alias writes a value of the message into a field of the same message.
func (m *M) alias(f *ref.Field, op *Op) error {
	if op.G == Whole {
		return m.aliasWhole(f, op)
	}
	if f.K == ref.Message {
		g := m.Field(op.G)
		if g == nil || g.K != ref.Message || g.M != f.M {
			return nil
		}
		v, sub, ok := m.view(op.G, op.P)
		if !ok {
			return nil
		}
		want := clone(v)
		if f.Rep {
			m.T.Append(f, sub)
			m.addElem(f, want)
		} else {
			m.noteSet(f)
			m.T.SetMsg(f, sub)
			m.St[f.N] = ref.Val{B: want}
		}
		m.Stats.Aliases++
		return nil
	}
	if f.K != ref.String && f.K != ref.Bytes {
		return nil
	}
	g := m.Field(op.G)
	if g == nil || (f.K == ref.String && g.K != ref.String) {
		return nil
	}
	v, _, ok := m.view(op.G, op.P)
	if !ok {
		return nil
	}
	x := op.X % (len(v) + 1)
	y := x + op.Y%(len(v)-x+1)
	if op.Y < 0 {
		x, y = 0, len(v)
	}
	v = v[x:y]
	want := clone(v)
	m.noteSet(f)
	if f.K == ref.Bytes {
		m.T.Set(f, tgt.Val{Byt: v})
	} else {
		m.T.Set(f, tgt.Val{Str: unsafe.String(unsafe.SliceData(v), len(v))})
	}
	m.St[f.N] = ref.Val{B: want}
	m.Stats.Aliases++
	return nil
}

// Whole, as the field a value is taken from, is the message's entire encoding.
const Whole = -1

// aliasWhole passes the message's encoding, or a slice of it, or the message itself.
func (m *M) aliasWhole(f *ref.Field, op *Op) error {
	v := m.T.Encode()
	if f.K == ref.Message {
		if f.M != m.T.MsgIndex() || len(v) > 1<<17 {
			return nil
		}
		want := clone(v)
		if f.Rep {
			m.T.Append(f, m.T)
			m.addElem(f, want)
		} else {
			m.noteSet(f)
			m.T.SetMsg(f, m.T)
			m.St[f.N] = ref.Val{B: want}
		}
		m.Stats.Aliases++
		return nil
	}
	if f.K != ref.Bytes {
		return nil
	}
	n := op.Y
	if old, ok := m.St[f.N]; ok && op.Y == -2 {
		// As long as the old value, or up to two bytes longer.
		n = len(old.B) + op.P%3
	}
	x := op.X % (len(v) + 1)
	if n < 0 {
		x, n = 0, len(v)
	}
	if n > 1<<17 {
		return nil
	}
	v = v[x:min(x+n, len(v))]
	want := clone(v)
	m.noteSet(f)
	m.T.Set(f, tgt.Val{Byt: v})
	m.St[f.N] = ref.Val{B: want}
	m.Stats.Aliases++
	return nil
}

// rmw takes an embedded message out, changes it, and sets it back.
func (m *M) rmw(f *ref.Field, op *Op) error {
	if f.K != ref.Message || f.Rep {
		return nil
	}
	old, present := m.St[f.N]
	if !present {
		return nil
	}
	spans, perr := ref.Parse(old.B)
	if perr != nil {
		return nil
	}
	s := &M{T: m.T.New(f.M), Depth: m.Depth + 1}
	if ok, err := m.T.GetMsg(f, s.T); !ok || err != nil {
		return fmt.Errorf("embedded message %d: present=%v, err=%v", f.N, ok, err)
	}
	s.St = ref.StateOf(s.T.Desc(), spans)
	s.Skip = ref.Tainted(s.T.Desc(), spans)
	skip := map[int]bool{f.N: true}
	for n := range m.Skip {
		skip[n] = true
	}
	for i := range op.Ops {
		switch op.Ops[i].K {
		case "dec", "redec", "move", "baddec", "reset", "reuse", "down":
			continue
		}
		if err := s.Step(&op.Ops[i]); err != nil {
			return fmt.Errorf("extracted message, step %d: %w", i, err)
		}
		// The rest of the outer message stays intact all the while.
		if err := tgt.CheckState(m.T, m.St, skip, ""); err != nil {
			return fmt.Errorf("after step %d on the extracted message %d: %w", i, f.N, err)
		}
	}
	enc := clone(s.T.Encode())
	m.T.SetMsg(f, s.T)
	m.St[f.N] = ref.Val{B: enc}
	m.Stats.RMW++
	m.Stats.Sets++
	return nil
}

// down takes out an embedded message or element into the very struct that it is
// part of.
func (m *M) down(f *ref.Field, op *Op) error {
	v, present := m.St[f.N]
	if f.K != ref.Message || f.M != m.T.MsgIndex() || !present || f.Rep && len(v.Elems) == 0 {
		return nil
	}
	b := v.B
	if f.Rep {
		b = v.Elems[op.P%len(v.Elems)]
	}
	spans, perr := ref.Parse(b)
	if perr != nil || tgt.Unspecified(spans) {
		return nil
	}
	var ok bool
	var err error
	if f.Rep {
		it, sub := m.T.Iter(f), m.T.New(f.M)
		for i := 0; i < op.P%len(v.Elems); i++ {
			it.Next(sub)
		}
		ok, err = it.Next(m.T)
	} else {
		ok, err = m.T.GetMsg(f, m.T)
	}
	if !ok || err != nil {
		return fmt.Errorf("embedded message %d taken out into its outer one: present=%v, err=%v", f.N, ok, err)
	}
	m.in, m.InLen = nil, 0
	m.decoded(spans)
	m.Stats.Subs++
	return nil
}

// grow appends to a value returned by an accessor.
func (m *M) grow(f *ref.Field, op *Op) error {
	v, sub, ok := m.view(op.F, op.P)
	if !ok || f.K == ref.String {
		return nil
	}
	_ = sub
	junk := append(op.Blob.Bytes(), 0xee, 0xdd, 0xcc)
	v = append(v, junk...)
	for i := range junk {
		v[len(v)-1-i] ^= 0x5a
	}
	m.Stats.Aliases++
	return nil
}

// Step applies op and checks everything.
func (m *M) Step(op *Op) error {
	if err := m.Apply(op); err != nil {
		return err
	}
	return m.Check()
}

// Check compares message and model completely.
func (m *M) Check() error {
	if m.St == nil {
		return nil
	}
	if err := tgt.CheckState(m.T, m.St, m.Skip, ""); err != nil {
		return err
	}
	if err := tgt.CheckEncoding(m.T, m.St, m.Skip); err != nil {
		return err
	}
	if m.Built {
		return m.CheckCanonical()
	}
	return nil
}

// CheckCanonical checks that the encoding of a message never decoded holds
// exactly what was set, canonically.
func (m *M) CheckCanonical() error {
	enc := m.T.Encode()
	spans, err := ref.Parse(enc)
	if err != nil {
		return fmt.Errorf("Encode returned a malformed encoding: %v: %s", err, ref.Short(enc))
	}
	seen := map[int]int{}
	for _, s := range spans {
		f := m.Field(s.N)
		if f == nil {
			return fmt.Errorf("Encode holds field %d that was never set", s.N)
		}
		v, ok := m.St[s.N]
		if !ok {
			return fmt.Errorf("Encode holds field %d that was never set", s.N)
		}
		i := seen[s.N]
		seen[s.N]++
		p := v.B
		if f.Rep {
			if i >= len(v.Elems) {
				return fmt.Errorf("Encode holds %d elements of field %d, %d were appended", i+1, s.N, len(v.Elems))
			}
			p = v.Elems[i]
		} else if i > 0 {
			return fmt.Errorf("Encode holds singular field %d more than once", s.N)
		}
		want := ref.AppendField(nil, s.N, f.K, v.U, p)
		if got := enc[s.Start:s.End]; !bytes.Equal(got, want) {
			return fmt.Errorf("field %d is encoded as %s, canonical is %s", s.N, ref.Short(got), ref.Short(want))
		}
	}
	for n, v := range m.St {
		want := 1
		if m.Field(n).Rep {
			want = len(v.Elems)
		}
		if seen[n] != want {
			return fmt.Errorf("Encode holds field %d %d times, want %d", n, seen[n], want)
		}
	}
	return nil
}

// Run runs a whole history.
func Run(c *Case) (*Stats, error) {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return &Stats{}, nil
	}
	m := New(s, c.M)
	if err := m.Check(); err != nil {
		return &m.Stats, fmt.Errorf("fresh message: %w", err)
	}
	next, reads := 0, 0
	tgt.Reads = &reads
	defer func() { tgt.Reads = nil }()
	for i := range c.Ops {
		err := m.Apply(&c.Ops[i])
		// Some checks are left out when they are many or take long.
		if err == nil && (i >= next || i == len(c.Ops)-1) {
			reads = 0
			err = m.Check()
			next = i + 1 + reads*len(c.Ops)/2e6
			if i >= 40 {
				next += 9
			}
			for _, v := range m.St {
				next += len(v.Elems) / 60
			}
		}
		if err != nil {
			return &m.Stats, fmt.Errorf("step %d (%s field %d): %w", i, c.Ops[i].K, c.Ops[i].F, err)
		}
	}
	// A fresh message decodes the result to the same.
	if m.St != nil {
		if err := m.Apply(&Op{K: "move"}); err != nil {
			return &m.Stats, fmt.Errorf("decoding the result: %w", err)
		}
		if err := m.Check(); err != nil {
			return &m.Stats, fmt.Errorf("reading the result from a fresh message: %w", err)
		}
	}
	return &m.Stats, nil
}
