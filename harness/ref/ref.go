// Package ref is an independent reference implementation of the parts of the
// protobuf wire format zeropb claims to support. It is written from the
// specification (https://protobuf.dev/programming-guides/encoding) and shares no
// code with the code under test.
package ref

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
)

// Kind is a protobuf field type.
type Kind int

const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Double
	Float
	String
	Bytes
	Enum
	Message
	NumKinds
)

var kindNames = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "double", "float", "string", "bytes", "enum", "message"}

func (k Kind) String() string { return kindNames[k] }

func (k Kind) MarshalJSON() ([]byte, error) { return json.Marshal(kindNames[k]) }

func (k *Kind) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	for i, n := range kindNames {
		if n == s {
			*k = Kind(i)
			return nil
		}
	}
	return fmt.Errorf("unknown kind %q", s)
}

// Wire types.
const (
	WVarint = 0
	W64     = 1
	WLen    = 2
	WSGroup = 3
	WEGroup = 4
	W32     = 5
)

// WireType of a kind.
func (k Kind) WireType() int {
	switch k {
	case Fixed64, Sfixed64, Double:
		return W64
	case Fixed32, Sfixed32, Float:
		return W32
	case String, Bytes, Message:
		return WLen
	}
	return WVarint
}

// Field describes one field.
type Field struct {
	N    int    `json:"n"`
	K    Kind   `json:"k"`
	Rep  bool   `json:"rep,omitempty"`
	M    int    `json:"m,omitempty"` // message index, for Kind Message
	Name string `json:"name,omitempty"`
	Req  bool   `json:"req,omitempty"`
}

// Accessible reports whether zeropb has accessors for the field (repeated scalar
// fields have none).
func (f *Field) Accessible() bool { return !f.Rep || f.K == Message }

// Msg describes one message type.
type Msg struct {
	Name string  `json:"name"`
	F    []Field `json:"f"`
}

// Field looks up a field by number.
func (m *Msg) Field(n int) *Field {
	for i := range m.F {
		if m.F[i].N == n {
			return &m.F[i]
		}
	}
	return nil
}

// Max is the largest field number.
func (m *Msg) Max() int {
	max := 0
	for _, f := range m.F {
		if f.N > max {
			max = f.N
		}
	}
	return max
}

// Schema is a set of message types.
type Schema struct {
	// Name is "test" or "raft" for the checked-in generated packages, and empty
	// for a schema used through the runtime's exported functions.
	Name string `json:"name,omitempty"`
	Msgs []Msg  `json:"msgs,omitempty"`
}

// AppendVarint appends x as a varint with pad superfluous bytes (as many as fit
// in ten bytes in total).
func AppendVarint(b []byte, x uint64, pad int) []byte {
	n := 0
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
		n++
	}
	n++
	if pad > 10-n {
		pad = 10 - n
	}
	if pad <= 0 {
		return append(b, byte(x))
	}
	b = append(b, byte(x)|0x80)
	for i := 1; i < pad; i++ {
		b = append(b, 0x80)
	}
	return append(b, 0)
}

// VarintStatus is the outcome of parsing a varint.
type VarintStatus int

const (
	VOK VarintStatus = iota
	VTrunc
	VOverflow
)

// Varint parses a varint.
func Varint(b []byte) (x uint64, n int, st VarintStatus) {
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0, VTrunc
		}
		c := b[i]
		if i == 9 && c > 1 {
			return 0, 0, VOverflow
		}
		x |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return x, i + 1, VOK
		}
	}
	return 0, 0, VOverflow
}

// Span is one field occurrence in an encoding.
type Span struct {
	N, WT           int
	BigN            uint64 // the field number as parsed, never truncated
	Start, Val, End int    // tag start, value start (length included), end
	U               uint64 // varint or fixed value
	Payload         []byte // for WLen
}

// MaxFieldNumber is the largest legal field number.
const MaxFieldNumber = 1<<29 - 1

// Parse splits b into fields. err says why the encoding is malformed; spans holds
// the fields before the malformed one.
func Parse(b []byte) (spans []Span, err error) {
	for i := 0; i < len(b); {
		s := Span{Start: i}
		tag, n, st := Varint(b[i:])
		if st != VOK {
			return spans, fmt.Errorf("tag at %d: %v", i, st)
		}
		i += n
		s.BigN = tag >> 3
		s.N, s.WT = int(tag>>3), int(tag&7)
		s.Val = i
		switch s.WT {
		case WVarint:
			x, n, st := Varint(b[i:])
			if st != VOK {
				return spans, fmt.Errorf("varint at %d: %v", i, st)
			}
			s.U = x
			i += n
		case W64:
			if len(b)-i < 8 {
				return spans, fmt.Errorf("fixed64 at %d truncated", i)
			}
			for k := 7; k >= 0; k-- {
				s.U = s.U<<8 | uint64(b[i+k])
			}
			i += 8
		case W32:
			if len(b)-i < 4 {
				return spans, fmt.Errorf("fixed32 at %d truncated", i)
			}
			for k := 3; k >= 0; k-- {
				s.U = s.U<<8 | uint64(b[i+k])
			}
			i += 4
		case WLen:
			l, n, st := Varint(b[i:])
			if st != VOK {
				return spans, fmt.Errorf("length at %d: %v", i, st)
			}
			i += n
			if l > uint64(len(b)-i) {
				return spans, fmt.Errorf("length %d at %d past the end", l, i)
			}
			s.Payload = b[i : i+int(l)]
			i += int(l)
		default:
			return spans, fmt.Errorf("wire type %d at %d", s.WT, s.Start)
		}
		s.End = i
		spans = append(spans, s)
	}
	return spans, nil
}

// Value kinds are carried as uint64: bool 0/1, signed types sign-extended,
// unsigned ones zero-extended, floats as their bits.

// FromWire converts the wire value u of kind k to the carried form, as the
// specification prescribes (over-wide varints are truncated).
func FromWire(k Kind, u uint64) uint64 {
	switch k {
	case Bool:
		if u != 0 {
			return 1
		}
		return 0
	case Int32, Sfixed32:
		return uint64(int64(int32(uint32(u))))
	case Uint32, Enum, Fixed32, Float:
		return uint64(uint32(u))
	case Sint32:
		v := int64(u>>1) ^ -int64(u&1)
		return uint64(int64(int32(v)))
	case Sint64:
		return uint64(int64(u>>1) ^ -int64(u&1))
	}
	return u
}

// ToWire is the canonical wire value of the carried value u.
func ToWire(k Kind, u uint64) uint64 {
	switch k {
	case Sint32, Sint64:
		v := int64(u)
		return uint64(v<<1) ^ uint64(v>>63)
	case Sfixed32, Fixed32, Float:
		return uint64(uint32(u))
	}
	return u
}

// AppendTag appends a tag.
func AppendTag(b []byte, n, wt, pad int) []byte {
	return AppendVarint(b, uint64(n)<<3|uint64(wt), pad)
}

func appendFixed(b []byte, u uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(u))
		u >>= 8
	}
	return b
}

// AppendField appends the canonical encoding of a field: u for numeric kinds, p
// for length-delimited ones.
func AppendField(b []byte, n int, k Kind, u uint64, p []byte) []byte {
	wt := k.WireType()
	b = AppendTag(b, n, wt, 0)
	switch wt {
	case WVarint:
		b = AppendVarint(b, ToWire(k, u), 0)
	case W64:
		b = appendFixed(b, ToWire(k, u), 8)
	case W32:
		b = appendFixed(b, ToWire(k, u), 4)
	case WLen:
		b = AppendVarint(b, uint64(len(p)), 0)
		b = append(b, p...)
	}
	return b
}

// Blob is a byte string, compact when it is long.
type Blob struct {
	B    []byte `json:"b,omitempty"`
	Fill int    `json:"fill,omitempty"`
	Salt byte   `json:"salt,omitempty"`
	A    bool   `json:"ascii,omitempty"` // 7-bit bytes only (strings)
}

// Bytes expands the blob. The result is always fresh.
func (x Blob) Bytes() []byte {
	out := make([]byte, 0, len(x.B)+x.Fill)
	out = append(out, x.B...)
	for i := 0; i < x.Fill; i++ {
		out = append(out, byte(i*7)+byte(i>>8)+x.Salt)
	}
	if x.A {
		for i := range out {
			out[i] &= 0x7f
		}
	}
	return out
}

// Rec is one field occurrence to be encoded. TP, LP and VP pad tag, length and
// varint value beyond their minimal length.
type Rec struct {
	N  int    `json:"n"`
	WT int    `json:"wt"`
	U  uint64 `json:"u,omitempty"`
	Blob
	Sub    []Rec `json:"sub,omitempty"`
	HasSub bool  `json:"hassub,omitempty"`
	TP     int   `json:"tp,omitempty"`
	LP     int   `json:"lp,omitempty"`
	VP     int   `json:"vp,omitempty"`
	// Times is how often the occurrence is repeated.
	Times int `json:"times,omitempty"`
}

// Payload of a length-delimited record.
func (r *Rec) Payload() []byte {
	if r.HasSub {
		return EncodeRecs(nil, r.Sub)
	}
	return r.Blob.Bytes()
}

// EncodeRecs appends the encoding of recs.
func EncodeRecs(b []byte, recs []Rec) []byte {
	for i := range recs {
		r := &recs[i]
		from := len(b)
		b = AppendTag(b, r.N, r.WT, r.TP)
		switch r.WT {
		case WVarint:
			b = AppendVarint(b, r.U, r.VP)
		case W64:
			b = appendFixed(b, r.U, 8)
		case W32:
			b = appendFixed(b, r.U, 4)
		case WLen:
			p := r.Payload()
			b = AppendVarint(b, uint64(len(p)), r.LP)
			b = append(b, p...)
		}
		for once, k := b[from:len(b):len(b)], 0; k < r.Times; k++ {
			b = append(b, once...)
		}
	}
	return b
}

// Val is the state of one field.
type Val struct {
	U     uint64   // numeric kinds
	B     []byte   // string, bytes, embedded message (encoded)
	Elems [][]byte // repeated message, encoded elements
}

// State is the logical content of a message: the accessible fields present.
type State map[int]Val

// Clone copies the map (values are treated as immutable).
func (s State) Clone() State {
	c := make(State, len(s))
	for k, v := range s {
		c[k] = v
	}
	return c
}

// Tainted tells which fields of an encoding carry a wire type other than the
// declared one somewhere.
func Tainted(m *Msg, spans []Span) map[int]bool {
	var t map[int]bool
	for _, s := range spans {
		f := fieldOf(m, s.BigN)
		if f == nil || f.K.WireType() == s.WT {
			continue
		}
		if t == nil {
			t = map[int]bool{}
		}
		t[f.N] = true
	}
	return t
}

func fieldOf(m *Msg, n uint64) *Field {
	if n > MaxFieldNumber {
		return nil
	}
	return m.Field(int(n))
}

// StateOf interprets a parsed encoding. Singular fields take the last
// occurrence; singular embedded messages occurring more than once are the
// caller's business (zeropb documents them as unsupported).
func StateOf(m *Msg, spans []Span) State {
	st := State{}
	for _, s := range spans {
		f := fieldOf(m, s.BigN)
		if f == nil || !f.Accessible() || f.K.WireType() != s.WT {
			continue
		}
		switch {
		case f.Rep:
			v := st[f.N]
			v.Elems = append(v.Elems, s.Payload)
			st[f.N] = v
		case s.WT == WLen:
			st[f.N] = Val{B: s.Payload}
		default:
			st[f.N] = Val{U: FromWire(f.K, s.U)}
		}
	}
	return st
}

// DiffStates returns "" if both states hold the same fields.
func DiffStates(a, b State) string {
	var keys []int
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Ints(keys)
	for _, k := range keys {
		x, okx := a[k]
		y, oky := b[k]
		if okx != oky {
			return fmt.Sprintf("field %d: present=%v vs present=%v", k, okx, oky)
		}
		if x.U != y.U {
			return fmt.Sprintf("field %d: %#x vs %#x", k, x.U, y.U)
		}
		if !bytes.Equal(x.B, y.B) {
			return fmt.Sprintf("field %d: %s vs %s", k, Short(x.B), Short(y.B))
		}
		if len(x.Elems) != len(y.Elems) {
			return fmt.Sprintf("field %d: %d elements vs %d", k, len(x.Elems), len(y.Elems))
		}
		for i := range x.Elems {
			if !bytes.Equal(x.Elems[i], y.Elems[i]) {
				return fmt.Sprintf("field %d element %d: %s vs %s", k, i, Short(x.Elems[i]), Short(y.Elems[i]))
			}
		}
	}
	return ""
}

// Short renders bytes, abbreviated.
func Short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("[%d bytes] %x..%x", len(b), b[:16], b[len(b)-16:])
	}
	return fmt.Sprintf("[%d bytes] %x", len(b), b)
}

// Test is the schema of golden/test.proto, written down from the .proto file.
func Test() *Schema {
	f := []Field{
		{N: 1, K: Bool, Name: "bool"}, {N: 2, K: Int32, Name: "int32"}, {N: 3, K: Int64, Name: "int64"},
		{N: 4, K: Uint32, Name: "uint32"}, {N: 5, K: Uint64, Name: "uint64"}, {N: 6, K: Sint32, Name: "sint32"},
		{N: 7, K: Sint64, Name: "sint64"}, {N: 8, K: Fixed32, Name: "fixed32"}, {N: 9, K: Fixed64, Name: "fixed64"},
		{N: 10, K: Sfixed32, Name: "sfixed32"}, {N: 11, K: Sfixed64, Name: "sfixed64"}, {N: 12, K: Double, Name: "double"},
		{N: 13, K: Float, Name: "float"}, {N: 14, K: String, Name: "string"}, {N: 15, K: Bytes, Name: "byte_array"},
		{N: 16, K: Enum, Name: "enum"}, {N: 17, K: Message, Name: "message"},
	}
	for i, k := range []Kind{Bool, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Double, Float, String, Bytes, Enum} {
		n := k.String() + "s"
		if k == Bytes {
			n = "byte_arrays"
		}
		f = append(f, Field{N: 18 + i, K: k, Rep: true, Name: n})
	}
	f = append(f, Field{N: 34, K: Message, Rep: true, Name: "messages"})
	return &Schema{Name: "test", Msgs: []Msg{{Name: "TestMessage", F: f}}}
}

// Raft is the schema of golden/raft.proto.
func Raft() *Schema {
	return &Schema{Name: "raft", Msgs: []Msg{
		{Name: "Message", F: []Field{
			{N: 1, K: Enum, Name: "type"}, {N: 2, K: Uint64, Name: "to"}, {N: 3, K: Uint64, Name: "from"},
			{N: 4, K: Uint64, Name: "term"}, {N: 5, K: Uint64, Name: "logTerm"}, {N: 6, K: Uint64, Name: "index"},
			{N: 7, K: Message, M: 1, Rep: true, Name: "entries"}, {N: 8, K: Uint64, Name: "commit"},
			{N: 9, K: Message, M: 2, Name: "snapshot"}, {N: 10, K: Bool, Name: "reject"},
			{N: 11, K: Uint64, Name: "rejectHint"}, {N: 12, K: Bytes, Name: "context"}}},
		{Name: "Entry", F: []Field{
			{N: 2, K: Uint64, Name: "Term"}, {N: 3, K: Uint64, Name: "Index"}, {N: 1, K: Enum, Name: "Type"}, {N: 4, K: Bytes, Name: "Data"}}},
		{Name: "Snapshot", F: []Field{{N: 1, K: Bytes, Name: "data"}, {N: 2, K: Message, M: 3, Name: "metadata"}}},
		{Name: "SnapshotMetadata", F: []Field{
			{N: 1, K: Message, M: 4, Name: "conf_state"}, {N: 2, K: Uint64, Name: "index"}, {N: 3, K: Uint64, Name: "term"}}},
		{Name: "ConfState", F: []Field{{N: 1, K: Uint64, Rep: true, Name: "nodes"}, {N: 2, K: Uint64, Rep: true, Name: "learners"}}},
		{Name: "HardState", F: []Field{{N: 1, K: Uint64, Name: "term"}, {N: 2, K: Uint64, Name: "vote"}, {N: 3, K: Uint64, Name: "commit"}}},
		{Name: "ConfChange", F: []Field{
			{N: 1, K: Uint64, Name: "ID"}, {N: 2, K: Enum, Name: "Type"}, {N: 3, K: Uint64, Name: "NodeID"}, {N: 4, K: Bytes, Name: "Context"}}},
	}}
}

// Resolve replaces a named schema by its definition.
func (s *Schema) Resolve() *Schema {
	switch s.Name {
	case "test":
		return Test()
	case "raft":
		return Raft()
	}
	if f := fresh[s.Name]; f != nil {
		g := &Schema{Name: f.Name}
		for _, m := range f.Msgs {
			g.Msgs = append(g.Msgs, Msg{Name: m.Name, F: append([]Field{}, m.F...)})
		}
		return g
	}
	return s
}
