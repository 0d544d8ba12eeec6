// Package props defines the properties.
package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/danhhz/zeropb/golden/raftgogopb"
	"github.com/danhhz/zeropb/golden/testgogopb"
	"github.com/gogo/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// WireCase is an encoding of a message type.
type WireCase struct {
	S     ref.Schema `json:"s"`
	M     int        `json:"m"`
	Recs  []ref.Rec  `json:"recs"`
	Spare int        `json:"spare,omitempty"`
}

type wireFeatures struct {
	fields, dups, padded, unordered, subs, reps, unknown, wide, bad int
	max                                                             int
}

func features(m *ref.Msg, s *ref.Schema, recs []ref.Rec, f *wireFeatures) {
	last, seen := 0, map[int]bool{}
	for i := range recs {
		r := &recs[i]
		if r.N < last {
			f.unordered++
		}
		last = r.N
		if r.TP+r.LP+r.VP > 0 {
			f.padded++
		}
		fd := m.Field(r.N)
		if fd == nil {
			f.unknown++
			continue
		}
		f.fields++
		if seen[r.N] && !fd.Rep {
			f.dups++
		}
		seen[r.N] = true
		if fd.K == ref.Message && r.WT == ref.WLen {
			if fd.Rep {
				f.reps++
			}
			if r.HasSub {
				f.subs++
				features(&s.Msgs[fd.M], s, r.Sub, f)
			} else {
				f.bad++
			}
		}
		if r.WT == ref.WVarint && fd.K != ref.Bool && !fd.Rep && ref.ToWire(fd.K, ref.FromWire(fd.K, r.U)) != r.U {
			f.wide++
		}
	}
}

func (f *wireFeatures) label(o *eng.Obs) {
	o.LabelIf(f.dups > 0, "duplicate singular field")
	o.LabelIf(f.padded > 0, "non-minimal varint")
	o.LabelIf(f.unordered > 0, "fields out of order")
	o.LabelIf(f.subs > 0, "embedded message")
	o.LabelIf(f.reps > 1, "several elements")
	o.LabelIf(f.unknown > 0, "unknown field")
	o.LabelIf(f.wide > 0, "over-wide varint")
	o.LabelIf(f.bad > 0, "malformed embedded content")
}

func (c *WireCase) resolve() (*ref.Schema, bool) {
	s := c.S.Resolve()
	return s, c.M < len(s.Msgs)
}

// runWire decodes and compares every accessor with the reference.
func runWire(c *WireCase, o *eng.Obs) error {
	s, ok := c.resolve()
	if !ok {
		return nil
	}
	b := ref.EncodeRecs(nil, c.Recs)
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	var f wireFeatures
	features(&s.Msgs[c.M], s, c.Recs, &f)
	f.label(o)
	o.Label("schema " + name(&c.S))
	if f.fields >= 2 && f.dups+f.padded+f.unordered+f.wide+f.subs+f.unknown > 0 {
		o.NonTrivial()
	}
	t := tgt.New(s, c.M)
	if err := t.Decode(hist.Spare(b, c.Spare)); err != nil {
		return fmt.Errorf("Decode of a well-formed encoding failed: %v", err)
	}
	return tgt.CheckSpans(t, spans, "")
}

func name(s *ref.Schema) string {
	if s.Name == "" {
		return "random"
	}
	if strings.HasPrefix(s.Name, "fresh") && tgt.Fresh[s.Name] == nil {
		return s.Name + ", no generated types"
	}
	return s.Name
}

func genWire(o gen.Opts) func(t *rapid.T) WireCase {
	return func(t *rapid.T) WireCase {
		var c WireCase
		c.S, c.M = gen.Type(t, gen.DefaultSchema())
		s := c.S.Resolve()
		c.Recs = gen.Recs(t, s, c.M, o)
		if !o.Few && gen.Pct(t, 3) && gen.Pct(t, 50) {
			c.Recs = gen.Far(t, &s.Msgs[c.M], c.Recs)
		}
		c.Spare = gen.Of(t, 0, 0, 1, 20)
		return c
	}
}

// ---- differential against gogo/protobuf ----

// DiffCase is an encoding of a golden message type, or a history on one.
type DiffCase struct {
	S    string    `json:"s"`
	Recs []ref.Rec `json:"recs,omitempty"`
	Ops  []hist.Op `json:"ops,omitempty"`
}

func gogoNew(name string) proto.Message {
	if name == "raft" {
		return new(raftgogopb.Message)
	}
	return new(testgogopb.TestMessage)
}

// gogoFields maps field numbers to struct field indices.
func gogoFields(t reflect.Type) map[int]int {
	out := map[int]int{}
	for i := 0; i < t.NumField(); i++ {
		parts := strings.Split(t.Field(i).Tag.Get("protobuf"), ",")
		if len(parts) > 1 {
			n, err := strconv.Atoi(parts[1])
			if err == nil {
				out[n] = i
			}
		}
	}
	return out
}

// sameAsGogo compares all accessors of t with the message g that gogo/protobuf
// decoded from the same bytes.
func sameAsGogo(t tgt.Target, g reflect.Value, path string) error {
	if g.Kind() == reflect.Ptr {
		g = g.Elem()
	}
	idx := gogoFields(g.Type())
	d := t.Desc()
	for i := range d.F {
		f := &d.F[i]
		if !f.Accessible() {
			continue
		}
		gi, ok := idx[f.N]
		if !ok {
			return fmt.Errorf("harness: gogo message has no field %d", f.N)
		}
		v := g.Field(gi)
		w := fmt.Sprintf("%s%s", path, f.Name)
		switch {
		case f.K == ref.Message && !f.Rep:
			sub := t.New(f.M)
			present, err := t.GetMsg(f, sub)
			if err != nil {
				return fmt.Errorf("%s: %v", w, err)
			}
			if v.Kind() == reflect.Ptr {
				if present != !v.IsNil() {
					return fmt.Errorf("%s: present=%v, gogo says %v", w, present, !v.IsNil())
				}
				if !present {
					continue
				}
			}
			if err := sameAsGogo(sub, v, w+"."); err != nil {
				return err
			}
		case f.K == ref.Message:
			it, sub := t.Iter(f), t.New(f.M)
			for k := 0; ; k++ {
				ok, err := it.Next(sub)
				if err != nil {
					return fmt.Errorf("%s[%d]: %v", w, k, err)
				}
				if !ok {
					if k != v.Len() {
						return fmt.Errorf("%s: %d elements, gogo has %d", w, k, v.Len())
					}
					break
				}
				if k >= v.Len() {
					return fmt.Errorf("%s: more than the %d elements gogo has", w, v.Len())
				}
				if err := sameAsGogo(sub, v.Index(k), fmt.Sprintf("%s[%d].", w, k)); err != nil {
					return err
				}
			}
		default:
			var want tgt.Val
			switch v.Kind() {
			case reflect.Bool:
				if v.Bool() {
					want.U = 1
				}
			case reflect.Int32, reflect.Int64:
				want.U = uint64(v.Int())
				if f.K == ref.Enum {
					want.U = uint64(uint32(v.Int()))
				}
			case reflect.Uint32, reflect.Uint64:
				want.U = v.Uint()
			case reflect.Float64:
				want.U = math.Float64bits(v.Float())
			case reflect.Float32:
				want.U = uint64(math.Float32bits(v.Interface().(float32)))
			case reflect.String:
				want.Str = v.String()
			case reflect.Slice:
				want.Byt = v.Bytes()
			}
			if got := t.Get(f); !tgt.SameScalar(got, want) {
				return fmt.Errorf("%s: accessor says %+v, gogo/protobuf %+v", w, got, want)
			}
		}
	}
	return nil
}

func genDiff(t *rapid.T) DiffCase {
	c := DiffCase{S: gen.Of(t, "test", "raft")}
	s := (&ref.Schema{Name: c.S}).Resolve()
	if gen.Pct(t, 60) {
		c.Recs = gen.Recs(t, s, 0, gen.Default())
	}
	if gen.Pct(t, 50) {
		o := gen.DefaultHist()
		o.Reset, o.Reuse, o.Dec = 0, 0, 0
		o.Enc.Pad = true
		c.Ops = gen.Ops(t, s, 0, o)
	}
	return c
}

func runDiff(c *DiffCase, o *eng.Obs) error {
	s := (&ref.Schema{Name: c.S}).Resolve()
	m := hist.New(s, 0)
	o.LabelIf(len(c.Recs) > 0, "decoded")
	o.LabelIf(len(c.Ops) > 0, "history")
	if len(c.Recs) > 0 {
		if err := m.Decode(ref.EncodeRecs(nil, c.Recs), 0); err != nil {
			return err
		}
	}
	for i := range c.Ops {
		if err := m.Apply(&c.Ops[i]); err != nil {
			return err
		}
	}
	if len(c.Recs)+len(c.Ops) > 2 {
		o.NonTrivial()
	}
	b := append([]byte{}, m.T.Encode()...)
	g := gogoNew(c.S)
	if err := proto.Unmarshal(b, g); err != nil {
		return fmt.Errorf("gogo/protobuf cannot decode what Encode returned: %v (%s)", err, ref.Short(b))
	}
	if err := sameAsGogo(m.T, reflect.ValueOf(g), ""); err != nil {
		return err
	}
	// And back: what gogo/protobuf encodes reads the same.
	b2, err := proto.Marshal(g)
	if err != nil {
		return fmt.Errorf("harness: gogo Marshal: %v", err)
	}
	t2 := tgt.New(s, 0)
	if err := t2.Decode(b2); err != nil {
		return fmt.Errorf("Decode of gogo/protobuf's encoding failed: %v (%s)", err, ref.Short(b2))
	}
	// Read back by gogo/protobuf too: it drops negative zeros when it encodes.
	g2 := gogoNew(c.S)
	if err := proto.Unmarshal(b2, g2); err != nil {
		return fmt.Errorf("harness: gogo Unmarshal: %v", err)
	}
	return sameAsGogo(t2, reflect.ValueOf(g2), "")
}

// ---- malformed input ----

// BytesCase is an arbitrary byte string for a message type.
type BytesCase struct {
	S ref.Schema `json:"s"`
	M int        `json:"m"`
	B []byte     `json:"b"`
	// Unit comes Times times before B.
	Unit  []byte `json:"unit,omitempty"`
	Times int    `json:"times,omitempty"`
}

func (c *BytesCase) bytes() []byte {
	b := make([]byte, 0, len(c.Unit)*c.Times+len(c.B))
	for i := 0; i < c.Times; i++ {
		b = append(b, c.Unit...)
	}
	return append(b, c.B...)
}

func evilVarint(t *rapid.T) []byte {
	switch gen.Int(t, 0, 8) {
	case 0:
		return bytes.Repeat([]byte{0x80}, gen.Int(t, 1, 12))
	case 1:
		return append(bytes.Repeat([]byte{0xff}, gen.Int(t, 1, 11)), byte(gen.Int(t, 0, 3)))
	case 2:
		return ref.AppendVarint(nil, 1<<63|uint64(gen.Int(t, 0, 100)), 0)
	case 3:
		return ref.AppendVarint(nil, -uint64(gen.Int(t, 1, 300)), 0)
	case 4:
		return ref.AppendVarint(nil, uint64(gen.Of(t, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<62)), 0)
	case 5:
		return append(bytes.Repeat([]byte{0x80}, 9), gen.Of(t, []byte{0, 1, 2, 0x7f, 0x80}...))
	default:
		return ref.AppendVarint(nil, uint64(gen.Int(t, 0, 40)), gen.Int(t, 0, 9))
	}
}

// EvilBytes draws a byte string that is interesting for message mi.
func EvilBytes(t *rapid.T, s *ref.Schema, mi int) []byte {
	m := &s.Msgs[mi]
	var b []byte
	switch gen.Int(t, 0, 4) {
	case 0: // arbitrary
		return rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "raw")
	case 1: // from a small alphabet
		for _, f := range m.F {
			if f.N < 16 {
				b = append(b, byte(f.N<<3|gen.Int(t, 0, 7)))
			}
			if len(b) > 3 {
				break
			}
		}
		al := append(b, 0x80, 0xff, 0, 1, 2, 3, 0x7f, 4, 8)
		return rapid.SliceOfN(rapid.SampledFrom(al), 0, 24).Draw(t, "raw")
	case 2: // a valid encoding, mutated
		b = ref.EncodeRecs(nil, gen.Recs(t, s, mi, gen.Default()))
		for n := gen.Int(t, 1, 3); n > 0 && len(b) > 0; n-- {
			i := gen.Int(t, 0, len(b)-1)
			switch gen.Int(t, 0, 4) {
			case 0:
				b[i] = gen.Of(t, []byte{0x80, 0xff, 0, 1, 0x7f, 2, 5, 3}...)
			case 1:
				b = b[:i]
			case 2:
				b = append(b[:i], b[i+1:]...)
			case 3:
				b = append(b[:i:i], append([]byte{byte(gen.Int(t, 0, 255))}, b[i:]...)...)
			default:
				b[i] ^= 1 << uint(gen.Int(t, 0, 7))
			}
		}
		return b
	default: // fields with evil parts
		for _, p := range gen.List(t, 1, 5, func(t *rapid.T) []byte {
			n := uint64(gen.Int(t, 1, 40))
			if len(m.F) > 0 && gen.Pct(t, 60) {
				n = uint64(m.F[gen.Int(t, 0, len(m.F)-1)].N)
			}
			wt := gen.Int(t, 0, 7)
			if gen.Pct(t, 70) {
				wt = gen.Of(t, 0, 1, 2, 5)
			}
			var b []byte
			switch gen.Int(t, 0, 5) {
			case 0:
				b = evilVarint(t)
			case 1:
				n = uint64(gen.Of(t, ref.MaxFieldNumber, ref.MaxFieldNumber-1, 1<<28, 65536, 2048))
				b = ref.AppendVarint(nil, n<<3|uint64(wt), 0)
			default:
				b = ref.AppendVarint(nil, n<<3|uint64(wt), gen.Of(t, 0, 0, 0, 0, 1, 2, 8))
			}
			switch wt {
			case 0:
				b = append(b, evilVarint(t)...)
			case 1:
				b = append(b, make([]byte, gen.Of(t, 8, 8, 7, 4, 0))...)
			case 5:
				b = append(b, make([]byte, gen.Of(t, 4, 4, 3, 1, 0))...)
			case 2:
				if gen.Pct(t, 40) {
					b = append(b, evilVarint(t)...)
				} else {
					p := gen.Blob(t, 12, 0, false).Bytes()
					l := len(p) + gen.Of(t, 0, 0, 0, 0, 1, -1, 2)
					if l < 0 {
						l = 0
					}
					b = ref.AppendVarint(b, uint64(l), gen.Of(t, 0, 0, 0, 1))
					b = append(b, p...)
				}
			}
			return b
		}) {
			b = append(b, p...)
		}
		return b
	}
}

func genBytes(t *rapid.T) BytesCase {
	var c BytesCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	c.B = EvilBytes(t, c.S.Resolve(), c.M)
	if gen.Pct(t, 2) && gen.Pct(t, 3) {
		s := c.S.Resolve()
		if r := gen.UnknownRec(t, &s.Msgs[c.M], bulkOpts()); gen.Pct(t, 40) {
			c.Unit = ref.EncodeRecs(nil, []ref.Rec{r})
		} else if c.Unit = ref.EncodeRecs(nil, gen.Recs(t, s, c.M, bulkOpts())); len(c.Unit) > 50 {
			c.Unit = c.Unit[:50]
		}
		c.Times = bulkTimes(t, s, &s.Msgs[c.M], 0, len(c.Unit))
		return c
	}
	if len(c.B) > 0 && gen.Pct(t, 10) {
		// Nested in something valid.
		s := c.S.Resolve()
		for mi := range s.Msgs {
			for _, f := range s.Msgs[mi].F {
				if f.K == ref.Message && f.M == c.M {
					b := ref.AppendField(nil, f.N, ref.Bytes, 0, c.B)
					if f.Rep {
						b = append(b, ref.AppendField(nil, f.N, ref.Bytes, 0, c.B)...)
					}
					c.M, c.B = mi, b
					return c
				}
			}
		}
	}
	return c
}

// readAll calls every accessor of the fields that aren't tainted, recursively.
func readAll(t tgt.Target, b []byte, depth int, reads *int) error {
	m := t.Desc()
	spans, _ := ref.Parse(b)
	taint := ref.Tainted(m, spans)
	for i := range m.F {
		f := &m.F[i]
		if !f.Accessible() || taint[f.N] {
			continue
		}
		*reads++
		switch {
		case f.K != ref.Message:
			v := t.Get(f)
			// Touch every byte.
			n := 0
			for _, c := range v.Byt {
				n += int(c)
			}
			for i := 0; i < len(v.Str); i++ {
				n += int(v.Str[i])
			}
			sink = n
		case !f.Rep:
			sub := t.New(f.M)
			if ok, err := t.GetMsg(f, sub); ok && err == nil && depth > 0 {
				if err := readAll(sub, sub.Encode(), depth-1, reads); err != nil {
					return err
				}
			}
		default:
			it, sub := t.Iter(f), t.New(f.M)
			n := 0
			for {
				ok, err := it.Next(sub)
				if !ok {
					break
				}
				if n++; n > len(b)+1 {
					return fmt.Errorf("iterating field %d does not end: %d elements in %d bytes", f.N, n, len(b))
				}
				if err == nil && depth > 0 {
					if err := readAll(sub, sub.Encode(), depth-1, reads); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

var sink int

func runTotal(c *BytesCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	b := c.bytes()
	var t tgt.Target
	var err error
	for i := 0; ; i++ {
		t = tgt.New(s, c.M)
		before := allocated()
		err = t.Decode(b)
		d := allocated() - before
		if d <= 1<<20+64*uint64(len(b)) {
			break
		}
		// The counter is approximate: what was allocated before may only show up
		// now.
		if i == 4 {
			return eng.Measured("Decode of %d bytes allocated %d bytes", len(b), d)
		}
	}
	o.LabelIf(err != nil, "Decode reported an error")
	o.LabelIf(c.Times > 0, "thousands of fields")
	if len(b) >= 2 {
		o.NonTrivial()
	}
	if err != nil {
		return nil
	}
	o.Label("Decode accepted")
	reads := 0
	if err := readAll(t, b, 6, &reads); err != nil {
		return err
	}
	return nil
}

func runAccept(c *BytesCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	b := c.bytes()
	o.LabelIf(c.Times > 0, "thousands of fields")
	spans, perr := ref.Parse(b)
	o.LabelIf(perr != nil, "malformed")
	if perr == nil {
		if ref.MaxFieldNumber > 0 && tgt.Unspecified(spans) {
			o.Label("illegal field number (unspecified)")
			return nil
		}
		o.Label("well-formed")
	} else {
		o.Label("malformed: " + class(perr.Error()))
	}
	if len(b) >= 2 {
		o.NonTrivial()
	}
	t := tgt.New(s, c.M)
	err := t.Decode(b)
	if perr != nil && err == nil {
		return fmt.Errorf("Decode accepted a malformed encoding: %v: %s", perr, ref.Short(b))
	}
	if perr == nil && err != nil {
		return fmt.Errorf("Decode rejected a well-formed encoding: %v: %s", err, ref.Short(b))
	}
	return nil
}

var digits = regexp.MustCompile(`[0-9]+`)

func class(s string) string { return digits.ReplaceAllString(s, "n") }

// runCuts cuts a valid encoding everywhere.
func runCuts(c *WireCase, o *eng.Obs) error {
	s, ok := c.resolve()
	if !ok {
		return nil
	}
	b := ref.EncodeRecs(nil, c.Recs)
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	ends := map[int]bool{0: true}
	for _, sp := range spans {
		ends[sp.End] = true
	}
	if len(spans) > 1 {
		o.NonTrivial()
	}
	o.Label("cut points total <=" + strconv.Itoa((len(b)/64+1)*64))
	t := tgt.New(s, c.M)
	for i := 0; i <= len(b); i++ {
		// Both with the rest of the encoding in the spare capacity and without.
		for k := 0; k < 2; k++ {
			x := b[:i]
			if k == 1 {
				x = append(make([]byte, 0, i), x...)
			}
			err := t.Decode(x)
			if ends[i] && err != nil {
				return fmt.Errorf("the first %d of %d bytes are whole fields, but Decode fails: %v", i, len(b), err)
			}
			if !ends[i] && err == nil {
				return fmt.Errorf("an encoding cut inside a field (at %d of %d bytes) was accepted: %x", i, len(b), b[:i])
			}
		}
	}
	return nil
}

// ---- unknown fields ----

// UnkCase is an encoding with unknown fields marked for removal, and a history.
type UnkCase struct {
	S    ref.Schema `json:"s"`
	M    int        `json:"m"`
	Recs []ref.Rec  `json:"recs"`
	Ops  []hist.Op  `json:"ops,omitempty"`
}

// strip removes the fields unknown to m at every level.
func strip(s *ref.Schema, mi int, recs []ref.Rec) []ref.Rec {
	var out []ref.Rec
	for _, r := range recs {
		f := s.Msgs[mi].Field(r.N)
		if f == nil {
			continue
		}
		if r.HasSub && f.K == ref.Message {
			r.Sub = strip(s, f.M, r.Sub)
		}
		out = append(out, r)
	}
	return out
}

func genUnk(t *rapid.T) UnkCase {
	var c UnkCase
	so := gen.DefaultSchema()
	// Sparse numbers leave gaps.
	so.Nums = func(t *rapid.T) int {
		return gen.Near(t, 1, 3000, 1, 2, 3, 5, 8, 9, 15, 16, 20, 33, 100, 2047, 2048)
	}
	c.S, c.M = gen.Type(t, so)
	s := c.S.Resolve()
	e := gen.Default()
	e.Unknown = 45
	c.Recs = gen.Recs(t, s, c.M, e)
	if gen.Pct(t, 3) {
		c.Recs = gen.Far(t, &s.Msgs[c.M], c.Recs)
	}
	if gen.Pct(t, 60) {
		h := gen.DefaultHist()
		h.Enc = e
		h.MaxOps = 6
		h.Dec, h.Reset, h.Reuse = 0, 0, 0
		c.Ops = gen.Ops(t, s, c.M, h)
	}
	return c
}

func runUnk(c *UnkCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	var f wireFeatures
	features(&s.Msgs[c.M], s, c.Recs, &f)
	if f.unknown == 0 {
		o.Label("no unknown field")
	}
	max := s.Msgs[c.M].Max()
	for _, r := range c.Recs {
		if s.Msgs[c.M].Field(r.N) == nil {
			o.LabelIf(r.N > max, "above the largest")
			o.LabelIf(r.N < max, "between the known")
			o.LabelIf(r.N >= 1<<16, "beyond 16 bits")
		}
	}
	if f.unknown > 0 && f.fields > 0 {
		o.NonTrivial()
	}
	with, without := hist.New(s, c.M), hist.New(s, c.M)
	if err := with.Decode(ref.EncodeRecs(nil, c.Recs), 0); err != nil {
		return fmt.Errorf("with unknown fields: %w", err)
	}
	if err := without.Decode(ref.EncodeRecs(nil, strip(s, c.M, c.Recs)), 0); err != nil {
		return fmt.Errorf("without unknown fields: %w", err)
	}
	// The models agree by construction on scalars; embedded contents keep their
	// own unknown fields, so each side is checked against its own.
	for i := -1; i < len(c.Ops); i++ {
		if i >= 0 {
			if err := with.Apply(&c.Ops[i]); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if err := without.Apply(&c.Ops[i]); err != nil {
				return fmt.Errorf("step %d without unknown fields: %w", i, err)
			}
		}
		if err := with.Check(); err != nil {
			return fmt.Errorf("with unknown fields, after step %d: %w", i, err)
		}
		if err := without.Check(); err != nil {
			return fmt.Errorf("without unknown fields, after step %d: %w", i, err)
		}
		if err := sameReads(with.T, without.T, ""); err != nil {
			return fmt.Errorf("unknown fields change what is read, after step %d: %w", i, err)
		}
	}
	return nil
}

// sameReads compares two messages through their accessors alone.
func sameReads(a, b tgt.Target, path string) error {
	m := a.Desc()
	for i := range m.F {
		f := &m.F[i]
		if !f.Accessible() {
			continue
		}
		w := path + f.Name
		switch {
		case f.K != ref.Message:
			x, y := a.Get(f), b.Get(f)
			if !tgt.SameScalar(x, y) {
				return fmt.Errorf("%s: %+v vs %+v", w, x, y)
			}
		case !f.Rep:
			x, y := a.New(f.M), b.New(f.M)
			okx, errx := a.GetMsg(f, x)
			oky, erry := b.GetMsg(f, y)
			if okx != oky || (errx == nil) != (erry == nil) {
				return fmt.Errorf("%s: %v,%v vs %v,%v", w, okx, errx, oky, erry)
			}
			if okx && errx == nil {
				if err := sameReads(x, y, w+"."); err != nil {
					return err
				}
			}
		default:
			ix, iy := a.Iter(f), b.Iter(f)
			x, y := a.New(f.M), b.New(f.M)
			for k := 0; ; k++ {
				okx, errx := ix.Next(x)
				oky, erry := iy.Next(y)
				if okx != oky || (errx == nil) != (erry == nil) {
					return fmt.Errorf("%s[%d]: %v,%v vs %v,%v", w, k, okx, errx, oky, erry)
				}
				if !okx {
					break
				}
				if errx == nil {
					if err := sameReads(x, y, fmt.Sprintf("%s[%d].", w, k)); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

// ---- scalars ----

// ScalarCase sets and reads one value of one kind.
type ScalarCase struct {
	K ref.Kind `json:"k"`
	N int      `json:"n"`
	U uint64   `json:"u"`
	ref.Blob
	// Wire is a foreign encoding of some value (numeric kinds).
	Wire uint64 `json:"wire"`
	VP   int    `json:"vp,omitempty"`
	TP   int    `json:"tp,omitempty"`
	LP   int    `json:"lp,omitempty"`
	// Old is set first, if HasOld.
	HasOld bool   `json:"hasold,omitempty"`
	Old    uint64 `json:"old,omitempty"`
	OldLen int    `json:"oldlen,omitempty"`
	Golden bool   `json:"golden,omitempty"`
}

func genScalar(t *rapid.T) ScalarCase {
	var c ScalarCase
	c.K = ref.Kind(gen.Int(t, 0, int(ref.NumKinds)-2))
	c.N = gen.Near(t, 1, 3000, 1, 2, 15, 16, 100, 2047, 2048)
	c.Golden = gen.Pct(t, 50)
	c.U = gen.Scalar(t, c.K)
	if c.K == ref.String || c.K == ref.Bytes {
		c.Blob = gen.Blob(t, 40, gen.Of(t, 0, 0, 0, 0, 20000, 70000), c.K == ref.String)
	}
	switch c.K.WireType() {
	case ref.WVarint:
		c.Wire = ref.ToWire(c.K, gen.Scalar(t, c.K))
		if gen.Pct(t, 40) {
			switch c.K {
			case ref.Int32, ref.Uint32, ref.Enum, ref.Bool:
				c.Wire = rapid.Uint64().Draw(t, "wire")
			}
		}
		if c.K == ref.Enum && gen.Pct(t, 20) {
			// Negative enum values are encoded in ten bytes.
			c.Wire = uint64(int64(int32(rapid.Uint32().Draw(t, "enum"))))
		}
		c.VP = gen.Of(t, 0, 0, 1, 2, 9)
	case ref.W32:
		c.Wire = uint64(rapid.Uint32().Draw(t, "wire"))
	case ref.W64:
		c.Wire = rapid.Uint64().Draw(t, "wire")
	}
	c.TP, c.LP = gen.Of(t, 0, 0, 1), gen.Of(t, 0, 0, 1, 3)
	c.HasOld = gen.Pct(t, 40)
	c.Old = gen.Scalar(t, c.K)
	c.OldLen = gen.Near(t, 0, 1100, 0, 1, 5, 127, 128, 200)
	return c
}

func runScalar(c *ScalarCase, o *eng.Obs) error {
	s := &ref.Schema{Msgs: []ref.Msg{{Name: "S", F: []ref.Field{{N: c.N, K: c.K, Name: "f"}}}}}
	if c.Golden {
		s = ref.Test()
		for _, f := range s.Msgs[0].F {
			if f.K == c.K {
				c.N = f.N
				break
			}
		}
	}
	f := s.Msgs[0].Field(c.N)
	o.Label("kind " + c.K.String())
	if c.U != 0 || len(c.B)+c.Fill > 0 {
		o.NonTrivial()
	}
	t := tgt.New(s, 0)
	if c.HasOld {
		old, _ := hist.ValOf(f, &hist.Op{U: c.Old, Blob: ref.Blob{Fill: c.OldLen, A: c.A}})
		t.Set(f, old)
	}
	arg, val := hist.ValOf(f, &hist.Op{U: c.U, Blob: c.Blob})
	t.Set(f, arg)
	got := t.Get(f)
	if got.U != val.U || c.K == ref.String && got.Str != string(val.B) || c.K == ref.Bytes && !bytes.Equal(got.Byt, val.B) {
		return fmt.Errorf("%s: set %#x %s, read %#x %s%s", c.K, val.U, ref.Short(val.B), got.U, ref.Short([]byte(got.Str)), ref.Short(got.Byt))
	}
	want := ref.AppendField(nil, c.N, c.K, val.U, val.B)
	if enc := t.Encode(); !bytes.Equal(enc, want) {
		return fmt.Errorf("%s: %#x is encoded as %s, canonical is %s", c.K, val.U, ref.Short(enc), ref.Short(want))
	}
	if c.K == ref.String || c.K == ref.Bytes {
		r := ref.Rec{N: c.N, WT: ref.WLen, Blob: c.Blob, TP: c.TP, LP: c.LP}
		t2 := tgt.New(s, 0)
		if err := t2.Decode(ref.EncodeRecs(nil, []ref.Rec{r})); err != nil {
			return fmt.Errorf("Decode: %v", err)
		}
		got := t2.Get(f)
		if c.K == ref.String && got.Str != string(val.B) || c.K == ref.Bytes && !bytes.Equal(got.Byt, val.B) {
			return fmt.Errorf("%s: encoded %s, read %s%s", c.K, ref.Short(val.B), ref.Short([]byte(got.Str)), ref.Short(got.Byt))
		}
		return nil
	}
	r := ref.Rec{N: c.N, WT: c.K.WireType(), U: c.Wire, TP: c.TP, VP: c.VP}
	t2 := tgt.New(s, 0)
	if err := t2.Decode(ref.EncodeRecs(nil, []ref.Rec{r})); err != nil {
		return fmt.Errorf("Decode: %v", err)
	}
	if got, want := t2.Get(f).U, ref.FromWire(c.K, c.Wire); got != want {
		return fmt.Errorf("%s: the encoding %#x means %#x, accessor returned %#x", c.K, c.Wire, want, got)
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C01",
		Parts: []*eng.Part{
			eng.NewPart("wire", 640000, 22400000, "random encodings (any order, duplicates, padding, over-wide varints, unknown fields, nesting) of golden and random schemas; non-trivial: at least 2 known fields and at least one such feature",
				genWire(gen.Default()), runWire),
			eng.NewPart("gogo", 160000, 5600000, "encodings and histories on the golden types, read by gogo/protobuf and by zeropb, both ways; non-trivial: more than 2 fields or calls",
				genDiff, runDiff),
			millionsPart(40, "encodings in which some fields are repeated 70000 to 4300000 times, read completely, then a few calls", false, anyField),
			bulkPart(800, "encodings in which a field or two are repeated thousands of times, read completely, then a few calls", false, bulkOpts, anyField, nil),
			widePart(1600, "messages with 40 to 600 different fields present, before and beyond 64 KiB, read completely", nil),
		},
		Known: []eng.Known{{What: "an embedded message split over several occurrences is not reported by Decode (README says it is) and only the last part is kept", Check: knownSplit}},
		Assumptions: []string{"the reference codec in harness/ref follows the protobuf specification (cross-checked against gogo/protobuf in part gogo)",
			"over-wide varints of sint32 fields and negative enums written in five bytes are left out: implementations differ"},
	})
	eng.Register(&eng.Prop{ID: "C04",
		Parts: []*eng.Part{
			eng.NewPart("bytes", 2400000, 40000000, "arbitrary, mutated and adversarially structured byte strings, decoded and then read completely; non-trivial: at least 2 bytes",
				genBytes, runTotal),
		},
		Known:       []eng.Known{{What: "a known field encoded with another wire type than the declared one passes Decode, and its accessor panics (Decode has no type information)", Check: knownWireType}},
		Assumptions: []string{"25 s of CPU time on one case of at most a few hundred bytes counts as a hang; more than 1 MiB + 64 bytes per input byte allocated counts as unbounded allocation"},
	})
	eng.Register(&eng.Prop{ID: "C05",
		Parts: []*eng.Part{
			eng.NewPart("accept", 2400000, 40000000, "arbitrary, mutated and adversarially structured byte strings, Decode's verdict compared with the reference parser's; non-trivial: at least 2 bytes",
				genBytes, runAccept),
			eng.NewPart("cuts", 96000, 3360000, "valid encodings cut at every position; non-trivial: at least 2 fields",
				func(t *rapid.T) WireCase {
					o := gen.Default()
					o.MaxBlob, o.Depth, o.Few = 10, 2, true
					return genWire(o)(t)
				}, runCuts),
			millionsPart(40, "well-formed encodings of 70000 to 4300000 fields, decoded, and cut", false, anyField),
			bulkPart(800, "well-formed encodings of thousands of fields, decoded", false, bulkOpts, anyField, func(h *gen.HistOpts) { h.Redec, h.Move = 40, 20 }),
		},
		Assumptions: []string{"encodings with field number 0 or above 2^29-1 are left out unless malformed otherwise: the property does not cover them"},
	})
	eng.Register(&eng.Prop{ID: "C07",
		Parts: []*eng.Part{
			eng.NewPart("unknown", 240000, 8400000, "encodings with unknown fields interleaved at every level, compared with the model and with the same encoding without them, before and after a history of setters; non-trivial: known and unknown fields present",
				genUnk, runUnk),
			eng.NewPart("bulk", 600, 21000, "encodings in which an unknown field or two are repeated thousands of times, compared likewise; non-trivial: known and unknown fields present",
				func(t *rapid.T) UnkCase {
					var c UnkCase
					c.S, c.M = gen.Type(t, gen.DefaultSchema())
					s := c.S.Resolve()
					c.Recs = dropSplits(&s.Msgs[c.M], bulkRecs(t, s, c.M, bulkOpts(), func(f *ref.Field) bool { return f == nil }))
					if gen.Pct(t, 50) {
						h := gen.DefaultHist()
						h.Enc = bulkOpts()
						h.MaxOps = 3
						h.Dec, h.Reset, h.Reuse, h.SubDepth = 0, 0, 0, 1
						c.Ops = gen.Ops(t, s, c.M, h)
					}
					return c
				}, runUnk),
		},
	})
	eng.Register(&eng.Prop{ID: "C14",
		Parts: []*eng.Part{
			eng.NewPart("scalar", 3600000, 40000000, "a value of each kind set (over an old one or not), read back, compared with the canonical encoding; and foreign encodings read; non-trivial: a non-zero value",
				genScalar, runScalar),
		},
		Assumptions: []string{"enum values set are non-negative int32 (the API is uint32)"},
	})
}

func knownSplit() error {
	b := []byte{0x8a, 0x01, 2, 0x08, 1, 0x8a, 0x01, 2, 0x10, 5}
	s := ref.Test()
	t := tgt.New(s, 0)
	if err := t.Decode(b); err != nil {
		return nil
	}
	sub := t.New(0)
	f := s.Msgs[0].Field(17)
	if ok, err := t.GetMsg(f, sub); !ok || err != nil {
		return nil
	}
	if sub.Get(s.Msgs[0].Field(1)).U == 1 && sub.Get(s.Msgs[0].Field(2)).U == 5 {
		return nil
	}
	return fmt.Errorf("split embedded message: only the last part is kept")
}

func knownWireType() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	// fixed64 (field 9) encoded as a one-byte varint.
	s := ref.Test()
	t := tgt.New(s, 0)
	if err := t.Decode([]byte{9<<3 | 0, 1}); err != nil {
		return nil
	}
	t.Get(s.Msgs[0].Field(9))
	return nil
}
