// Package gen holds the generators, all on top of pgregory.net/rapid.
package gen

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
	"verif/harness/hist"
	"verif/harness/ref"
)

// T is rapid's.
type T = rapid.T

var coin = rapid.Bool()

// uniform draws 0..n-1 evenly; rapid's own ranges prefer small values, which would
// starve the later alternatives.
func uniform(t *T, n int) int {
	x := 0
	// Out of range is drawn again, but not forever, as reducing may get stuck.
	for try := 0; try < 5; try++ {
		x = 0
		for m := 1; m < n; m *= 2 {
			x *= 2
			if coin.Draw(t, "b") {
				x++
			}
		}
		if x < n {
			break
		}
	}
	return x % n
}

// Int draws lo..hi.
func Int(t *T, lo, hi int) int {
	if hi-lo < 40 {
		if hi <= lo {
			coin.Draw(t, "b")
			return lo
		}
		return lo + uniform(t, hi-lo+1)
	}
	if uniform(t, 16) == 15 {
		if x, ok := Dict(t, lo, hi); ok {
			return x
		}
	}
	return rapid.IntRange(lo, hi).Draw(t, "i")
}

// Pct is true in about p of 100 cases; it shrinks to false.
func Pct(t *T, p int) bool { return uniform(t, 32) >= 32-(p*32+50)/100 }

// Of draws one of xs; it shrinks to the first.
func Of[X any](t *T, xs ...X) X { return xs[Int(t, 0, len(xs)-1)] }

// Opts says what encodings may contain.
type Opts struct {
	Unknown int  // percentage of fields that the schema doesn't have
	Pad     bool // non-minimal tags, lengths, varints
	Dup     bool // singular scalars several times
	Wide    bool // varints wider than the type
	Bad     int  // percentage of embedded contents that are malformed
	MaxRecs int
	Depth   int
	MaxBlob int // longest ordinary blob
	Big     int // if set, blobs of up to that many bytes in one case out of 6
	Foreign bool
	// Few leaves out fields repeated hundreds of times.
	Few bool
	// UnkNums, if set, are the unknown field numbers to use.
	UnkNums []int
}

// Default options for encodings.
func Default() Opts {
	return Opts{Unknown: 15, Pad: true, Dup: true, Wide: true, MaxRecs: 8, Depth: 3, MaxBlob: 20}
}

// List draws min..max values of f. Its elements shrink away one by one.
func List[X any](t *T, min, max int, f func(t *T) X) []X {
	if max <= min {
		max = min
	} else {
		// rapid's own lengths are short mostly.
		min += (max - min) * Of(t, 0, 0, 1, 2) / 3
	}
	return rapid.SliceOfN(rapid.Custom(f), min, max).Draw(t, "l")
}

var edges = []uint64{0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000,
	0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 49, 1<<56 - 1, 1 << 56, 1<<63 - 1, 1 << 63, 1<<64 - 1}

var floats64 = []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0xfff8dead0000beef, 1, 0x000fffffffffffff, 0x3ff0000000000000, 0x7fefffffffffffff}
var floats32 = []uint64{0, 1 << 31, 0x7f800000, 0xff800000, 0x7fc00001, 0x7f800001, 0xffdead01, 1, 0x007fffff, 0x3f800000, 0x7f7fffff}

// Scalar draws a value of a numeric kind in the carried form.
func Scalar(t *T, k ref.Kind) uint64 {
	var u uint64
	switch k {
	case ref.Bool:
		return uint64(Int(t, 0, 1))
	case ref.Double:
		if Pct(t, 50) {
			return Of(t, floats64...)
		}
		if f, ok := dictFloat(t); ok && Pct(t, 12) {
			return math.Float64bits(f)
		}
		return rapid.Uint64().Draw(t, "f64")
	case ref.Float:
		if Pct(t, 50) {
			return Of(t, floats32...)
		}
		if f, ok := dictFloat(t); ok && Pct(t, 12) {
			return uint64(math.Float32bits(float32(f)))
		}
		return uint64(rapid.Uint32().Draw(t, "f32"))
	}
	switch Int(t, 0, 3) {
	case 0:
		u = uint64(Int(t, 0, 3))
	case 1:
		u = Of(t, edges...)
	case 2:
		u = -Of(t, edges...)
	default:
		d, ok := dictScalar(t)
		if ok = ok && Pct(t, 30); ok {
			u = d
		} else {
			u = rapid.Uint64().Draw(t, "u")
		}
	}
	switch k {
	case ref.Int32, ref.Sint32, ref.Sfixed32:
		return uint64(int64(int32(uint32(u))))
	case ref.Uint32, ref.Fixed32:
		return uint64(uint32(u))
	case ref.Enum:
		// Negative enum values have no settled form here (the API is uint32).
		return uint64(uint32(u) & 0x7fffffff)
	}
	return u
}

var tricky = []byte{0x00, 0x80, 0x01, 0xff, 0x0a, 0x08, 0x7f, 0x81, 0x12}

// Blob draws a byte string.
func Blob(t *T, max, big int, ascii bool) ref.Blob {
	b := ref.Blob{A: ascii}
	if big > 0 && Pct(t, 16) {
		b.Fill = Int(t, 0, big)
		b.Salt = byte(Int(t, 0, 255))
		return b
	}
	switch Int(t, 0, 9) {
	case 0, 1:
		return b
	case 2, 3, 4:
		n := Int(t, 1, 4)
		for i := 0; i < n; i++ {
			b.B = append(b.B, Of(t, tricky...))
		}
		if !ascii && Pct(t, 9) {
			b.B = dictBytes(t)
		}
	case 5, 6, 7, 8:
		b.Fill = Int(t, 0, max)
		b.Salt = byte(Int(t, 0, 255))
	default:
		b.Fill = Near(t, 0, 1100, 126, 127, 128, 129, 255, 256, 130)
		b.Salt = byte(Int(t, 0, 255))
		if max >= 20 && Pct(t, 9) {
			// Where the length needs another byte.
			b.Fill = Near(t, 0, 25000, 16383, 16384, 16385, 16382, 20000)
		}
	}
	return b
}

func pad(t *T, o Opts) int {
	if !o.Pad || !Pct(t, 20) {
		return 0
	}
	return Int(t, 1, 3)
}

// varintFor is a wire value for a scalar kind: canonical, or wider than the type.
func varintFor(t *T, k ref.Kind, o Opts) uint64 {
	u := ref.ToWire(k, Scalar(t, k))
	if o.Wide && Pct(t, 20) {
		switch k {
		case ref.Int32, ref.Uint32, ref.Enum:
			hi := Of(t, uint64(1)<<32, 0xffffffff<<32, 1<<63, uint64(Int(t, 1, 1<<30))<<32)
			return uint64(uint32(u)) | hi
		case ref.Bool:
			return Of(t, uint64(2), 128, 1<<32, 1<<63, 1<<64-1, 256)
		}
	}
	return u
}

// UnknownNum draws a legal field number that m doesn't have.
func UnknownNum(t *T, m *ref.Msg, nums []int) int {
	max := m.Max()
	n := 0
	if len(nums) > 0 {
		n = Of(t, nums...)
	} else {
		switch Int(t, 0, 4) {
		case 0:
			n = Int(t, 1, 40)
		case 1:
			n = max + Int(t, 1, 3)
		case 2:
			n = Near(t, 1, ref.MaxFieldNumber, 15, 16, 2047, 2048, 262143, 262144, 1<<25-1, 1<<25, 18999, 65535, 65536, 65537)
		case 3:
			n = Of(t, ref.MaxFieldNumber, ref.MaxFieldNumber-1, 1<<28, 1<<16+max, 1<<28+1)
		default:
			n = Int(t, 1, ref.MaxFieldNumber)
		}
	}
	for m.Field(n) != nil || n < 1 || n > ref.MaxFieldNumber {
		n = n%ref.MaxFieldNumber + 1
	}
	return n
}

// UnknownRec draws a field that m doesn't have.
func UnknownRec(t *T, m *ref.Msg, o Opts) ref.Rec {
	r := ref.Rec{N: UnknownNum(t, m, o.UnkNums), WT: Of(t, ref.WVarint, ref.WLen, ref.W64, ref.W32), TP: pad(t, o)}
	switch r.WT {
	case ref.WLen:
		r.LP = pad(t, o)
		r.Blob = Blob(t, o.MaxBlob, o.Big, false)
	case ref.WVarint:
		r.VP = pad(t, o)
		r.U = Scalar(t, ref.Uint64)
	case ref.W32:
		r.U = uint64(rapid.Uint32().Draw(t, "u32"))
	default:
		r.U = rapid.Uint64().Draw(t, "u64")
	}
	return r
}

// Far puts a long unknown field before some of the fields, so that the value of one
// of them lies at or near the offset 65 535.
func Far(t *T, m *ref.Msg, recs []ref.Rec) []ref.Rec {
	if len(recs) == 0 {
		return recs
	}
	j := Int(t, 0, len(recs)-1)
	i := Int(t, 0, j)
	at := Near(t, 100, 150000, 65535, 65534, 65536, 65533, 65537, 65500, 65600, 131072)
	r := ref.Rec{N: UnknownNum(t, m, nil), WT: ref.WLen}
	enc := func(recs []ref.Rec) int { return len(ref.EncodeRecs(nil, recs)) }
	before := enc(recs[:j]) + len(ref.AppendTag(nil, recs[j].N, recs[j].WT, recs[j].TP))
	if n := at - before - enc([]ref.Rec{r}) - 2; n > 0 {
		r.Blob = ref.Blob{Fill: n, Salt: 1}
	}
	return append(recs[:i:i], append([]ref.Rec{r}, recs[i:]...)...)
}

// Rec draws an occurrence of field f.
func Rec(t *T, s *ref.Schema, f *ref.Field, o Opts) ref.Rec {
	r := ref.Rec{N: f.N, WT: f.K.WireType(), TP: pad(t, o)}
	if f.Rep && f.K != ref.Message && r.WT != ref.WLen && Pct(t, 50) {
		// Packed.
		r.WT = ref.WLen
		n := Int(t, 0, 4)
		for i := 0; i < n; i++ {
			p := ref.AppendField(nil, 1, f.K, Scalar(t, f.K), nil)
			r.B = append(r.B, p[1:]...)
		}
		return r
	}
	switch {
	case f.K == ref.Message:
		r.LP = pad(t, o)
		if o.Bad > 0 && Pct(t, o.Bad) {
			r.Blob = BadBytes(t)
			return r
		}
		r.HasSub = true
		if o.Depth > 0 {
			so := o
			so.Depth--
			so.Few = true
			so.MaxRecs = (o.MaxRecs + 1) / 2
			r.Sub = Recs(t, s, f.M, so)
		}
	case r.WT == ref.WLen:
		r.LP = pad(t, o)
		r.Blob = Blob(t, o.MaxBlob, o.Big, f.K == ref.String)
	case r.WT == ref.WVarint:
		r.VP = pad(t, o)
		r.U = varintFor(t, f.K, o)
	default:
		r.U = ref.ToWire(f.K, Scalar(t, f.K))
	}
	return r
}

// Recs draws the fields of an encoding of message mi.
func Recs(t *T, s *ref.Schema, mi int, o Opts) []ref.Rec {
	m := &s.Msgs[mi]
	if len(m.F) == 0 && o.Unknown == 0 {
		return nil
	}
	recs := List(t, 0, o.MaxRecs, func(t *T) ref.Rec {
		if len(m.F) == 0 || o.Unknown > 0 && Pct(t, o.Unknown) {
			return UnknownRec(t, m, o)
		}
		return Rec(t, s, &m.F[Int(t, 0, len(m.F)-1)], o)
	})
	out := recs[:0]
	used := map[int]bool{}
	for _, r := range recs {
		if f := m.Field(r.N); f != nil && !f.Rep {
			if used[f.N] && (f.K == ref.Message || !o.Dup) {
				continue
			}
			used[f.N] = true
		}
		out = append(out, r)
	}
	if len(out) > 0 && !o.Few && Pct(t, 3) && Pct(t, 30) {
		r := &out[Int(t, 0, len(out)-1)]
		f := m.Field(r.N)
		if f == nil || f.Rep || o.Dup && f.K != ref.Message {
			r.Times = Times(t)
		}
	}
	return out
}

// Times draws how often something is repeated.
func Times(t *T) int { return Near(t, 2, 1200, 253, 254, 255, 256, 257, 20, 70, 127, 128, 600, 1030) }

// BadBytes draws bytes that are mostly malformed as a message.
func BadBytes(t *T) ref.Blob {
	switch Int(t, 0, 3) {
	case 0:
		return ref.Blob{B: Of(t, []byte{0x08}, []byte{0x0a, 0x05, 1}, []byte{0x0b}, []byte{0x0c}, []byte{0x0e, 1}, []byte{0x80},
			[]byte{0x09, 1, 2, 3}, []byte{0x0d, 1}, []byte{0x08, 0x80}, []byte{0x12, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1},
			[]byte{0x08, 1, 0x0f}, []byte{0x08, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
			[]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 0})}
	default:
		n := Int(t, 1, 6)
		var b ref.Blob
		for i := 0; i < n; i++ {
			b.B = append(b.B, Of(t, []byte{0x08, 0x80, 0x0a, 0x01, 0xff, 0x12, 0x7f, 0x0b, 0x0d, 0x09, 0x10, 0x05, 0x1a}...))
		}
		return b
	}
}

// SchemaOpts says what schemas may contain.
type SchemaOpts struct {
	MaxMsgs, MaxFields int
	// Nums draws field numbers; nil means mostly small ones.
	Nums func(t *T) int
	// Kinds restricts the kinds.
	Kinds []ref.Kind
	// RepScalars allows repeated scalar fields (without accessors).
	RepScalars bool
	// Far gives a schema a large field number now and then.
	Far bool
}

// farNum draws a large field number, one whose offset array is still small.
func farNum(t *T) int {
	return Near(t, 3000, 1<<21, 4095, 4096, 16384, 32767, 32768, 65534, 65535, 65536, 131071, 131072, 200000, 1<<18, Int(t, 3000, 1<<19))
}

func smallNum(t *T) int {
	if Pct(t, 10) {
		return Near(t, 1, 3000, 15, 16, 17, 31, 32, 127, 128, 129, 255, 256, 300, 2047, 2048)
	}
	return Int(t, 1, 24)
}

// Schema draws a schema (used through the runtime's exported functions).
func Schema(t *T, o SchemaOpts) ref.Schema {
	if o.Nums == nil {
		o.Nums = smallNum
	}
	if o.Kinds == nil {
		for k := ref.Bool; k < ref.NumKinds; k++ {
			o.Kinds = append(o.Kinds, k)
		}
	}
	n := Int(t, 1, o.MaxMsgs)
	var s ref.Schema
	for i := 0; i < n; i++ {
		m := ref.Msg{Name: fmt.Sprintf("M%d", i)}
		nf := Int(t, 1, o.MaxFields)
		far := -1
		if o.Far && Pct(t, 3) {
			far = Int(t, 0, nf-1)
		}
		for j := 0; j < nf; j++ {
			f := ref.Field{N: o.Nums(t)}
			if j == far {
				f.N = farNum(t)
			}
			for m.Field(f.N) != nil {
				f.N++
			}
			if Pct(t, 35) {
				f.K = Of(t, ref.Bytes, ref.Message, ref.Message, ref.String)
			} else {
				f.K = Of(t, o.Kinds...)
			}
			switch {
			case f.K == ref.Message:
				f.M = Int(t, 0, n-1)
				f.Rep = Pct(t, 50)
			case o.RepScalars:
				f.Rep = Pct(t, 8)
			}
			f.Name = fmt.Sprintf("f%d", f.N)
			m.F = append(m.F, f)
		}
		s.Msgs = append(s.Msgs, m)
	}
	return s
}

// Fresh draws a message type of the fresh schemas.
func Fresh(t *T) (ref.Schema, int) {
	s := ref.Schema{Name: fmt.Sprintf("fresh%d", Int(t, 0, ref.NumFresh-1))}
	return s, Int(t, 0, len(s.Resolve().Msgs)-1)
}

// Type draws a message type: golden test, golden raft, of a fresh schema, or of a
// random one.
func Type(t *T, o SchemaOpts) (ref.Schema, int) {
	switch Int(t, 0, 5) {
	case 0, 1:
		return ref.Schema{Name: "test"}, 0
	case 2:
		return ref.Schema{Name: "raft"}, Of(t, 0, 0, 0, 2, 3, 1, 6)
	case 3:
		return Fresh(t)
	}
	s := Schema(t, o)
	return s, Int(t, 0, len(s.Msgs)-1)
}

// DefaultSchema options.
func DefaultSchema() SchemaOpts { return SchemaOpts{MaxMsgs: 3, MaxFields: 7, RepScalars: true} }

// FarSchema options: with large field numbers now and then.
func FarSchema() SchemaOpts {
	o := DefaultSchema()
	o.Far = true
	return o
}

// HistOpts says what histories may contain.
type HistOpts struct {
	MaxOps int
	Enc    Opts // encodings decoded, contents of embedded messages
	// Weights of the calls.
	Set, SetM, App, Dec, Redec, Move, Reset, Reuse, Reach, BadDec, Iter, Alias, RMW, Grow, Down int
	// ReachMax is the largest length reached.
	ReachAt func(t *T) int
	// SubDepth is how deep histories on embedded messages nest.
	SubDepth int
	// MaxBlob and Big for values set.
	MaxBlob, Big int
	// In is the percentage of encodings that come in the buffer of the last one.
	In int
}

// DefaultHist are ordinary histories.
func DefaultHist() HistOpts {
	return HistOpts{MaxOps: 14, Enc: Default(), Set: 40, SetM: 10, App: 16, Dec: 12, Redec: 3, Move: 2, Reset: 2, Reuse: 2, SubDepth: 2, MaxBlob: 20}
}

// Focus draws the accessible fields a history concentrates on.
func Focus(t *T, m *ref.Msg) []*ref.Field {
	var all []*ref.Field
	for i := range m.F {
		if m.F[i].Accessible() {
			all = append(all, &m.F[i])
		}
	}
	if len(all) <= 5 {
		return all
	}
	var out []*ref.Field
	for i := 0; i < 4; i++ {
		out = append(out, all[Int(t, 0, len(all)-1)])
	}
	// Embedded messages, repeated fields, strings and bytes do more.
	scal, msgs, reps, strs := split(all)
	for _, fs := range [][]*ref.Field{msgs, reps, strs} {
		if len(fs) > 0 && Pct(t, 50) {
			out = append(out, fs[Int(t, 0, len(fs)-1)])
		}
	}
	if len(scal) > 0 {
		out = append(out, scal[Int(t, 0, len(scal)-1)])
	}
	return out
}

func split(fs []*ref.Field) (scal, msgs, reps, strs []*ref.Field) {
	for _, f := range fs {
		switch {
		case f.Rep:
			reps = append(reps, f)
		case f.K == ref.Message:
			msgs = append(msgs, f)
		default:
			scal = append(scal, f)
		}
		if f.K == ref.String || f.K == ref.Bytes {
			strs = append(strs, f)
		}
	}
	return
}

type choice struct {
	w int
	k string
}

// Op draws one call on message mi.
func Op(t *T, s *ref.Schema, mi int, fs []*ref.Field, o HistOpts) hist.Op {
	scal, msgs, reps, strs := split(fs)
	if len(msgs)+len(reps) == 0 {
		o.SetM, o.App, o.RMW = 0, 0, 0
	}
	var cs []choice
	add := func(w int, k string, ok bool) {
		if ok && w > 0 {
			cs = append(cs, choice{w, k})
		}
	}
	add(o.Set, "set", len(scal) > 0)
	add(o.SetM, "setm", len(msgs) > 0)
	add(o.App, "app", len(reps) > 0)
	add(o.Reach, "reach", len(strs) > 0)
	add(o.RMW, "rmw", len(msgs) > 0)
	add(o.Alias, "alias", len(strs)+len(msgs)+len(reps) > 0)
	add(o.Grow, "grow", len(strs)+len(msgs)+len(reps) > 0)
	var selves []*ref.Field
	for _, f := range append(append([]*ref.Field{}, msgs...), reps...) {
		if f.M == mi {
			selves = append(selves, f)
		}
	}
	add(o.Down, "down", len(selves) > 0)
	add(o.Iter, "iter", len(reps) > 0)
	add(o.Dec, "dec", true)
	add(o.Redec, "redec", true)
	add(o.Move, "move", true)
	add(o.BadDec, "baddec", true)
	add(o.Reset, "reset", true)
	add(o.Reuse, "reuse", true)
	if len(cs) == 0 {
		Int(t, 0, 1) // rapid wants elements to draw something
		return hist.Op{K: "reset"}
	}
	sum := 0
	for _, c := range cs {
		sum += c.w
	}
	x := uniform(t, sum)
	var op hist.Op
	for _, c := range cs {
		if x < c.w {
			op.K = c.k
			break
		}
		x -= c.w
	}
	pick := func(fs []*ref.Field) *ref.Field {
		f := fs[Int(t, 0, len(fs)-1)]
		op.F = f.N
		return f
	}
	switch op.K {
	case "set":
		f := pick(scal)
		SetArg(t, f, &op, o)
	case "reach":
		pick(strs)
		op.P = o.ReachAt(t)
		op.Salt = byte(Int(t, 0, 255))
	case "setm":
		subArg(t, s, pick(msgs), &op, o)
	case "app":
		subArg(t, s, pick(reps), &op, o)
		if !o.Enc.Few && Pct(t, 3) && Pct(t, 30) {
			op.Times = Times(t)
		}
	case "dec":
		op.P = Of(t, 0, 0, 1, 16, 100)
		op.Recs = Recs(t, s, mi, o.Enc)
		op.In = InLast(t, o.In)
	case "redec", "move":
		op.P = Of(t, 0, 0, 1, 16, 100)
	case "baddec":
		op.P = Of(t, 0, 16)
		op.Blob = BadBytes(t)
		if Pct(t, 50) {
			b := ref.EncodeRecs(nil, Recs(t, s, mi, o.Enc))
			if len(b) > 4096 {
				b = b[:4096]
			}
			op.Blob.B = append(b, op.Blob.B...)
		}
	case "reset":
		op.P = Of(t, 0, 0, 1, 8, 64, 1000)
	case "down":
		pick(selves)
		op.P = Int(t, 0, 3)
	case "iter":
		pick(reps)
		op.P = Int(t, 0, 3)
	case "rmw":
		f := pick(msgs)
		op.Ops = subOps(t, s, f.M, o, 1)
	case "alias":
		var dst []*ref.Field
		dst = append(append(append(dst, strs...), msgs...), reps...)
		f := pick(dst)
		if (f.K == ref.Bytes || f.K == ref.Message && f.M == mi) && Pct(t, 25) {
			op.G = hist.Whole
			op.P = Int(t, 0, 3)
			op.X = Of(t, 0, 1, 2, Int(t, 0, 20), Int(t, 0, 300))
			op.Y = Of(t, -2, -2, -1, Int(t, 0, 20))
			break
		}
		var src []*ref.Field
		for _, g := range dst {
			if f.K == ref.Message && (g.K != ref.Message || g.M != f.M) || f.K == ref.String && g.K != ref.String {
				continue
			}
			src = append(src, g)
		}
		op.G = src[Int(t, 0, len(src)-1)].N
		op.P = Int(t, 0, 3)
		op.X = Int(t, 0, 20)
		op.Y = Int(t, -1, 20)
	case "grow":
		var dst []*ref.Field
		dst = append(append(append(dst, strs...), msgs...), reps...)
		pick(dst)
		op.P = Int(t, 0, 3)
		op.Blob = ref.Blob{Fill: Int(t, 0, 12)}
	}
	return op
}

// InLast draws whether an encoding comes in the buffer of the last one.
func InLast(t *T, pct int) int {
	if pct == 0 || !Pct(t, pct) {
		return 0
	}
	return Of(t, 1, 2, 2, 3)
}

// SetArg draws the value set.
func SetArg(t *T, f *ref.Field, op *hist.Op, o HistOpts) {
	if f.K == ref.String || f.K == ref.Bytes {
		op.Blob = Blob(t, o.MaxBlob, o.Big, f.K == ref.String)
	} else {
		op.U = Scalar(t, f.K)
	}
}

func subArg(t *T, s *ref.Schema, f *ref.Field, op *hist.Op, o HistOpts) {
	if Pct(t, 50) {
		e := o.Enc
		e.Few = true
		e.MaxRecs = (e.MaxRecs + 1) / 2
		if e.Depth > 0 {
			e.Depth--
		}
		op.Recs = Recs(t, s, f.M, e)
	}
	if Pct(t, 60) {
		op.Ops = subOps(t, s, f.M, o, 0)
	}
}

func subOps(t *T, s *ref.Schema, mi int, o HistOpts, min int) []hist.Op {
	if o.SubDepth <= 0 {
		return nil
	}
	so := o
	so.SubDepth--
	so.MaxOps = (o.MaxOps + 2) / 4
	so.Enc.Few = true
	so.Reset, so.Reuse, so.BadDec, so.Dec, so.Redec, so.Move, so.Reach = 0, 0, 0, 0, 0, 0, 0
	return ops(t, s, mi, so, min, so.MaxOps)
}

func ops(t *T, s *ref.Schema, mi int, o HistOpts, min, max int) []hist.Op {
	fs := Focus(t, &s.Msgs[mi])
	return List(t, min, max, func(t *T) hist.Op { return Op(t, s, mi, fs, o) })
}

// Ops draws a history on message mi.
func Ops(t *T, s *ref.Schema, mi int, o HistOpts) []hist.Op {
	max := o.MaxOps
	if max >= 10 && Pct(t, 3) && Pct(t, 30) {
		max *= 10
	}
	return ops(t, s, mi, o, 1, max)
}

// Hist draws a type and a history on it.
func Hist(t *T, so SchemaOpts, o HistOpts) hist.Case {
	s, mi := Type(t, so)
	return hist.Case{S: s, M: mi, Ops: Ops(t, s.Resolve(), mi, o)}
}
