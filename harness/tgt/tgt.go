// Package tgt drives the code under test through one interface: generated
// message types by reflection, and arbitrary schemas through the runtime's
// exported functions, called the way generated code calls them.
package tgt

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode"

	"github.com/danhhz/zeropb"
	"verif/harness/ref"
)

// Val is a scalar argument or result. Str and Byt are used for String and Bytes
// and are exactly what the accessor returned (views into the message).
type Val struct {
	U   uint64
	Str string
	Byt []byte
}

// Target is one message instance.
type Target interface {
	Decode([]byte) error
	Encode() []byte
	Reset([]byte)
	Get(f *ref.Field) Val
	Set(f *ref.Field, v Val)
	GetMsg(f *ref.Field, sub Target) (bool, error)
	SetMsg(f *ref.Field, sub Target)
	Iter(f *ref.Field) Iter
	Append(f *ref.Field, sub Target)
	// New makes a fresh message of message type mi of the same schema.
	New(mi int) Target
	Desc() *ref.Msg
	Schema() *ref.Schema
	MsgIndex() int
}

// Iter iterates a repeated message field.
type Iter interface {
	Next(sub Target) (bool, error)
}

// ---- runtime functions with an arbitrary schema ----

// RT is a message of an arbitrary schema.
type RT struct {
	sch *ref.Schema
	mi  int
	rep zeropb.RepeatedFields
	buf []byte
	A   []uint16
	M   map[int]uint64
}

// NewRT makes a fresh message of schema s, type mi.
func NewRT(s *ref.Schema, mi int) *RT {
	d := &s.Msgs[mi]
	r := &RT{sch: s, mi: mi, rep: zeropb.RepeatedFields{}, A: make([]uint16, d.Max()+1)}
	for _, f := range d.F {
		if f.Rep {
			r.rep[f.N] = struct{}{}
		}
	}
	return r
}

func (r *RT) off() zeropb.Offsets { return zeropb.WrapOffsets(r.A, &r.M) }
func (r *RT) New(mi int) Target   { return NewRT(r.sch, mi) }
func (r *RT) Desc() *ref.Msg      { return &r.sch.Msgs[r.mi] }
func (r *RT) Schema() *ref.Schema { return r.sch }
func (r *RT) MsgIndex() int       { return r.mi }
func (r *RT) Encode() []byte      { return r.buf }
func (r *RT) Decode(b []byte) error {
	r.buf = b
	return zeropb.Decode(r.buf, r.off(), r.rep)
}
func (r *RT) Reset(b []byte) {
	if len(b) > 0 {
		panic(`buf must be empty`)
	}
	r.buf = b
	r.off().Clear()
}

func (r *RT) Get(f *ref.Field) Val {
	b, o, n := r.buf, r.off(), f.N
	switch f.K {
	case ref.Bool:
		if zeropb.GetBool(b, o, n) {
			return Val{U: 1}
		}
		return Val{}
	case ref.Int32:
		return Val{U: uint64(int64(zeropb.GetInt32(b, o, n)))}
	case ref.Int64:
		return Val{U: uint64(zeropb.GetInt64(b, o, n))}
	case ref.Uint32, ref.Enum:
		return Val{U: uint64(zeropb.GetUint32(b, o, n))}
	case ref.Uint64:
		return Val{U: zeropb.GetUint64(b, o, n)}
	case ref.Sint32:
		return Val{U: uint64(int64(zeropb.GetZigZagInt32(b, o, n)))}
	case ref.Sint64:
		return Val{U: uint64(zeropb.GetZigZagInt64(b, o, n))}
	case ref.Fixed32:
		return Val{U: uint64(zeropb.GetFixedUint32(b, o, n))}
	case ref.Fixed64:
		return Val{U: zeropb.GetFixedUint64(b, o, n)}
	case ref.Sfixed32:
		return Val{U: uint64(int64(zeropb.GetFixedInt32(b, o, n)))}
	case ref.Sfixed64:
		return Val{U: uint64(zeropb.GetFixedInt64(b, o, n))}
	case ref.Double:
		return Val{U: math.Float64bits(zeropb.GetFloat64(b, o, n))}
	case ref.Float:
		return Val{U: uint64(math.Float32bits(zeropb.GetFloat32(b, o, n)))}
	case ref.String:
		return Val{Str: zeropb.GetString(b, o, n)}
	case ref.Bytes:
		return Val{Byt: zeropb.GetBytes(b, o, n)}
	}
	panic("tgt: Get of " + f.K.String())
}

func (r *RT) Set(f *ref.Field, v Val) {
	b, o, n := &r.buf, r.off(), f.N
	switch f.K {
	case ref.Bool:
		zeropb.SetBool(b, o, n, v.U != 0)
	case ref.Int32:
		zeropb.SetInt32(b, o, n, int32(v.U))
	case ref.Int64:
		zeropb.SetInt64(b, o, n, int64(v.U))
	case ref.Uint32, ref.Enum:
		zeropb.SetUint32(b, o, n, uint32(v.U))
	case ref.Uint64:
		zeropb.SetUint64(b, o, n, v.U)
	case ref.Sint32:
		zeropb.SetZigZagInt32(b, o, n, int32(v.U))
	case ref.Sint64:
		zeropb.SetZigZagInt64(b, o, n, int64(v.U))
	case ref.Fixed32:
		zeropb.SetFixedUint32(b, o, n, uint32(v.U))
	case ref.Fixed64:
		zeropb.SetFixedUint64(b, o, n, v.U)
	case ref.Sfixed32:
		zeropb.SetFixedInt32(b, o, n, int32(v.U))
	case ref.Sfixed64:
		zeropb.SetFixedInt64(b, o, n, int64(v.U))
	case ref.Double:
		zeropb.SetFloat64(b, o, n, math.Float64frombits(v.U))
	case ref.Float:
		zeropb.SetFloat32(b, o, n, math.Float32frombits(uint32(v.U)))
	case ref.String:
		zeropb.SetString(b, o, n, v.Str)
	case ref.Bytes:
		zeropb.SetBytes(b, o, n, v.Byt)
	default:
		panic("tgt: Set of " + f.K.String())
	}
}

func (r *RT) GetMsg(f *ref.Field, sub Target) (bool, error) {
	buf := zeropb.GetBytes(r.buf, r.off(), f.N)
	if buf == nil {
		return false, nil
	}
	return true, sub.Decode(buf)
}

func (r *RT) SetMsg(f *ref.Field, sub Target) {
	zeropb.SetBytes(&r.buf, r.off(), f.N, sub.Encode())
}

func (r *RT) Append(f *ref.Field, sub Target) {
	zeropb.AppendBytes(&r.buf, r.off(), f.N, sub.Encode())
}

type rtIter struct {
	b []byte
	n int
}

func (r *RT) Iter(f *ref.Field) Iter {
	return &rtIter{b: zeropb.GetRepeatedNonPacked(r.buf, r.off(), f.N), n: f.N}
}

func (i *rtIter) Next(sub Target) (bool, error) {
	var buf []byte
	i.b, buf = zeropb.FindNextField(i.b, i.n)
	if buf == nil {
		return false, nil
	}
	return true, sub.Decode(buf)
}

// ---- generated types, by reflection ----

// Registry makes a pointer to a zero message of each type, by name.
type Registry map[string]func() interface{}

type fieldMethods struct {
	get, set int // getter / iterator accessor, setter / append
	ok       bool
}

type typeInfo struct {
	rt     reflect.Type
	enc    int
	dec    int
	rst    int
	fields map[int]fieldMethods
	nexts  map[int]int // field -> method index of Next on the pointer to the iterator type
}

// Lib is a generated package bound to its schema.
type Lib struct {
	Sch   *ref.Schema
	reg   Registry
	types []*typeInfo
}

// GoCase is the accessor name README documents: methods named after the field.
func GoCase(s string) string {
	var b strings.Builder
	up := true
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			up = true
			continue
		}
		if up {
			r = unicode.ToTitle(r)
			up = false
		}
		b.WriteRune(r)
	}
	return b.String()
}

var goTypes = map[ref.Kind]reflect.Kind{ref.Bool: reflect.Bool, ref.Int32: reflect.Int32, ref.Int64: reflect.Int64,
	ref.Uint32: reflect.Uint32, ref.Uint64: reflect.Uint64, ref.Sint32: reflect.Int32, ref.Sint64: reflect.Int64,
	ref.Fixed32: reflect.Uint32, ref.Fixed64: reflect.Uint64, ref.Sfixed32: reflect.Int32, ref.Sfixed64: reflect.Int64,
	ref.Double: reflect.Float64, ref.Float: reflect.Float32, ref.String: reflect.String, ref.Bytes: reflect.Slice, ref.Enum: reflect.Uint32}

// NewLib binds a registry to a schema. It returns an error naming the first
// accessor that is missing or has the wrong signature.
func NewLib(s *ref.Schema, reg Registry) (*Lib, error) {
	l := &Lib{Sch: s, reg: reg}
	for mi := range s.Msgs {
		m := &s.Msgs[mi]
		mk := reg[m.Name]
		if mk == nil {
			return nil, fmt.Errorf("message %s: no type", m.Name)
		}
		t := reflect.TypeOf(mk())
		ti := &typeInfo{rt: t, fields: map[int]fieldMethods{}, nexts: map[int]int{}}
		idx := func(name string) int {
			if me, ok := t.MethodByName(name); ok {
				return me.Index
			}
			return -1
		}
		ti.enc, ti.dec, ti.rst = idx("Encode"), idx("Decode"), idx("Reset")
		if ti.enc < 0 || ti.dec < 0 || ti.rst < 0 {
			return nil, fmt.Errorf("message %s: Encode, Decode or Reset missing", m.Name)
		}
		claimed := map[string]bool{"Encode": true, "Decode": true, "Reset": true}
		for fi := range m.F {
			f := &m.F[fi]
			if !f.Accessible() {
				continue
			}
			name := GoCase(f.Name)
			if name == "" || unicode.IsDigit(rune(name[0])) {
				name = "X" + name
			}
			var fm fieldMethods
			for try := 0; try < 2*len(m.F)+6; try++ {
				mut := "Set" + name
				if f.Rep {
					mut = "AppendTo" + name
				}
				g, s := idx(name), idx(mut)
				if g >= 0 && s >= 0 && !claimed[name] && !claimed[mut] {
					nx, err := sigOK(l, s, t, f, g)
					if err == nil {
						fm = fieldMethods{get: g, set: s, ok: true}
						claimed[name], claimed[mut] = true, true
						if f.Rep {
							ti.nexts[f.N] = nx
						}
						break
					}
				}
				name += "_"
			}
			if !fm.ok {
				return nil, fmt.Errorf("message %s field %s (%s): accessors missing or of the wrong type", m.Name, f.Name, f.K)
			}
			ti.fields[f.N] = fm
		}
		l.types = append(l.types, ti)
	}
	return l, nil
}

func sigOK(l *Lib, set int, t reflect.Type, f *ref.Field, get int) (next int, err error) {
	bad := fmt.Errorf("bad signature")
	gt, st := t.Method(get).Type, t.Method(set).Type
	if f.K != ref.Message {
		if gt.NumIn() != 1 || gt.NumOut() != 1 || st.NumIn() != 2 || st.NumOut() != 0 {
			return 0, bad
		}
		if gt.Out(0).Kind() != goTypes[f.K] || st.In(1).Kind() != goTypes[f.K] {
			return 0, bad
		}
		if f.K == ref.Bytes && gt.Out(0).Elem().Kind() != reflect.Uint8 {
			return 0, bad
		}
		return 0, nil
	}
	sub := reflect.TypeOf(l.reg[l.Sch.Msgs[f.M].Name]())
	if st.NumIn() != 2 || st.NumOut() != 0 || st.In(1) != sub.Elem() {
		return 0, bad
	}
	if !f.Rep {
		if gt.NumIn() != 2 || gt.In(1) != sub || gt.NumOut() != 2 || gt.Out(0).Kind() != reflect.Bool {
			return 0, bad
		}
		return 0, nil
	}
	if gt.NumIn() != 1 || gt.NumOut() != 1 {
		return 0, bad
	}
	nm, ok := reflect.PtrTo(gt.Out(0)).MethodByName("Next")
	if !ok || nm.Type.NumIn() != 2 || nm.Type.In(1) != sub || nm.Type.NumOut() != 2 {
		return 0, bad
	}
	return nm.Index, nil
}

// Refl is a message of a generated type.
type Refl struct {
	l  *Lib
	mi int
	p  reflect.Value
}

// New makes a fresh message of type mi.
func (l *Lib) New(mi int) *Refl {
	return &Refl{l: l, mi: mi, p: reflect.ValueOf(l.reg[l.Sch.Msgs[mi].Name]())}
}

func (r *Refl) New(mi int) Target   { return r.l.New(mi) }
func (r *Refl) Desc() *ref.Msg      { return &r.l.Sch.Msgs[r.mi] }
func (r *Refl) Schema() *ref.Schema { return r.l.Sch }
func (r *Refl) MsgIndex() int       { return r.mi }
func (r *Refl) ti() *typeInfo       { return r.l.types[r.mi] }

// Ptr is the message itself.
func (r *Refl) Ptr() interface{} { return r.p.Interface() }

func (r *Refl) Encode() []byte { return r.p.Method(r.ti().enc).Call(nil)[0].Bytes() }
func (r *Refl) Decode(b []byte) error {
	return asErr(r.p.Method(r.ti().dec).Call([]reflect.Value{reflect.ValueOf(b)})[0])
}
func (r *Refl) Reset(b []byte) { r.p.Method(r.ti().rst).Call([]reflect.Value{reflect.ValueOf(b)}) }

func asErr(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func (r *Refl) Get(f *ref.Field) Val {
	v := r.p.Method(r.ti().fields[f.N].get).Call(nil)[0]
	switch f.K {
	case ref.Bool:
		if v.Bool() {
			return Val{U: 1}
		}
		return Val{}
	case ref.Int32, ref.Int64, ref.Sint32, ref.Sint64, ref.Sfixed32, ref.Sfixed64:
		return Val{U: uint64(v.Int())}
	case ref.Uint32, ref.Uint64, ref.Fixed32, ref.Fixed64, ref.Enum:
		return Val{U: v.Uint()}
	case ref.Double:
		return Val{U: math.Float64bits(v.Float())}
	case ref.Float:
		// Not v.Float(): converting a NaN to float64 and back may change its bits.
		return Val{U: uint64(math.Float32bits(v.Interface().(float32)))}
	case ref.String:
		return Val{Str: v.String()}
	case ref.Bytes:
		return Val{Byt: v.Bytes()}
	}
	panic("tgt: Get of " + f.K.String())
}

func (r *Refl) Set(f *ref.Field, v Val) {
	var x interface{}
	switch f.K {
	case ref.Bool:
		x = v.U != 0
	case ref.Int32, ref.Sint32, ref.Sfixed32:
		x = int32(v.U)
	case ref.Int64, ref.Sint64, ref.Sfixed64:
		x = int64(v.U)
	case ref.Uint32, ref.Fixed32, ref.Enum:
		x = uint32(v.U)
	case ref.Uint64, ref.Fixed64:
		x = v.U
	case ref.Double:
		x = math.Float64frombits(v.U)
	case ref.Float:
		x = math.Float32frombits(uint32(v.U))
	case ref.String:
		x = v.Str
	case ref.Bytes:
		x = v.Byt
	default:
		panic("tgt: Set of " + f.K.String())
	}
	r.p.Method(r.ti().fields[f.N].set).Call([]reflect.Value{reflect.ValueOf(x)})
}

func (r *Refl) GetMsg(f *ref.Field, sub Target) (bool, error) {
	out := r.p.Method(r.ti().fields[f.N].get).Call([]reflect.Value{sub.(*Refl).p})
	return out[0].Bool(), asErr(out[1])
}

func (r *Refl) SetMsg(f *ref.Field, sub Target) {
	r.p.Method(r.ti().fields[f.N].set).Call([]reflect.Value{sub.(*Refl).p.Elem()})
}

func (r *Refl) Append(f *ref.Field, sub Target) {
	r.p.Method(r.ti().fields[f.N].set).Call([]reflect.Value{sub.(*Refl).p.Elem()})
}

type reflIter struct {
	p    reflect.Value
	next int
}

func (r *Refl) Iter(f *ref.Field) Iter {
	v := r.p.Method(r.ti().fields[f.N].get).Call(nil)[0]
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return &reflIter{p: p, next: r.ti().nexts[f.N]}
}

func (i *reflIter) Next(sub Target) (bool, error) {
	out := i.p.Method(i.next).Call([]reflect.Value{sub.(*Refl).p})
	return out[0].Bool(), asErr(out[1])
}
