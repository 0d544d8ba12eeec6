package tgt

import (
	"bytes"
	"fmt"

	"verif/harness/ref"
)

// FromState is the value of a scalar field in a state.
func scalarOf(f *ref.Field, v ref.Val) Val {
	switch f.K {
	case ref.String:
		return Val{Str: string(v.B)}
	case ref.Bytes:
		return Val{Byt: v.B}
	}
	return Val{U: v.U}
}

// SameScalar compares accessor results (nil and empty bytes are the same value).
func SameScalar(a, b Val) bool {
	return a.U == b.U && a.Str == b.Str && bytes.Equal(a.Byt, b.Byt)
}

func showVal(v Val) string {
	if v.Str != "" {
		return "string " + ref.Short([]byte(v.Str))
	}
	if v.Byt != nil {
		return "bytes " + ref.Short(v.Byt)
	}
	return fmt.Sprintf("%#x", v.U)
}

// Dirty makes a fresh message one that was used before: it held something, or
// had failed to decode something, which must not show when it is filled again.
func Dirty(t Target, how int) Target {
	how &= 3
	m := t.Desc()
	max := 0
	for i := range m.F {
		if n := m.F[i].N; n > max && n < 1<<16 {
			max = n
		}
	}
	// Making and clearing a message takes as long as its largest number.
	effort(1 + max/128)
	if how == 0 {
		return t
	}
	effort(len(m.F))
	var b []byte
	for i := range m.F {
		f := &m.F[i]
		u := uint64(1)
		p := []byte("\x08\x01")
		switch f.K {
		case ref.Float:
			u = 0x3f800000
		case ref.Double:
			u = 0x3ff0000000000000
		}
		if f.Accessible() {
			b = ref.AppendField(b, f.N, f.K, u, p)
		}
	}
	if how == 2 {
		// The end of a field is missing.
		b = append(b, 0x0a)
	}
	t.Decode(b)
	return t
}

// Reads, if not nil, measures the effort of the checks, about one per accessor
// compared. Checks that run concurrently must not use it: synchronising its
// updates would hide races.
var Reads *int

func effort(n int) {
	if Reads != nil {
		*Reads += n
	}
}

// CheckField compares one accessor with the expected state.
func CheckField(t Target, f *ref.Field, st ref.State, path string) error {
	if err := checkField(t, f, st); err != nil {
		return fmt.Errorf("%s%s(%s %d)%w", path, f.Name, f.K, f.N, err)
	}
	return nil
}

// checkField leaves it to its callers to say where the field is.
func checkField(t Target, f *ref.Field, st ref.State) error {
	v, present := st[f.N]
	switch {
	case f.K != ref.Message:
		want, got := scalarOf(f, v), t.Get(f)
		if !SameScalar(want, got) {
			return fmt.Errorf(": accessor returned %s, want %s", showVal(got), showVal(want))
		}
	case !f.Rep:
		sub := Dirty(t.New(f.M), len(v.B)+f.N)
		ok, err := t.GetMsg(f, sub)
		if ok != present {
			return fmt.Errorf(": embedded message present=%v, want %v", ok, present)
		}
		if !present {
			if err != nil {
				return fmt.Errorf(": absent, but error %v", err)
			}
			return nil
		}
		return CheckSub(sub, v.B, err, "")
	default:
		it := t.Iter(f)
		sub := Dirty(t.New(f.M), len(v.Elems)+f.N)
		for i, e := range v.Elems {
			ok, err := it.Next(sub)
			if !ok {
				return fmt.Errorf("[%d]: iteration ended (err=%v), want %d elements", i, err, len(v.Elems))
			}
			if err := CheckSub(sub, e, err, ""); err != nil {
				return fmt.Errorf("[%d]%w", i, err)
			}
		}
		for k := 0; k < 2; k++ {
			ok, err := it.Next(sub)
			if ok || err != nil {
				return fmt.Errorf(": Next after %d elements: %v, %v", len(v.Elems), ok, err)
			}
		}
	}
	return nil
}

// CheckSub checks an embedded message against the bytes it must have come from.
func CheckSub(sub Target, want []byte, err error, where string) error {
	spans, perr := ref.Parse(want)
	if Unspecified(spans) {
		return nil
	}
	if perr != nil {
		if err == nil {
			return fmt.Errorf("%s: embedded message is malformed (%v), but no error", where, perr)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: embedded message is well-formed, but error %v", where, err)
	}
	if got := sub.Encode(); !bytes.Equal(got, want) {
		return fmt.Errorf("%s: embedded message is %s, want %s", where, ref.Short(got), ref.Short(want))
	}
	if err := CheckSpans(sub, spans, ""); err != nil {
		return fmt.Errorf("%s.%w", where, err)
	}
	return nil
}

// CheckSpans compares all accessors with a parsed encoding, leaving out fields
// with a foreign wire type (a recorded finding, see DESIGN.md).
func CheckSpans(t Target, spans []ref.Span, path string) error {
	m := t.Desc()
	st := ref.StateOf(m, spans)
	taint := ref.Tainted(m, spans)
	return CheckState(t, st, taint, path)
}

// CheckState compares all accessors with a state.
func CheckState(t Target, st ref.State, skip map[int]bool, path string) error {
	m := t.Desc()
	effort(len(m.F))
	for i := range m.F {
		f := &m.F[i]
		if !f.Accessible() || skip[f.N] {
			continue
		}
		if err := CheckField(t, f, st, path); err != nil {
			return err
		}
	}
	return nil
}

// Unspecified reports whether an encoding contains field numbers outside the
// legal range, about which the properties say nothing.
func Unspecified(spans []ref.Span) bool {
	for _, s := range spans {
		if s.BigN == 0 || s.BigN > ref.MaxFieldNumber {
			return true
		}
	}
	return false
}

// CheckEncoding checks that the encoding of t is well-formed and means st.
func CheckEncoding(t Target, st ref.State, skip map[int]bool) error {
	enc := t.Encode()
	spans, err := ref.Parse(enc)
	if err != nil {
		return fmt.Errorf("Encode returned a malformed encoding: %v: %s", err, ref.Short(enc))
	}
	got := ref.StateOf(t.Desc(), spans)
	want := st
	if len(skip) > 0 {
		want = st.Clone()
		for n := range skip {
			delete(got, n)
			delete(want, n)
		}
	}
	if d := ref.DiffStates(got, want); d != "" {
		return fmt.Errorf("Encode's bytes mean something else than was set (got vs want): %s", d)
	}
	return nil
}
