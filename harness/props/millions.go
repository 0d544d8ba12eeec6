package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// Messages of up to four million fields. Reference parser and model take too long
// for these, so that what is expected is computed from the few fields that are
// repeated.

// MillionCase is an encoding of Head, N times Unit, and Tail, then some calls. If
// Build, the elements in Unit are appended N times instead, after Ops[:Mid].
type MillionCase struct {
	S     ref.Schema `json:"s"`
	M     int        `json:"m"`
	Head  []ref.Rec  `json:"head"`
	Unit  []ref.Rec  `json:"unit"`
	N     int        `json:"n"`
	Tail  []ref.Rec  `json:"tail"`
	Cut   int        `json:"cut"`
	Build bool       `json:"build"`
	Mid   int        `json:"mid"`
	Ops   []hist.Op  `json:"ops"`
}

func genMillion(build bool, pick func(f *ref.Field) bool) func(t *rapid.T) MillionCase {
	return func(t *rapid.T) MillionCase {
		c := MillionCase{Build: build}
		c.S, c.M = gen.Type(t, gen.DefaultSchema())
		s := c.S.Resolve()
		m := &s.Msgs[c.M]
		e := bulkOpts()
		e.MaxRecs, e.MaxBlob, e.Depth = 3, 3, 1
		var fs []*ref.Field
		for i := range m.F {
			f := &m.F[i]
			if (f.Rep || f.K != ref.Message) && pick(f) && (!build || f.Rep && f.K == ref.Message) {
				fs = append(fs, f)
			}
		}
		for k := gen.Of(t, 1, 1, 1, 2, 3); k > 0; k-- {
			if len(fs) > 0 && (build || gen.Pct(t, 80)) {
				c.Unit = append(c.Unit, gen.Rec(t, s, fs[gen.Int(t, 0, len(fs)-1)], e))
			} else if !build {
				c.Unit = append(c.Unit, gen.UnknownRec(t, m, e))
			}
		}
		n := len(ref.EncodeRecs(nil, c.Unit)) + 1
		c.N = gen.Near(t, 70000, 4300000, 4200000, 4200000, 2100000, 1<<17, 100000, 1<<18, 500000, 1<<20, 1000000, 1<<22, 4000000) + gen.Of(t, 0, 1, -1, 2, 5, 1000)
		max := 4300000
		if build {
			max = 1 << 21
		}
		for _, r := range c.Unit {
			if f := m.Field(r.N); f != nil && f.Rep && f.K == ref.Message {
				max = 2200000
				if s.Name != "" {
					max = 1100000 // by reflection
				}
			}
		}
		if max > 20000000/n {
			max = 20000000 / n
		}
		if c.N > max {
			c.N = max - gen.Int(t, 0, 20)
		}
		if !build {
			c.Head = dropSplits(m, gen.Recs(t, s, c.M, e))
			used := map[int]bool{}
			for _, r := range c.Head {
				used[r.N] = true
			}
			for _, r := range dropSplits(m, gen.Recs(t, s, c.M, e)) {
				if f := m.Field(r.N); f != nil && !f.Rep && f.K == ref.Message && used[r.N] {
					continue
				}
				c.Tail = append(c.Tail, r)
			}
		}
		c.Cut = gen.Of(t, 0, 1, 1, 2, 3)
		h := gen.DefaultHist()
		h.Enc, h.MaxBlob = e, 5
		ops := gen.Focus(t, m)
		for k := gen.Int(t, 0, 4); k > 0 && len(ops) > 0; k-- {
			f := ops[gen.Int(t, 0, len(ops)-1)]
			op := hist.Op{K: "set", F: f.N}
			if f.K != ref.Message {
				gen.SetArg(t, f, &op, h)
			} else {
				if op.K = "setm"; f.Rep {
					op.K = "app"
				}
				e := e
				e.Unknown, e.Pad, e.Dup, e.Wide = 0, false, false, false
				op.Recs = gen.Recs(t, s, f.M, e)
			}
			c.Ops = append(c.Ops, op)
		}
		c.Mid = gen.Int(t, 0, len(c.Ops))
		return c
	}
}

// runs are elements in order, times the number of times they are repeated.
type runs []struct {
	elems [][]byte
	n     int
}

func (r *runs) add(n int, elems ...[]byte) {
	if len(elems) > 0 && n > 0 {
		*r = append(*r, struct {
			elems [][]byte
			n     int
		}{elems, n})
	}
}

// each calls f for every element until it fails.
func (r runs) each(f func(i int, e []byte) error) error {
	i := 0
	for _, x := range r {
		for k := 0; k < x.n; k++ {
			for _, e := range x.elems {
				if err := f(i, e); err != nil {
					return err
				}
				i++
			}
		}
	}
	return nil
}

func (r runs) len() (n int) {
	for _, x := range r {
		n += x.n * len(x.elems)
	}
	return n
}

func runMillion(c *MillionCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) || c.N < 0 || c.N > 1<<23 || c.Mid > len(c.Ops) || c.Mid < 0 {
		return nil
	}
	m := &s.Msgs[c.M]
	x := tgt.New(s, c.M)
	st := ref.State{}
	reps := map[int]*runs{}
	for i := range m.F {
		if f := &m.F[i]; f.Rep && f.K == ref.Message {
			reps[f.N] = new(runs)
		}
	}
	note := func(recs []ref.Rec, n int) error {
		spans, err := ref.Parse(ref.EncodeRecs(nil, recs))
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		for n := range ref.Tainted(m, spans) {
			if m.Field(n).Accessible() {
				return fmt.Errorf("harness: another wire type")
			}
		}
		for k, v := range ref.StateOf(m, spans) {
			if r := reps[k]; r != nil {
				r.add(n, v.Elems...)
			} else if n > 0 {
				st[k] = v
			}
		}
		return nil
	}
	do := func(op *hist.Op) error {
		f := m.Field(op.F)
		if f == nil || !f.Accessible() {
			return nil
		}
		if f.K != ref.Message {
			v, want := hist.ValOf(f, op)
			x.Set(f, v)
			st[f.N] = want
			return nil
		}
		b := ref.EncodeRecs(nil, op.Recs)
		sub := tgt.New(s, f.M)
		if err := sub.Decode(append([]byte(nil), b...)); err != nil {
			return fmt.Errorf("Decode of a well-formed encoding failed: %v", err)
		}
		if f.Rep {
			x.Append(f, sub)
			reps[f.N].add(1, b)
		} else {
			x.SetMsg(f, sub)
			st[f.N] = ref.Val{B: b}
		}
		return nil
	}
	some := c.N*len(c.Unit) > 66000
	o.LabelIf(some && c.N >= 1000000, "a million times")
	o.LabelIf(c.N >= 4000000, "four million times")
	var all []byte
	if c.Build {
		for i := range c.Ops[:c.Mid] {
			if err := do(&c.Ops[i]); err != nil {
				return err
			}
		}
		type app struct {
			f   *ref.Field
			sub tgt.Target
		}
		var apps []app
		for _, r := range c.Unit {
			f := m.Field(r.N)
			if f == nil || !f.Rep || f.K != ref.Message {
				continue
			}
			b := r.Payload()
			sub := tgt.New(s, f.M)
			if sub.Decode(append([]byte(nil), b...)) != nil {
				return nil
			}
			apps = append(apps, app{f, sub})
		}
		for i := 0; i < c.N; i++ {
			for _, a := range apps {
				x.Append(a.f, a.sub)
			}
		}
		some = some && len(apps) > 0
		if err := note(c.Unit, c.N); err != nil {
			return err
		}
	} else {
		if c.N == 0 {
			return nil
		}
		for _, p := range []struct {
			recs []ref.Rec
			n    int
		}{{c.Head, 1}, {c.Unit, c.N}, {c.Tail, 1}} {
			if err := note(p.recs, p.n); err != nil {
				return err
			}
		}
		unit := ref.EncodeRecs(nil, c.Unit)
		all = ref.EncodeRecs(nil, c.Head)
		all = append(all, bytes.Repeat(unit, c.N)...)
		all = ref.EncodeRecs(all, c.Tail)
		if last := append(append([]ref.Rec{}, c.Unit...), c.Tail...); c.Cut > 0 && len(last) > 0 {
			r := last[len(last)-1]
			r.Times = 0
			if c.Cut < len(ref.EncodeRecs(nil, []ref.Rec{r})) {
				if err := x.Decode(append([]byte(nil), all[:len(all)-c.Cut]...)); err == nil {
					return fmt.Errorf("Decode accepted an encoding of %d bytes that was cut by %d, within its last field", len(all), c.Cut)
				}
			}
		}
		if err := x.Decode(append([]byte(nil), all...)); err != nil {
			return fmt.Errorf("Decode of a well-formed encoding of %d bytes failed: %v", len(all), err)
		}
		if !bytes.Equal(x.Encode(), all) {
			return fmt.Errorf("Encode does not return the %d bytes decoded", len(all))
		}
		if err := millionCheck(x, st, reps); err != nil {
			return err
		}
	}
	if some {
		o.NonTrivial()
	}
	ops := c.Ops
	if c.Build {
		ops = c.Ops[c.Mid:]
	}
	for i := range ops {
		if err := do(&ops[i]); err != nil {
			return err
		}
	}
	if c.Build || len(ops) > 0 {
		if err := millionCheck(x, st, reps); err != nil {
			return fmt.Errorf("after the calls: %w", err)
		}
		if err := millionBytes(x.Encode(), m, st, reps, c.Build); err != nil {
			return fmt.Errorf("Encode after the calls: %w", err)
		}
	}
	return nil
}

// millionCheck compares all accessors with what is expected.
func millionCheck(x tgt.Target, st ref.State, reps map[int]*runs) error {
	m := x.Desc()
	for i := range m.F {
		f := &m.F[i]
		if !f.Accessible() {
			continue
		}
		r := reps[f.N]
		if r == nil {
			if err := tgt.CheckField(x, f, st, ""); err != nil {
				return err
			}
			continue
		}
		it := x.Iter(f)
		sub := x.New(f.M)
		err := r.each(func(i int, e []byte) error {
			if ok, err := it.Next(sub); !ok || err != nil {
				return fmt.Errorf("%s[%d]: Next is %v, %v, want %d elements", f.Name, i, ok, err, r.len())
			}
			if !bytes.Equal(sub.Encode(), e) {
				return fmt.Errorf("%s[%d] is %s, want %s", f.Name, i, ref.Short(sub.Encode()), ref.Short(e))
			}
			return nil
		})
		if err != nil {
			return err
		}
		if ok, err := it.Next(sub); ok || err != nil {
			return fmt.Errorf("%s: Next after %d elements is %v, %v", f.Name, r.len(), ok, err)
		}
	}
	return nil
}

// millionBytes reads an encoding as the specification says; if canonical, each
// singular field may occur only once, and nothing else may.
func millionBytes(b []byte, m *ref.Msg, st ref.State, reps map[int]*runs, canonical bool) error {
	got := ref.State{}
	next := map[int]int{}
	var want = map[int][][]byte{}
	for n, r := range reps {
		es := make([][]byte, 0, r.len())
		r.each(func(_ int, e []byte) error { es = append(es, e); return nil })
		want[n] = es
	}
	for at := 0; at < len(b); {
		tag, k := binary.Uvarint(b[at:])
		if k <= 0 {
			return fmt.Errorf("malformed tag at %d of %d", at, len(b))
		}
		begin := at
		at += k
		var v ref.Val
		num, wt := tag>>3, int(tag&7)
		var u uint64
		switch wt {
		case 0:
			u, k = binary.Uvarint(b[at:])
		case 1:
			if k = 8; len(b)-at >= 8 {
				u = binary.LittleEndian.Uint64(b[at:])
			}
		case 5:
			if k = 4; len(b)-at >= 4 {
				u = uint64(binary.LittleEndian.Uint32(b[at:]))
			}
		case 2:
			u, k = binary.Uvarint(b[at:])
			if k <= 0 || u > uint64(len(b)-at-k) {
				return fmt.Errorf("malformed length at %d of %d", at, len(b))
			}
			at += k
			k = int(u)
			v.B = b[at : at+k]
		default:
			return fmt.Errorf("wire type %d at %d of %d", wt, begin, len(b))
		}
		if k < 0 || k == 0 && wt != 2 || k > len(b)-at {
			return fmt.Errorf("malformed value at %d of %d", at, len(b))
		}
		at += k
		var f *ref.Field
		if num <= ref.MaxFieldNumber {
			f = m.Field(int(num))
		}
		if f == nil || !f.Accessible() || f.K.WireType() != wt {
			if canonical {
				return fmt.Errorf("field %d of wire type %d at %d, which was not set", num, wt, begin)
			}
			continue
		}
		if f.Rep {
			i := next[f.N]
			if i >= len(want[f.N]) || !bytes.Equal(want[f.N][i], v.B) {
				return fmt.Errorf("%s[%d] at %d is %s, not the element appended (of %d)", f.Name, i, begin, ref.Short(v.B), len(want[f.N]))
			}
			next[f.N]++
			continue
		}
		if wt != 2 {
			v.U = ref.FromWire(f.K, u)
		}
		if _, ok := got[f.N]; ok && canonical {
			return fmt.Errorf("%s occurs twice, again at %d", f.Name, begin)
		}
		got[f.N] = v
	}
	for n, es := range want {
		if next[n] != len(es) {
			return fmt.Errorf("field %d has %d elements, want %d", n, next[n], len(es))
		}
	}
	if d := ref.DiffStates(got, st); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

func millionsPart(quick int, what string, build bool, pick func(f *ref.Field) bool) *eng.Part {
	return eng.NewPart("millions", quick, 35*quick, what+"; non-trivial: more than 66000 fields",
		genMillion(build, pick), runMillion)
}
