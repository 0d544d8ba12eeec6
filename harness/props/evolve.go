package props

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// ---- C23: schema evolution ----

// EvolveCase is a message written with schema A, read and changed with schema B,
// and read again with A.
type EvolveCase struct {
	A    ref.Schema `json:"a"`
	B    ref.Schema `json:"b"`
	M    int        `json:"m"`
	OpsA []hist.Op  `json:"opsa"`
	OpsB []hist.Op  `json:"opsb"`
}

// Groups of kinds among which a field may change; within a group a value written
// with one kind has a defined meaning for another.
var evolveGroups = [][]ref.Kind{
	{ref.Int32, ref.Uint32, ref.Int64, ref.Uint64, ref.Bool, ref.Enum},
	{ref.Fixed32, ref.Sfixed32},
	{ref.Fixed64, ref.Sfixed64},
	{ref.String, ref.Bytes},
	{ref.Bytes, ref.Message},
}

// evolve draws a compatible schema.
func evolve(t *rapid.T, a *ref.Schema) ref.Schema {
	var b ref.Schema
	for _, am := range a.Msgs {
		m := ref.Msg{Name: am.Name}
		for _, f := range am.F {
			if gen.Pct(t, 18) {
				continue // removed
			}
			if gen.Pct(t, 40) {
				var ks []ref.Kind
				for _, g := range evolveGroups {
					for _, k := range g {
						if k == f.K {
							ks = append(ks, g...)
						}
					}
				}
				switch {
				case f.Rep && f.K == ref.Message && gen.Pct(t, 50):
					f.Rep = false
				case !f.Rep && f.K == ref.Message && gen.Pct(t, 50):
					f.Rep = true
				case f.Rep && f.K == ref.Message:
					// stays as it is: repeated bytes have no accessors
				case len(ks) > 0 && !f.Rep:
					f.K = gen.Of(t, ks...)
				}
				if f.K == ref.Message && (f.M >= len(a.Msgs) || gen.Pct(t, 10)) {
					f.M = gen.Int(t, 0, len(a.Msgs)-1)
				}
			}
			m.F = append(m.F, f)
		}
		for k := gen.Of(t, 0, 0, 1, 2); k > 0; k-- {
			f := ref.Field{K: ref.Kind(gen.Int(t, 0, int(ref.NumKinds)-1)), N: gen.UnknownNum(t, &am, nil) % 3000}
			for f.N == 0 || am.Field(f.N) != nil || m.Field(f.N) != nil {
				f.N++
			}
			if f.K == ref.Message {
				f.Rep, f.M = gen.Pct(t, 50), gen.Int(t, 0, len(a.Msgs)-1)
			}
			f.Name = fmt.Sprintf("new%d", f.N)
			m.F = append(m.F, f)
		}
		if gen.Pct(t, 30) && len(m.F) > 1 {
			// Declared in another order.
			for i := len(m.F) - 1; i > 0; i-- {
				j := gen.Int(t, 0, i)
				m.F[i], m.F[j] = m.F[j], m.F[i]
			}
		}
		b.Msgs = append(b.Msgs, m)
	}
	return b
}

func genEvolve(t *rapid.T) EvolveCase {
	var c EvolveCase
	c.A, c.M = gen.Type(t, gen.DefaultSchema())
	a := c.A.Resolve()
	c.B = evolve(t, a)
	h := gen.DefaultHist()
	h.MaxOps = 10
	h.Dec = 8
	if gen.Pct(t, 4) {
		h.Reach, h.ReachAt = 12, reachAt
	}
	c.OpsA = gen.Ops(t, a, c.M, h)
	h.MaxOps = 5
	h.Dec, h.Reset, h.Reuse = 0, 0, 0
	if len(c.B.Msgs[c.M].F) > 0 {
		c.OpsB = gen.Ops(t, &c.B, c.M, h)
	}
	return c
}

// splits reports whether a singular embedded message of s occurs more than once
// somewhere in b, which is unsupported.
func splits(s *ref.Schema, mi int, b []byte) bool {
	spans, err := ref.Parse(b)
	if err != nil {
		return false
	}
	m := &s.Msgs[mi]
	seen := map[int]bool{}
	for i := range spans {
		sp := &spans[i]
		if sp.BigN > ref.MaxFieldNumber || sp.WT != ref.WLen {
			continue
		}
		f := m.Field(sp.N)
		if f == nil || f.K != ref.Message {
			continue
		}
		if !f.Rep && seen[f.N] || splits(s, f.M, sp.Payload) {
			return true
		}
		seen[f.N] = true
	}
	return false
}

// changed reports whether f means something else, or nothing, in m.
func changed(f *ref.Field, m *ref.Msg) bool {
	g := m.Field(f.N)
	return g == nil || g.K != f.K || g.Rep != f.Rep || g.K == ref.Message && g.M != f.M
}

func runEvolve(c *EvolveCase, o *eng.Obs) error {
	a, b := c.A.Resolve(), &c.B
	if c.M >= len(a.Msgs) || len(b.Msgs) != len(a.Msgs) {
		return nil
	}
	w := hist.New(a, c.M)
	for i := range c.OpsA {
		if err := w.Apply(&c.OpsA[i]); err != nil {
			return fmt.Errorf("writing, step %d (%s field %d): %w", i, c.OpsA[i].K, c.OpsA[i].F, err)
		}
	}
	if err := w.Check(); err != nil {
		return fmt.Errorf("written: %w", err)
	}
	enc := append([]byte{}, w.T.Encode()...)
	spans, err := ref.Parse(enc)
	if err != nil {
		return fmt.Errorf("written: %v", err)
	}
	if splits(b, c.M, enc) {
		o.Label("discarded: split embedded message")
		return nil
	}
	ma, mb := &a.Msgs[c.M], &b.Msgs[c.M]
	diff := 0
	for i := range spans {
		if f := ma.Field(spans[i].N); f != nil {
			g := mb.Field(f.N)
			if changed(f, mb) {
				diff++
			}
			o.LabelIf(g == nil, "field removed")
			o.LabelIf(g != nil && g.K != f.K, "type changed")
			o.LabelIf(g != nil && g.Rep != f.Rep, "label changed")
		}
	}
	if diff > 0 && len(spans) > 1 {
		o.NonTrivial()
	}
	r := hist.New(b, c.M)
	if err := r.Decode(enc, 0); err != nil {
		return fmt.Errorf("reading with the other schema: %w", err)
	}
	if err := r.Check(); err != nil {
		return fmt.Errorf("reading with the other schema: %w", err)
	}
	for i := range c.OpsB {
		if err := r.Step(&c.OpsB[i]); err != nil {
			return fmt.Errorf("writing with the other schema, step %d (%s field %d): %w", i, c.OpsB[i].K, c.OpsB[i].F, err)
		}
	}
	// And back. Fields the other schema lacks are not looked at (preserving them
	// is not promised), nor those whose encoding changed beyond compatibility.
	enc = append([]byte{}, r.T.Encode()...)
	spans, err = ref.Parse(enc)
	if err != nil {
		return fmt.Errorf("written with the other schema: %v", err)
	}
	if splits(a, c.M, enc) {
		o.Label("not read back: split embedded message")
		return nil
	}
	back := tgt.New(a, c.M)
	if err := back.Decode(enc); err != nil {
		return fmt.Errorf("reading back: Decode: %v", err)
	}
	skip := ref.Tainted(ma, spans)
	if skip == nil {
		skip = map[int]bool{}
	}
	for i := range ma.F {
		if mb.Field(ma.F[i].N) == nil {
			skip[ma.F[i].N] = true
		}
	}
	if err := tgt.CheckState(back, ref.StateOf(ma, spans), skip, ""); err != nil {
		return fmt.Errorf("reading back: %w", err)
	}
	// Fields whose type and label stayed the same hold what was last written.
	for i := range ma.F {
		f := &ma.F[i]
		if !f.Accessible() || skip[f.N] || r.Skip[f.N] || changed(f, mb) {
			continue
		}
		if f.K == ref.Message {
			continue // the embedded type may have changed: covered by the bytes
		}
		if err := tgt.CheckField(back, f, r.St, ""); err != nil {
			return fmt.Errorf("reading back what the other schema wrote: %w", err)
		}
	}
	o.LabelIf(len(c.OpsB) > 0, "changed with the other schema")
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C23", Parts: []*eng.Part{
		eng.NewPart("evolve", 360000, 4200000, "a message written with one schema, read and changed with a compatible other one (fields removed, added, renumbered order, retyped within wire-compatible groups, singular and repeated embedded messages exchanged), read back with the first; non-trivial: at least one of several fields present differs between the schemas",
			genEvolve, runEvolve),
	}, Assumptions: []string{"only type changes whose result the specification defines: sint32/sint64, float/double and changes between groups are left out", "fields unknown to the second schema are not looked at after it wrote"}})
}
