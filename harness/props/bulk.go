package props

import (
	"fmt"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
)

// Messages of thousands of fields: what goes wrong only at the 256th, 4 096th or
// 65 536th occurrence of something.

// bulkTimes draws how often a field of n bytes is repeated.
func bulkTimes(t *rapid.T, s *ref.Schema, m *ref.Msg, num, n int) int {
	k := gen.Near(t, 600, 100000, 2047, 4096, 8192, 16384, 32768, 65536, 999, 1000, 5000, 10000, 20000, 50000, 66000)
	max := 1500000 / (n + 1)
	if f := m.Field(num); f != nil && f.K == ref.Message {
		// Every accessor of every element is called, by reflection on golden types.
		per := 250000
		if s.Name != "" {
			per = 60000
		}
		if max > per/(len(s.Msgs[f.M].F)+1) {
			max = per / (len(s.Msgs[f.M].F) + 1)
		}
	}
	if k > max {
		k = max
	}
	return k + gen.Of(t, 0, 0, -1, 1, 2, -2, 7)
}

func bulkOpts() gen.Opts {
	o := gen.Default()
	o.Few, o.MaxRecs, o.Depth, o.MaxBlob = true, 6, 1, 8
	return o
}

// bulkRecs draws the fields of an encoding, one or two of them repeated thousands
// of times.
func bulkRecs(t *rapid.T, s *ref.Schema, mi int, o gen.Opts, pick func(f *ref.Field) bool) []ref.Rec {
	m := &s.Msgs[mi]
	recs := gen.Recs(t, s, mi, o)
	for k := gen.Of(t, 1, 1, 1, 2); k > 0; k-- {
		var ok []int
		for i, r := range recs {
			f := m.Field(r.N)
			if (f == nil || f.Rep || f.K != ref.Message) && pick(f) {
				ok = append(ok, i)
			}
		}
		var i int
		if len(ok) > 0 && gen.Pct(t, 70) {
			i = ok[gen.Int(t, 0, len(ok)-1)]
		} else {
			// One of a kind that was asked for.
			r := gen.UnknownRec(t, m, o)
			var fs []*ref.Field
			for j := range m.F {
				if f := &m.F[j]; (f.Rep || f.K != ref.Message) && pick(f) {
					fs = append(fs, f)
				}
			}
			if len(fs) > 0 && (!pick(nil) || gen.Pct(t, 50)) {
				r = gen.Rec(t, s, fs[gen.Int(t, 0, len(fs)-1)], o)
			}
			i = gen.Int(t, 0, len(recs))
			recs = append(recs[:i:i], append([]ref.Rec{r}, recs[i:]...)...)
		}
		r := &recs[i]
		r.Times = 0
		r.Times = bulkTimes(t, s, m, r.N, len(ref.EncodeRecs(nil, []ref.Rec{*r})))
	}
	return recs
}

func anyField(*ref.Field) bool { return true }

// bulkPart checks messages of thousands of fields against the model.
func bulkPart(quick int, what string, build bool, o func() gen.Opts, pick func(f *ref.Field) bool, after func(*gen.HistOpts)) *eng.Part {
	return eng.NewPart("bulk", quick, 35*quick, what+"; non-trivial: more than 999 fields",
		func(t *rapid.T) hist.Case {
			var c hist.Case
			c.S, c.M = gen.Type(t, gen.DefaultSchema())
			s := c.S.Resolve()
			m := &s.Msgs[c.M]
			h := gen.DefaultHist()
			h.Enc = o()
			h.Dec, h.Redec, h.Move, h.Reset, h.Reuse, h.SubDepth = 0, 8, 4, 0, 0, 1
			if after != nil {
				after(&h)
			}
			fs := gen.Focus(t, m)
			ops := func(max int) {
				c.Ops = append(c.Ops, gen.List(t, 0, max, func(t *rapid.T) hist.Op { return gen.Op(t, s, c.M, fs, h) })...)
			}
			if !build {
				c.Ops = append(c.Ops, hist.Op{K: "dec", Recs: dropSplits(m, bulkRecs(t, s, c.M, h.Enc, pick)), P: gen.Of(t, 0, 0, 7, 60), In: gen.InLast(t, h.In)})
				ops(4)
				return c
			}
			h.Redec, h.Move = 0, 0
			ops(5)
			var reps []*ref.Field
			for i := range m.F {
				if m.F[i].Rep && m.F[i].K == ref.Message {
					reps = append(reps, &m.F[i])
				}
			}
			for k := gen.Int(t, 1, 2); k > 0 && len(reps) > 0; k-- {
				op := hist.Op{K: "app", F: reps[gen.Int(t, 0, len(reps)-1)].N}
				f := m.Field(op.F)
				e := h.Enc
				e.MaxRecs, e.Unknown, e.Pad, e.Dup, e.Wide = 2, 0, false, false, false
				op.Recs = gen.Recs(t, s, f.M, e)
				op.Times = bulkTimes(t, s, m, op.F, len(ref.EncodeRecs(nil, op.Recs))+2)
				c.Ops = append(c.Ops, op)
				ops(3)
			}
			return c
		},
		func(c *hist.Case, o *eng.Obs) error {
			n := 0
			for _, op := range c.Ops {
				if op.Times > n {
					n = op.Times
				}
				for _, r := range op.Recs {
					if r.Times > n {
						n = r.Times
					}
				}
			}
			o.LabelIf(n >= 4096, "something 4096 times")
			o.LabelIf(n >= 65536, "something 65536 times")
			if n > 999 {
				o.NonTrivial()
			}
			st, err := hist.Run(c)
			histLabels(st, o)
			return err
		})
}

// ---- many different fields ----

// wideSchema has a message of dozens to hundreds of fields.
func wideSchema(t *rapid.T) ref.Schema {
	small := ref.Msg{Name: "M1", F: []ref.Field{{N: 1, K: ref.Uint32, Name: "f1"}, {N: 2, K: ref.Bytes, Name: "f2"}, {N: 3, K: ref.Message, M: 1, Rep: true, Name: "f3"}}}
	m := ref.Msg{Name: "M0"}
	n, from, by := gen.Near(t, 20, 700, 40, 64, 65, 100, 128, 129, 200, 256, 257, 300, 520, 600), gen.Of(t, 1, 1, 10, 100, 2000), gen.Of(t, 1, 1, 2, 7)
	for i := 0; i < n; i++ {
		f := ref.Field{N: from + i*by, K: ref.Kind(gen.Int(t, int(ref.Bool), int(ref.NumKinds)-1))}
		if f.K == ref.Message {
			f.M, f.Rep = 1, gen.Pct(t, 50)
		}
		f.Name = fmt.Sprintf("f%d", f.N)
		m.F = append(m.F, f)
	}
	return ref.Schema{Msgs: []ref.Msg{m, small}}
}

// widePart checks messages of hundreds of different fields against the model.
func widePart(quick int, what string, after func(*gen.HistOpts)) *eng.Part {
	return eng.NewPart("wide", quick, 35*quick, what+"; non-trivial: more than 39 fields present at once",
		func(t *rapid.T) hist.Case {
			c := hist.Case{S: wideSchema(t)}
			s := c.S.Resolve()
			m := &s.Msgs[0]
			h := gen.DefaultHist()
			h.Enc = bulkOpts()
			h.Dec, h.Redec, h.Move, h.Reset, h.Reuse, h.SubDepth = 1, 8, 4, 1, 1, 1
			h.Reach, h.ReachAt = 6, reachAt
			if after != nil {
				after(&h)
			}
			var all []*ref.Field
			for i := range m.F {
				all = append(all, &m.F[i])
			}
			if gen.Pct(t, 50) {
				// Any order, by one drawn number: a permutation by multiplication.
				k := gen.Of(t, -1, 7, 11, 13, 17, 19, 23)
				n := len(all)
				perm := make([]*ref.Field, 0, n)
				seen := map[int]bool{}
				for i, x := 0, 0; i < n; i++ {
					for seen[x] {
						x = (x + 1) % n
					}
					seen[x] = true
					perm = append(perm, all[x])
					x = ((x+k)%n + n) % n
				}
				all = perm
			}
			big := gen.Pct(t, 50)
			skip := gen.Of(t, 0, 0, 1, 3)
			if gen.Pct(t, 50) {
				var recs []ref.Rec
				if big {
					recs = append(recs, ref.Rec{N: m.Max() + gen.Int(t, 1, 9), WT: ref.WLen, Blob: ref.Blob{Fill: max(0, reachAt(t)-gen.Of(t, 0, 0, 300, 1000))}})
				}
				for i, f := range all {
					if skip == 0 || i%(skip+4) != 0 {
						recs = append(recs, gen.Rec(t, s, f, h.Enc))
					}
				}
				c.Ops = append(c.Ops, hist.Op{K: "dec", Recs: recs, P: gen.Of(t, 0, 0, 7, 60)})
			} else {
				one := h
				one.Dec, one.Redec, one.Move, one.Reset, one.Reuse, one.Reach, one.RMW, one.SubDepth = 0, 0, 0, 0, 0, 0, 0, 0
				for i, f := range all {
					if big && (f.K == ref.Bytes || f.K == ref.String) {
						c.Ops = append(c.Ops, hist.Op{K: "reach", F: f.N, P: reachAt(t)})
						big = false
					} else if skip == 0 || i%(skip+4) != 0 {
						c.Ops = append(c.Ops, gen.Op(t, s, 0, []*ref.Field{f}, one))
					}
				}
			}
			var fs []*ref.Field
			for k := 0; k < 6; k++ {
				fs = append(fs, all[gen.Int(t, 0, len(all)-1)])
			}
			c.Ops = append(c.Ops, gen.List(t, 1, 10, func(t *rapid.T) hist.Op { return gen.Op(t, s, 0, fs, h) })...)
			return c
		},
		func(c *hist.Case, o *eng.Obs) error {
			st, err := hist.Run(c)
			histLabels(st, o)
			n := len(c.Ops)
			if len(c.Ops) > 0 && len(c.Ops[0].Recs) > n {
				n = len(c.Ops[0].Recs)
			}
			o.LabelIf(n > 255, "more than 255 fields")
			if n > 39 {
				o.NonTrivial()
			}
			return err
		})
}

// longPart runs histories of hundreds of calls.
func longPart(quick int, what string, o func(*gen.HistOpts)) *eng.Part {
	return eng.NewPart("long", quick, 35*quick, what+"; non-trivial: more than 100 calls",
		func(t *rapid.T) hist.Case {
			var c hist.Case
			so := gen.DefaultSchema()
			so.MaxFields = 4
			c.S, c.M = gen.Type(t, so)
			s := c.S.Resolve()
			h := gen.DefaultHist()
			h.Enc = bulkOpts()
			h.Dec, h.Redec, h.Move, h.Reset, h.Reuse, h.App, h.SubDepth = 1, 1, 0, 0, 0, 4, 1
			if o != nil {
				o(&h)
			}
			fs := gen.Focus(t, &s.Msgs[c.M])
			n := gen.Near(t, 100, 1200, 120, 260, 300, 520, 1030)
			c.Ops = gen.List(t, n, n, func(t *rapid.T) hist.Op { return gen.Op(t, s, c.M, fs, h) })
			return c
		},
		func(c *hist.Case, o *eng.Obs) error {
			st, err := hist.Run(c)
			histLabels(st, o)
			o.LabelIf(len(c.Ops) > 256, "more than 256 calls")
			if len(c.Ops) > 100 {
				o.NonTrivial()
			}
			return err
		})
}

// apartPart has elements of a repeated field with thousands of other fields
// between them.
func apartPart(quick int, what string) *eng.Part {
	return eng.NewPart("apart", quick, 35*quick, what+"; non-trivial: more than 999 fields between two elements",
		func(t *rapid.T) hist.Case {
			var c hist.Case
			c.S, c.M = gen.Type(t, gen.DefaultSchema())
			s := c.S.Resolve()
			m := &s.Msgs[c.M]
			e := bulkOpts()
			var reps []*ref.Field
			for i := range m.F {
				if m.F[i].Rep && m.F[i].K == ref.Message {
					reps = append(reps, &m.F[i])
				}
			}
			if len(reps) == 0 {
				return c
			}
			f := reps[gen.Int(t, 0, len(reps)-1)]
			recs := gen.List(t, 0, 2, func(t *rapid.T) ref.Rec { return gen.UnknownRec(t, m, e) })
			total := 0
			for k := gen.Int(t, 1, 3); k > 0; k-- {
				recs = append(recs, gen.Rec(t, s, f, e))
				var fs []*ref.Field
				for i := range m.F {
					if g := &m.F[i]; g != f && g.K != ref.Message {
						fs = append(fs, g)
					}
				}
				r := gen.UnknownRec(t, m, e)
				if len(fs) > 0 && gen.Pct(t, 50) {
					r = gen.Rec(t, s, fs[gen.Int(t, 0, len(fs)-1)], e)
				}
				n := gen.Near(t, 900, 140000, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 100000, 131072) + gen.Of(t, 0, 0, -1, 1, -2)
				n = min(n, 150000-total, 1500000/(len(ref.EncodeRecs(nil, []ref.Rec{r}))+1))
				r.Times = max(n, 1)
				total += n
				recs = append(recs, r)
			}
			recs = append(recs, gen.Rec(t, s, f, e))
			c.Ops = append(c.Ops, hist.Op{K: "dec", Recs: dropSplits(m, recs), P: gen.Of(t, 0, 0, 7, 60)})
			h := gen.DefaultHist()
			h.Enc, h.Dec, h.Redec, h.Move, h.Reset, h.Reuse, h.App, h.SubDepth = e, 0, 8, 4, 0, 0, 40, 1
			c.Ops = append(c.Ops, gen.List(t, 0, 3, func(t *rapid.T) hist.Op { return gen.Op(t, s, c.M, gen.Focus(t, m), h) })...)
			return c
		},
		func(c *hist.Case, o *eng.Obs) error {
			for _, op := range c.Ops {
				for _, r := range op.Recs {
					o.LabelIf(r.Times > 65535, "more than 65535 fields between elements")
					if r.Times > 999 {
						o.NonTrivial()
					}
				}
			}
			st, err := hist.Run(c)
			histLabels(st, o)
			return err
		})
}
