package props

import (
	"bytes"
	"fmt"
	"unsafe"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

func histLabels(st *hist.Stats, o *eng.Obs) {
	o.LabelIf(st.Overwrites > 0, "overwrote a present field")
	o.LabelIf(st.Appends > 1, "several appends")
	o.LabelIf(st.Decodes > 1, "decoded")
	o.LabelIf(st.Resets > 0, "reset")
	o.LabelIf(st.Subs > 0, "embedded message set or appended")
	o.LabelIf(st.Aliases > 0, "aliased")
	o.LabelIf(st.RMW > 0, "embedded message modified and set back")
	o.LabelIf(st.Same > 0, "decoded from the same buffer as before")
	o.LabelIf(st.Reaches > 0, "steered to a length")
	o.LabelIf(st.MaxLen > 1<<16, "grew beyond 64 KiB")
	o.LabelIf(st.Crossings > 1, "crossed 64 KiB several times")
	o.LabelIf(st.MaxLen > 127, "longer than 127 bytes")
}

func histPart(name string, quick, thorough int, rule string, so func() gen.SchemaOpts, ho func(t *rapid.T) gen.HistOpts, nontr func(st *hist.Stats) bool, opts ...eng.Opt) *eng.Part {
	return eng.NewPart(name, quick, thorough, rule,
		func(t *rapid.T) hist.Case { return gen.Hist(t, so(), ho(t)) },
		func(c *hist.Case, o *eng.Obs) error {
			st, err := hist.Run(c)
			histLabels(st, o)
			o.Label("schema " + name2(&c.S))
			if nontr(st) {
				o.NonTrivial()
			}
			return err
		}, opts...)
}

// overPart starts from an encoding that holds most of the focused fields.
func overPart(name string, quick, thorough int, rule string, ho func(t *rapid.T) gen.HistOpts, nontr func(st *hist.Stats) bool) *eng.Part {
	return eng.NewPart(name, quick, thorough, rule,
		func(t *rapid.T) hist.Case {
			var c hist.Case
			c.S, c.M = gen.Type(t, gen.FarSchema())
			s := c.S.Resolve()
			m := &s.Msgs[c.M]
			h := ho(t)
			fs := gen.Focus(t, m)
			var recs []ref.Rec
			for _, f := range fs {
				if gen.Pct(t, 20) {
					recs = append(recs, gen.UnknownRec(t, m, h.Enc))
				}
				for k := gen.Of(t, 1, 1, 1, 0, 1, 1, 1, 2); k > 0; k-- {
					recs = append(recs, gen.Rec(t, s, f, h.Enc))
				}
			}
			c.Ops = append(c.Ops, hist.Op{K: "dec", Recs: dropSplits(m, recs), P: gen.Of(t, 0, 0, 7, 60)})
			c.Ops = append(c.Ops, gen.List(t, 1, h.MaxOps, func(t *rapid.T) hist.Op { return gen.Op(t, s, c.M, fs, h) })...)
			return c
		},
		func(c *hist.Case, o *eng.Obs) error {
			st, err := hist.Run(c)
			histLabels(st, o)
			o.Label("schema " + name2(&c.S))
			if nontr(st) {
				o.NonTrivial()
			}
			return err
		})
}

func name2(s *ref.Schema) string { return name(s) }

// ---- C08: sizes around 64 KiB ----

func reachAt(t *rapid.T) int {
	switch gen.Int(t, 0, 3) {
	case 0:
		return gen.Int(t, 65525, 65545)
	case 1:
		return gen.Of(t, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540)
	case 2:
		return gen.Near(t, 1, 300000, 131070, 131072, 65536+126, 65536+128, 200000, 100, 40000)
	default:
		return 65536 + gen.Int(t, -39, 39)
	}
}

func bigHist(t *rapid.T) gen.HistOpts {
	o := gen.DefaultHist()
	o.MaxOps = 9
	o.Enc.MaxRecs = 5
	o.Enc.Depth = 2
	o.Set, o.Reach, o.SetM, o.App, o.Redec, o.Move, o.Reuse, o.Reset, o.Dec = 34, 30, 8, 14, 8, 4, 2, 1, 3
	o.ReachAt = reachAt
	o.In = 25
	o.Big, o.Enc.Big = 0, 0
	if gen.Pct(t, 15) {
		o.Enc.Big = gen.Of(t, 66000, 140000)
	}
	return o
}

// BigCase is a decoded message whose fields lie around 64 KiB, and a history.
type BigCase struct {
	S   ref.Schema `json:"s"`
	M   int        `json:"m"`
	A   []ref.Rec  `json:"a"`
	Pad int        `json:"pad"` // length to reach with filler
	F   int        `json:"f"`   // field number of the filler
	B   []ref.Rec  `json:"b"`
	Ops []hist.Op  `json:"ops"`
}

func genBig(t *rapid.T) BigCase {
	var c BigCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	m := &s.Msgs[c.M]
	e := gen.Default()
	e.MaxRecs, e.Depth = 4, 2
	c.A = gen.Recs(t, s, c.M, e)
	c.B = gen.Recs(t, s, c.M, e)
	if gen.Pct(t, 50) {
		c.F = gen.UnknownNum(t, m, nil)
	} else {
		for _, f := range m.F {
			if f.K == ref.Bytes || f.K == ref.String {
				c.F = f.N
			}
		}
		if c.F == 0 {
			c.F = gen.UnknownNum(t, m, nil)
		}
	}
	c.Pad = reachAt(t)
	h := gen.DefaultHist()
	h.MaxOps = 6
	h.Enc = e
	h.Reach, h.ReachAt = 14, reachAt
	h.Redec, h.Move, h.Dec = 5, 3, 1
	c.Ops = gen.Ops(t, s, c.M, h)
	return c
}

func dropSplits(m *ref.Msg, recs []ref.Rec) []ref.Rec {
	used := map[int]bool{}
	var out []ref.Rec
	for _, r := range recs {
		if f := m.Field(r.N); f != nil && !f.Rep && f.K == ref.Message {
			if used[r.N] {
				continue
			}
			used[r.N] = true
		}
		out = append(out, r)
	}
	return out
}

func runBig(c *BigCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	a := ref.EncodeRecs(nil, c.A)
	recs := append([]ref.Rec{}, c.A...)
	if c.F > 0 {
		if n := c.Pad - len(a) - 4; n > 0 {
			// The tag and length are 2 to 8 bytes; exactness comes from the spread.
			recs = append(recs, ref.Rec{N: c.F, WT: ref.WLen, Blob: ref.Blob{Fill: n - len(ref.AppendTag(nil, c.F, 2, 0)) + 1, A: true}})
			if recs[len(recs)-1].Fill < 0 {
				recs[len(recs)-1].Fill = 0
			}
		}
	}
	recs = append(recs, c.B...)
	recs = dropSplits(&s.Msgs[c.M], recs)
	m := hist.New(s, c.M)
	b := ref.EncodeRecs(nil, recs)
	o.LabelIf(len(b) > 1<<16, "decoded more than 64 KiB")
	if err := m.Decode(b, 0); err != nil {
		return err
	}
	if err := m.Check(); err != nil {
		return fmt.Errorf("after decoding %d bytes: %w", len(b), err)
	}
	for i := range c.Ops {
		if err := m.Step(&c.Ops[i]); err != nil {
			return fmt.Errorf("step %d (%s field %d): %w", i, c.Ops[i].K, c.Ops[i].F, err)
		}
	}
	histLabels(&m.Stats, o)
	if len(b) > 65500 {
		o.NonTrivial()
	}
	return nil
}

// ---- C09: reuse ----

// ReuseCase is a message used, reset or decoded into, and used again, beside a
// fresh one.
type ReuseCase struct {
	S      ref.Schema `json:"s"`
	M      int        `json:"m"`
	Prefix []hist.Op  `json:"prefix"`
	Turn   hist.Op    `json:"turn"`
	Suffix []hist.Op  `json:"suffix"`
}

func genReuse(t *rapid.T) ReuseCase {
	var c ReuseCase
	c.S, c.M = gen.Type(t, gen.FarSchema())
	s := c.S.Resolve()
	h := gen.DefaultHist()
	h.MaxOps, h.Enc.MaxRecs = 8, 6
	h.Set, h.Dec, h.BadDec, h.Iter, h.Redec, h.Move, h.Reset, h.Reuse = 30, 14, 10, 4, 2, 0, 4, 6
	h.In = 30
	if gen.Pct(t, 30) {
		h.Reach, h.ReachAt = 12, reachAt
		h.MaxOps = 6
		if gen.Pct(t, 50) {
			h.Enc.Big = 70000
		}
	}
	c.Prefix = gen.Ops(t, s, c.M, h)
	e := gen.Default()
	switch gen.Int(t, 0, 3) {
	case 0:
		c.Turn = hist.Op{K: "reset", P: gen.Of(t, 0, 0, 1, 16, 300)}
	case 1:
		c.Turn = hist.Op{K: "reuse"}
	default:
		c.Turn = hist.Op{K: "dec", P: gen.Of(t, 0, 1, 50), Recs: gen.Recs(t, s, c.M, e), In: gen.InLast(t, 50)}
	}
	h = gen.DefaultHist()
	h.MaxOps, h.In = 7, 30
	h.Dec, h.Redec, h.Move, h.Reset, h.Reuse = 2, 0, 0, 1, 1
	if gen.Pct(t, 15) {
		h.Reach, h.ReachAt = 12, reachAt
	}
	c.Suffix = gen.Ops(t, s, c.M, h)
	return c
}

func runReuse(c *ReuseCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	used, fresh := hist.New(s, c.M), hist.New(s, c.M)
	for i := range c.Prefix {
		if err := used.Step(&c.Prefix[i]); err != nil {
			return fmt.Errorf("before: step %d (%s field %d): %w", i, c.Prefix[i].K, c.Prefix[i].F, err)
		}
		o.LabelIf(c.Prefix[i].K == "baddec", "malformed decode before")
	}
	histLabels(&used.Stats, o)
	if used.Stats.Sets+used.Stats.Appends+used.Stats.Decodes > 0 || used.St == nil {
		o.NonTrivial()
	}
	o.Label("turn " + c.Turn.K)
	o.LabelIf(c.Turn.In > 0 && used.InLen > 0, "decoded from the same buffer as before")
	o.LabelIf(c.Turn.In > 0 && used.InLen > 65536, "decoded from the same buffer of more than 64 KiB")
	fresh.InLen = used.InLen
	if len(used.T.Encode()) > 0 {
		// Reset refuses a buffer with contents.
		if !panics(func() { used.T.New(c.M).Reset([]byte{8}) }) {
			return fmt.Errorf("Reset with a non-empty buffer did not panic")
		}
		if !panics(func() { used.T.New(c.M).Reset(used.T.Encode()) }) {
			return fmt.Errorf("Reset with the message's own contents did not panic")
		}
	}
	if err := used.Apply(&c.Turn); err != nil {
		return fmt.Errorf("%s: %w", c.Turn.K, err)
	}
	if err := fresh.Apply(&c.Turn); err != nil {
		return fmt.Errorf("%s of a fresh message: %w", c.Turn.K, err)
	}
	if c.Turn.K != "dec" && len(used.T.Encode()) != 0 {
		return fmt.Errorf("after Reset, Encode returns %d bytes", len(used.T.Encode()))
	}
	for i := -1; i < len(c.Suffix); i++ {
		if i >= 0 {
			op := &c.Suffix[i]
			fresh.InLen = used.InLen
			if err := used.Apply(op); err != nil {
				return fmt.Errorf("step %d (%s field %d) on the reused message: %w", i, op.K, op.F, err)
			}
			if err := fresh.Apply(op); err != nil {
				return fmt.Errorf("step %d (%s field %d) on the fresh message: %w", i, op.K, op.F, err)
			}
		}
		if !bytes.Equal(used.T.Encode(), fresh.T.Encode()) {
			return fmt.Errorf("after step %d the reused message encodes to %s, the fresh one to %s", i, ref.Short(used.T.Encode()), ref.Short(fresh.T.Encode()))
		}
		if err := used.Check(); err != nil {
			return fmt.Errorf("after step %d, reused message: %w", i, err)
		}
		if err := fresh.Check(); err != nil {
			return fmt.Errorf("after step %d, fresh message: %w", i, err)
		}
	}
	return nil
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// ---- C06: iterators ----

// IterOp is start, next, app, set, or read.
type IterOp struct {
	K string `json:"k"`
	F int    `json:"f"`
	// Slot of the iterator.
	I  int     `json:"i,omitempty"`
	Op hist.Op `json:"op,omitempty"`
}

// IterCase is a decoded or built message and a script of interleaved iterations.
type IterCase struct {
	S   ref.Schema `json:"s"`
	M   int        `json:"m"`
	Dec []ref.Rec  `json:"dec"`
	Ops []IterOp   `json:"ops"`
}

func genIterSchema(t *rapid.T) ref.Schema {
	n := gen.Int(t, 1, 3)
	var s ref.Schema
	for i := 0; i < n; i++ {
		m := ref.Msg{Name: fmt.Sprintf("M%d", i)}
		num := func() int {
			k := gen.Near(t, 1, 3000, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 33, 129, 2047, 2048)
			for m.Field(k) != nil {
				k++
			}
			return k
		}
		for k := gen.Int(t, 1, 4); k > 0; k-- {
			m.F = append(m.F, ref.Field{N: num(), K: ref.Message, M: gen.Int(t, 0, n-1), Rep: true})
		}
		for k := gen.Int(t, 0, 3); k > 0; k-- {
			f := ref.Field{N: num(), K: gen.Of(t, ref.Bytes, ref.String, ref.Uint64, ref.Fixed32, ref.Double, ref.Sint32, ref.Message, ref.Bytes)}
			if f.K == ref.Message {
				f.M = gen.Int(t, 0, n-1)
			} else {
				f.Rep = gen.Pct(t, 30)
			}
			m.F = append(m.F, f)
		}
		for j := range m.F {
			m.F[j].Name = fmt.Sprintf("f%d", m.F[j].N)
		}
		s.Msgs = append(s.Msgs, m)
	}
	return s
}

func genIter(t *rapid.T) IterCase {
	var c IterCase
	switch gen.Int(t, 0, 6) {
	case 0, 1:
		c.S = ref.Schema{Name: "test"}
	case 2:
		c.S = ref.Schema{Name: "raft"}
	case 3:
		c.S, c.M = gen.Fresh(t)
		// Only types that have something to iterate.
		reps := 0
		for _, f := range c.S.Resolve().Msgs[c.M].F {
			if f.Rep && f.K == ref.Message {
				reps++
			}
		}
		if reps == 0 {
			c.S, c.M = ref.Schema{Name: "fresh0"}, 0
		}
	default:
		c.S = genIterSchema(t)
	}
	s := c.S.Resolve()
	m := &s.Msgs[c.M]
	e := gen.Default()
	e.Depth, e.MaxRecs, e.MaxBlob, e.Bad = 2, 12, 12, 8
	var reps, others []*ref.Field
	for i := range m.F {
		if m.F[i].Rep && m.F[i].K == ref.Message {
			reps = append(reps, &m.F[i])
		} else if m.F[i].Accessible() {
			others = append(others, &m.F[i])
		}
	}
	if len(reps) == 0 {
		return c
	}
	if gen.Pct(t, 80) {
		c.Dec = gen.List(t, 0, 14, func(t *rapid.T) ref.Rec {
			if gen.Pct(t, 55) {
				o := e
				o.MaxRecs = 3
				return gen.Rec(t, s, reps[gen.Int(t, 0, len(reps)-1)], o)
			}
			if gen.Pct(t, 25) {
				return gen.UnknownRec(t, m, e)
			}
			return gen.Rec(t, s, &m.F[gen.Int(t, 0, len(m.F)-1)], e)
		})
		c.Dec = dropSplits(m, c.Dec)
		if gen.Pct(t, 3) {
			c.Dec = gen.Far(t, m, c.Dec)
		}
	}
	h := gen.DefaultHist()
	h.MaxOps = 4
	c.Ops = gen.List(t, 1, 24, func(t *rapid.T) IterOp {
		var op IterOp
		f := reps[gen.Int(t, 0, len(reps)-1)]
		op.F = f.N
		switch x := gen.Int(t, 0, 19); {
		case x < 11:
			op.K = "next"
			op.I = gen.Int(t, 0, 3)
		case x < 15:
			op.K = "start"
			op.I = gen.Int(t, 0, 3)
		case x < 18:
			op.K = "app"
			op.Op = hist.Op{K: "app", F: f.N}
			if gen.Pct(t, 70) {
				eo := e
				eo.MaxRecs = 3
				op.Op.Recs = gen.Recs(t, s, f.M, eo)
			}
		case x < 19 && len(others) > 0:
			g := others[gen.Int(t, 0, len(others)-1)]
			op.K, op.F = "set", g.N
			op.Op = gen.Op(t, s, c.M, []*ref.Field{g}, gen.HistOpts{Set: 1, SetM: 1, Enc: e, MaxBlob: 20})
		default:
			op.K = "check"
		}
		return op
	})
	return c
}

type slot struct {
	it   tgt.Iter
	f    *ref.Field
	el   [][]byte // elements at the start
	pos  int
	dead bool
	more bool // appended to since
	end  bool
	sub  tgt.Target
}

func runIter(c *IterCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	m := hist.New(s, c.M)
	if c.Dec != nil {
		if err := m.Decode(ref.EncodeRecs(nil, c.Dec), 0); err != nil {
			return err
		}
	}
	slots := map[int]*slot{}
	nexts, elems := 0, 0
	for i, op := range c.Ops {
		if x := slots[op.I]; op.K == "next" && (x == nil || x.dead) {
			op.K = "start"
		}
		switch op.K {
		case "start":
			f := m.Field(op.F)
			if f == nil || !f.Rep || m.Skip[op.F] {
				continue
			}
			live := 0
			for _, x := range slots {
				if !x.dead && !x.end {
					live++
				}
			}
			o.LabelIf(live > 0, "interleaved iterations")
			slots[op.I] = &slot{it: m.T.Iter(f), f: f, el: m.St[f.N].Elems, sub: m.T.New(f.M)}
		case "next":
			x := slots[op.I]
			if x == nil || x.dead {
				continue
			}
			nexts++
			ok, err := x.it.Next(x.sub)
			where := fmt.Sprintf("step %d: iterator %d of field %d, element %d", i, op.I, x.f.N, x.pos)
			switch {
			case x.pos < len(x.el):
				if !ok {
					return fmt.Errorf("%s: iteration ended (%v), %d elements expected", where, err, len(x.el))
				}
				elems++
				if err := tgt.CheckSub(x.sub, x.el[x.pos], err, where); err != nil {
					return err
				}
				x.pos++
				x.end = x.pos == len(x.el)
			case x.more:
				// Whether elements appended later show up is not specified.
				x.dead = true
			case ok || err != nil:
				return fmt.Errorf("%s: got %v, %v, want the end", where, ok, err)
			default:
				o.Label("end reported")
			}
		case "app":
			if err := m.Apply(&op.Op); err != nil {
				return err
			}
			for _, x := range slots {
				if !x.dead && op.Op.F == x.f.N {
					x.more = true
					o.Label("appended during an iteration")
				}
			}
		case "set":
			if err := m.Apply(&op.Op); err != nil {
				return err
			}
			// A setter moves the fields behind the old value: iterators end here.
			for _, x := range slots {
				x.dead = true
			}
		case "check":
			if err := m.Check(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
	}
	if elems >= 2 {
		o.NonTrivial()
	}
	o.LabelIf(c.Dec == nil, "built")
	return m.Check()
}

// ---- C12: reading ----

// ReadOp reads field F (or, with F 0, calls Encode; -1 decodes again).
type ReadCase struct {
	S    ref.Schema `json:"s"`
	M    int        `json:"m"`
	Recs []ref.Rec  `json:"recs"`
	// Cut the encoding short, to look at failed decodes too.
	Cut int `json:"cut,omitempty"`
	// Bad is put behind it, to the same end.
	Bad   []byte `json:"bad,omitempty"`
	Spare int    `json:"spare,omitempty"`
	Reads []int  `json:"reads"`
}

func genRead(t *rapid.T) ReadCase {
	var c ReadCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	e := gen.Default()
	e.Bad = 8
	if gen.Pct(t, 3) {
		e.Big = 80000
	}
	c.Recs = gen.Recs(t, s, c.M, e)
	if gen.Pct(t, 3) {
		c.Recs = gen.Far(t, &s.Msgs[c.M], c.Recs)
	}
	c.Spare = gen.Of(t, 0, 0, 3, 30)
	if gen.Pct(t, 15) {
		c.Cut = gen.Int(t, 1, 9)
	}
	if gen.Pct(t, 6) {
		c.Bad = badTail(t)
	}
	fs := s.Msgs[c.M].F
	c.Reads = gen.List(t, 1, 16, func(t *rapid.T) int {
		if len(fs) == 0 || gen.Pct(t, 20) {
			return gen.Int(t, -1, 0)
		}
		return fs[gen.Int(t, 0, len(fs)-1)].N
	})
	return c
}

// digest reads one field completely.
func digest(t tgt.Target, f *ref.Field, depth int) (d []byte) {
	switch {
	case f.K != ref.Message:
		v := t.Get(f)
		return fmt.Appendf(nil, "%x/%s/%x", v.U, v.Str, v.Byt)
	case !f.Rep:
		sub := t.New(f.M)
		ok, err := t.GetMsg(f, sub)
		d = fmt.Appendf(d, "%v,%v", ok, err != nil)
		if ok && err == nil {
			d = append(d, digestAll(sub, depth-1)...)
		}
	default:
		it, sub := t.Iter(f), t.New(f.M)
		for i := 0; i < 1<<20; i++ {
			ok, err := it.Next(sub)
			d = fmt.Appendf(d, "[%v,%v", ok, err != nil)
			if !ok {
				break
			}
			if err == nil {
				d = append(d, digestAll(sub, depth-1)...)
			}
			d = append(d, ']')
		}
	}
	return d
}

func digestAll(t tgt.Target, depth int) (d []byte) {
	d = fmt.Appendf(nil, "{%x", t.Encode())
	if depth < 0 {
		return append(d, '}')
	}
	spans, _ := ref.Parse(t.Encode())
	taint := ref.Tainted(t.Desc(), spans)
	for i := range t.Desc().F {
		f := &t.Desc().F[i]
		if f.Accessible() && !taint[f.N] {
			d = append(d, ' ')
			d = append(d, digest(t, f, depth)...)
		}
	}
	return append(d, '}')
}

func runRead(c *ReadCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	b := ref.EncodeRecs(nil, c.Recs)
	if c.Cut > 0 {
		if c.Cut > len(b) {
			return nil
		}
		b = b[:len(b)-c.Cut]
	}
	b = append(b, c.Bad...)
	// The encoding lies between guard zones, spare capacity included.
	const zone = 24
	back := hist.Spare(make([]byte, zone), len(b)+c.Spare+zone)
	back = back[:cap(back)]
	for i := range back[:zone] {
		back[i] = 0xc3
	}
	copy(back[zone:], b)
	orig := append([]byte{}, back...)
	buf := back[zone : zone+len(b) : zone+len(b)+c.Spare]
	t := tgt.New(s, c.M)
	err := t.Decode(buf)
	if !bytes.Equal(back, orig) {
		return fmt.Errorf("Decode modified its input")
	}
	if err == nil && !bytes.Equal(t.Encode(), b) {
		return fmt.Errorf("Encode of an unmodified message returns %s, it was decoded from %s", ref.Short(t.Encode()), ref.Short(b))
	}
	spans, perr := ref.Parse(b)
	if err != nil || perr != nil {
		o.Label("malformed")
		return nil
	}
	taint := ref.Tainted(t.Desc(), spans)
	first := map[int][]byte{}
	again := 0
	for i, n := range c.Reads {
		switch n {
		case 0:
			if !bytes.Equal(t.Encode(), b) {
				return fmt.Errorf("read %d: Encode returns %s, the message was decoded from %s", i, ref.Short(t.Encode()), ref.Short(b))
			}
			continue
		case -1:
			if err := t.Decode(buf); err != nil {
				return fmt.Errorf("read %d: decoding again: %v", i, err)
			}
			continue
		}
		f := t.Desc().Field(n)
		if f == nil || !f.Accessible() || taint[n] {
			continue
		}
		d := digest(t, f, 3)
		if old, ok := first[n]; !ok {
			first[n] = d
			if err := tgt.CheckField(t, f, ref.StateOf(t.Desc(), spans), ""); err != nil {
				return fmt.Errorf("read %d: %w", i, err)
			}
		} else if again++; !bytes.Equal(old, d) {
			return fmt.Errorf("read %d of field %d differs from the first: %s vs %s", i, n, ref.Short(d), ref.Short(old))
		}
		if !bytes.Equal(back, orig) {
			return fmt.Errorf("reading field %d modified the encoding or what surrounds it", n)
		}
	}
	if again > 0 && len(spans) > 1 {
		o.NonTrivial()
	}
	if err := tgt.CheckSpans(t, spans, ""); err != nil {
		return err
	}
	if !bytes.Equal(back, orig) {
		return fmt.Errorf("reading modified the encoding or what surrounds it")
	}
	return nil
}

// CopyCase is a history whose arguments are watched and scribbled over.
type CopyCase struct {
	hist.Case
	// Spare capacity of the message's buffer (-1: it has none) and of byte
	// arguments.
	Spare int `json:"spare"`
	Arg   int `json:"arg"`
	// SubMut changes the embedded message given afterwards.
	SubMut []hist.Op `json:"submut,omitempty"`
}

func genCopy(t *rapid.T) CopyCase {
	h := gen.DefaultHist()
	h.Reset, h.Reuse, h.Redec, h.Move = 0, 0, 0, 0
	h.MaxOps = 8
	h.SetM, h.App = 20, 24
	h.Dec = 5
	if gen.Pct(t, 5) {
		h.Enc.Big, h.Big = 70000, 70000
	}
	var c CopyCase
	c.Case = gen.Hist(t, gen.DefaultSchema(), h)
	c.Spare = gen.Of(t, -1, -1, 0, 1, 40, 400)
	c.Arg = gen.Of(t, 0, 1, 20, 300)
	if gen.Pct(t, 50) {
		s := c.S.Resolve()
		c.SubMut = gen.Ops(t, s, gen.Int(t, 0, len(s.Msgs)-1), gen.HistOpts{MaxOps: 3, Set: 1, Enc: gen.Default(), MaxBlob: 20})
	}
	return c
}

// guarded puts b between guard zones.
func guarded(b []byte, spare int) (arg, back, orig []byte) {
	const zone = 16
	back = make([]byte, zone+len(b)+spare+zone)
	for i := range back {
		back[i] = 0x3c ^ byte(i)
	}
	copy(back[zone:], b)
	return back[zone : zone+len(b) : zone+len(b)+spare], back, append([]byte{}, back...)
}

func runCopy(c *CopyCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	m := hist.New(s, c.M)
	if c.Spare >= 0 {
		m.T.Reset(hist.Spare(nil, c.Spare))
	}
	n := 0
	for i := range c.Ops {
		op := &c.Ops[i]
		f := m.Field(op.F)
		where := fmt.Sprintf("step %d (%s field %d)", i, op.K, op.F)
		switch {
		case op.K == "dec":
			if err := m.Decode(ref.EncodeRecs(nil, op.Recs), max(c.Spare, 0)); err != nil {
				return err
			}
			continue
		case f == nil || m.Skip[op.F]:
			continue
		case op.K == "set" && (f.K == ref.Bytes || f.K == ref.String):
			_, v := hist.ValOf(f, op)
			arg, back, orig := guarded(v.B, c.Arg)
			if f.K == ref.Bytes {
				m.T.Set(f, tgt.Val{Byt: arg})
			} else {
				m.T.Set(f, tgt.Val{Str: unsafe.String(unsafe.SliceData(arg), len(arg))})
			}
			if !bytes.Equal(back, orig) {
				return fmt.Errorf("%s: the setter modified its argument or what surrounds it", where)
			}
			for k := range back {
				back[k] = 0x99
			}
			m.St[f.N] = v
			n++
		case (op.K == "setm" || op.K == "app") && f.K == ref.Message && f.Rep == (op.K == "app"):
			sub, enc, err := m.Sub(f, op)
			if err != nil {
				return err
			}
			// Give the embedded message a guarded buffer.
			arg, back, orig := guarded(enc, c.Arg)
			if err := sub.Decode(arg); err != nil {
				return err
			}
			before := digestAll(sub, 3)
			if f.Rep {
				m.T.Append(f, sub)
				v := m.St[f.N]
				v.Elems = append(v.Elems[:len(v.Elems):len(v.Elems)], enc)
				m.St[f.N] = v
			} else {
				m.T.SetMsg(f, sub)
				m.St[f.N] = ref.Val{B: enc}
			}
			if !bytes.Equal(back, orig) || !bytes.Equal(digestAll(sub, 3), before) {
				return fmt.Errorf("%s: the embedded message given was modified", where)
			}
			if len(c.SubMut) > 0 {
				spans, _ := ref.Parse(enc)
				x := &hist.M{T: sub, St: ref.StateOf(sub.Desc(), spans), Skip: ref.Tainted(sub.Desc(), spans)}
				for k := range c.SubMut {
					if err := x.Step(&c.SubMut[k]); err != nil {
						return fmt.Errorf("%s: changing the embedded message given: %w", where, err)
					}
				}
				if err := m.Check(); err != nil {
					return fmt.Errorf("%s: after changing the embedded message given: %w", where, err)
				}
				o.Label("embedded message changed afterwards")
			}
			for k := range back {
				back[k] = 0x99
			}
			n++
		default:
			if err := m.Apply(op); err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
		}
		if err := m.Check(); err != nil {
			return fmt.Errorf("%s, after the argument's memory was overwritten: %w", where, err)
		}
	}
	if n > 0 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	dflt := gen.DefaultSchema
	eng.Register(&eng.Prop{ID: "C02", Parts: []*eng.Part{
		histPart("build", 200000, 7000000, "histories of setters and appends on an empty message, after every step (every few for long ones) the encoding is compared with the canonical one field by field; non-trivial: at least 3 writes", dflt,
			func(t *rapid.T) gen.HistOpts {
				h := gen.DefaultHist()
				h.Dec, h.Redec, h.Move = 0, 0, 0
				h.MaxOps = gen.Of(t, 6, 14, 30)
				if gen.Pct(t, 9) {
					h.MaxOps = 8
					h.Reach, h.ReachAt = 12, reachAt
				}
				return h
			},
			func(st *hist.Stats) bool { return st.Sets+st.Appends >= 3 }),
		millionsPart(40, "histories in which elements are appended up to two million times", true, anyField),
		bulkPart(800, "histories in which an element is appended thousands of times, on an empty message, compared likewise", true, bulkOpts, anyField, nil),
		longPart(1600, "histories of 120 to 1 030 calls, compared likewise", func(h *gen.HistOpts) { h.Dec, h.Redec = 0, 0 }),
	}})
	eng.Register(&eng.Prop{ID: "C03", Parts: []*eng.Part{
		histPart("history", 84000, 2940000, "histories of Decode (padded, unordered, duplicated, with unknown fields), setters and appends; after every step every accessor, and what Encode's bytes mean, are compared with the model; non-trivial: a present field was overwritten, or a decode was followed by a write", dflt,
			func(t *rapid.T) gen.HistOpts {
				h := gen.DefaultHist()
				h.MaxOps = gen.Of(t, 5, 14, 24)
				h.Enc.MaxRecs = 8
				h.In = 25
				if gen.Pct(t, 2) {
					h.MaxOps = 6
					h.Reach, h.ReachAt = 16, reachAt
				}
				return h
			},
			func(st *hist.Stats) bool { return st.Overwrites > 0 || st.Decodes > 1 && st.Sets > 0 }),
		overPart("overwrite", 84000, 2940000, "an encoding holding every focused field, then setters overwriting them; non-trivial: at least 2 overwrites",
			func(t *rapid.T) gen.HistOpts {
				h := gen.DefaultHist()
				h.Dec, h.Reset, h.Reuse, h.Redec, h.Move = 0, 0, 0, 3, 3
				h.MaxOps = 10
				return h
			},
			func(st *hist.Stats) bool { return st.Overwrites >= 2 }),
		millionsPart(40, "encodings in which some fields are repeated 70000 to 4300000 times, then a few calls", false, anyField),
		bulkPart(800, "encodings in which a field or two are repeated thousands of times, then a few calls", false, bulkOpts, anyField, func(h *gen.HistOpts) { h.Set, h.App = 60, 30 }),
		widePart(1600, "messages with 40 to 600 different fields present, before and beyond 64 KiB, then a few calls", func(h *gen.HistOpts) { h.Set = 80 }),
		longPart(1600, "histories of 120 to 1 030 calls on one message", nil),
	}})
	eng.Register(&eng.Prop{ID: "C06", Parts: []*eng.Part{
		eng.NewPart("iterate", 180000, 6300000, "scripts of interleaved iterations (several at once, over several repeated fields), appends, setters on decoded or built messages; non-trivial: at least 2 elements reached",
			genIter, runIter),
		millionsPart(40, "encodings in which elements are repeated 70000 to 2200000 times, iterated completely, then a few calls", false, func(f *ref.Field) bool { return f != nil && f.Rep && f.K == ref.Message }),
		bulkPart(800, "encodings in which a repeated field or two occur thousands of times, iterated completely", false, bulkOpts, func(f *ref.Field) bool { return f != nil && f.Rep && f.K == ref.Message }, func(h *gen.HistOpts) { h.App, h.Set = 60, 10 }),
		apartPart(1200, "encodings in which thousands of other fields lie between the elements of a repeated field, iterated completely, then a few calls"),
	}, Assumptions: []string{"an iterator is not used after a setter was called on its message (setters move bytes)", "whether an iterator started before an append reaches the appended elements is left open"}})
	eng.Register(&eng.Prop{ID: "C08", Parts: []*eng.Part{
		histPart("grow", 80000, 1400000, "histories steering the message's length to exact values around 64 KiB; non-trivial: grew beyond 64 KiB", dflt, bigHist,
			func(st *hist.Stats) bool { return st.MaxLen > 1<<16 }),
		eng.NewPart("decode", 80000, 1400000, "encodings whose fields lie around the 64 KiB mark, then a history; non-trivial: longer than 65500 bytes",
			genBig, runBig),
		widePart(1600, "messages with 40 to 600 different fields present, most of them around and beyond 64 KiB, then a few calls", func(h *gen.HistOpts) { h.Reach = 30 }),
		histPart("mega", 400, 14000, "histories steering the message's length to values around 2 MiB, 4 MiB and 16 MiB; non-trivial: grew beyond 1 MiB", dflt,
			func(t *rapid.T) gen.HistOpts {
				h := bigHist(t)
				h.MaxOps, h.Enc.Big = 5, 0
				h.ReachAt = func(t *rapid.T) int {
					switch gen.Int(t, 0, 3) {
					case 0:
						return 1<<21 + gen.Int(t, -12, 12)
					case 1:
						return 1<<22 + gen.Int(t, -12, 12)
					case 2:
						return gen.Of(t, 100, 65540, 200000, 1<<20, 3<<20)
					default:
						return 1<<24 + gen.Int(t, -12, 12)
					}
				}
				return h
			},
			func(st *hist.Stats) bool { return st.MaxLen > 1<<20 }),
		eng.NewPart("huge", 8000, 280000, "encodings with one to three contents of 2 MiB to 5 GiB each (known or unknown fields, elements, embedded messages; in memory that is never touched) among ordinary fields: decoded, cut short, read, then setters and appends behind them; non-trivial: at least one other field",
			genHuge, runHuge),
	}})
	eng.Register(&eng.Prop{ID: "C09", Parts: []*eng.Part{
		eng.NewPart("reuse", 240000, 4200000, "a used message (grown, failed decodes, beyond 64 KiB) is reset or decoded into, then goes through a history beside a fresh twin: same bytes, same reads, after every step; non-trivial: it held something or a decode had failed",
			genReuse, runReuse),
		bulkPart(800, "messages of thousands of fields decoded, written, reset, and used again", false, bulkOpts, anyField, func(h *gen.HistOpts) {
			h.Reset, h.Reuse, h.Dec, h.Redec, h.Move = 30, 30, 30, 10, 0
			h.In = 40
		}),
		widePart(1600, "messages with 40 to 600 different fields present, before and beyond 64 KiB, reset and used again", func(h *gen.HistOpts) {
			h.Reset, h.Reuse, h.Dec, h.Redec, h.Move = 20, 20, 30, 4, 0
			h.In = 40
		}),
		longPart(1600, "histories of 120 to 1 030 calls, decodes and resets of one message", func(h *gen.HistOpts) { h.Reset, h.Reuse, h.Dec, h.BadDec, h.In = 4, 4, 6, 2, 40 }),
	}})
	bad := gen.Default()
	bad.Bad = 30
	bulkBad := func() gen.Opts { o := bulkOpts(); o.Bad, o.Depth = 25, 2; return o }
	eng.Register(&eng.Prop{ID: "C10", Parts: []*eng.Part{
		eng.NewPart("embedded", 300000, 10500000, "encodings with absent, empty, valid and malformed embedded messages and elements at any depth; non-trivial: at least one malformed and one other embedded message",
			func(t *rapid.T) WireCase { return genNested(t, bad) },
			func(c *WireCase, o *eng.Obs) error {
				err := runWire(c, o)
				return err
			}),
		histPart("history", 100000, 3500000, "histories that set, append, read, modify and set back embedded messages, some malformed deeper down; non-trivial: at least 2 embedded messages built", dflt,
			func(t *rapid.T) gen.HistOpts {
				h := gen.DefaultHist()
				h.Enc.Bad = 25
				h.SetM, h.App, h.RMW, h.Set, h.Down, h.MaxOps = 30, 30, 10, 20, 8, 10
				return h
			},
			func(st *hist.Stats) bool { return st.Subs >= 2 }),
		eng.NewPart("deep", 24000, 840000, "chains of up to 490 nested messages through all message fields of recursive types, read level by level and built from the inside out; non-trivial: at least 5 levels",
			genDeep, runDeep),
		bulkPart(800, "encodings in which an embedded message or two, well-formed or not, are repeated thousands of times", false, bulkBad, func(f *ref.Field) bool { return f != nil && f.K == ref.Message }, nil),
	}})
	eng.Register(&eng.Prop{ID: "C12", Parts: []*eng.Part{
		eng.NewPart("read", 480000, 8400000, "repeated and reordered reads of a decoded message lying between guard zones; non-trivial: a field read more than once",
			genRead, runRead),
		eng.NewPart("copy", 360000, 6300000, "setters and appends given arguments between guard zones, overwritten afterwards; non-trivial: at least one such argument",
			genCopy, runCopy),
	}})
	eng.Register(&eng.Prop{ID: "C13", Parts: []*eng.Part{
		overPart("alias", 175000, 6125000, "an encoding holding some fields, then steps with values of the message passed (whole or sliced) to its own setters and appends, embedded messages modified and set back, and values read grown; non-trivial: at least one such step",
			func(t *rapid.T) gen.HistOpts {
				h := gen.DefaultHist()
				h.Alias, h.RMW, h.Grow, h.Down, h.MaxOps = 40, 20, 15, 3, 10
				h.Dec, h.Reset, h.Reuse, h.Redec, h.Move = 2, 0, 0, 3, 1
				if gen.Pct(t, 2) {
					h.MaxOps = 6
					h.Reach, h.ReachAt = 16, reachAt
				}
				return h
			},
			func(st *hist.Stats) bool { return st.Aliases+st.RMW > 0 }),
	}, Assumptions: []string{"an embedded message that is modified but not set back leaves its own field unspecified"}})
	eng.Register(&eng.Prop{ID: "C15", Parts: []*eng.Part{
		eng.NewPart("numbers", 288000, 5040000, "histories and decodes on schemas with field numbers around every tag length (15/16, 2047/2048, 262143/262144); non-trivial: a field with a tag of at least 2 bytes was written",
			func(t *rapid.T) hist.Case { return genNumbers(t) },
			func(c *hist.Case, o *eng.Obs) error {
				st, err := hist.Run(c)
				histLabels(st, o)
				big := false
				for _, op := range c.Ops {
					big = big || op.F > 15
				}
				o.Label("tag lengths up to %d", len(ref.AppendTag(nil, c.S.Msgs[c.M].Max(), 0, 0)))
				if big && st.Sets+st.Appends > 0 {
					o.NonTrivial()
				}
				return err
			}),
		eng.NewPart("giant", 240, 8400, "histories on schemas with field numbers of 2^24 up to 2^29-1; non-trivial: at least one write",
			func(t *rapid.T) hist.Case { return genGiant(t) }, runGiant),
	}})
}

// genNested is genWire for messages with embedded ones.
func genNested(t *rapid.T, o gen.Opts) WireCase {
	c := genWire(o)(t)
	s := c.S.Resolve()
	has := func(mi int) bool {
		for _, f := range s.Msgs[mi].F {
			if f.K == ref.Message {
				return true
			}
		}
		return false
	}
	if !has(c.M) {
		for mi := range s.Msgs {
			if has(mi) {
				c.M = mi
				break
			}
		}
		c.Recs = gen.Recs(t, s, c.M, o)
		return c
	}
	var msgs []*ref.Field
	m := &s.Msgs[c.M]
	for i := range m.F {
		if m.F[i].K == ref.Message {
			msgs = append(msgs, &m.F[i])
		}
	}
	more := gen.List(t, 0, 4, func(t *rapid.T) ref.Rec { return gen.Rec(t, s, msgs[gen.Int(t, 0, len(msgs)-1)], o) })
	c.Recs = dropSplits(m, append(c.Recs, more...))
	if gen.Pct(t, 3) {
		c.Recs = gen.Far(t, m, c.Recs)
	}
	return c
}

func genNumbers(t *rapid.T) hist.Case {
	max := 262144 + 200
	num := func(t *rapid.T) int {
		switch gen.Int(t, 0, 5) {
		case 0:
			return gen.Of(t, 1, 15, 16, 17)
		case 1:
			return gen.Of(t, 127, 128, 255, 256, 2047, 2048, 2049)
		case 2:
			return gen.Near(t, 1, max, 4095, 4096, 8191, 8192, 16383, 16384, 19000-1, 20000, 32767, 32768, 65535, 65536, 65537)
		case 3:
			return gen.Of(t, 262143, 262144, 262145, 131071, 131072)
		case 4:
			return gen.Int(t, 1, 3000)
		default:
			return gen.Int(t, 1, max)
		}
	}
	small := func(t *rapid.T) int { return gen.Of(t, 1, 2, 15, 16, 17, 127, 128, 2047, 2048) }
	so := gen.SchemaOpts{MaxMsgs: 2, MaxFields: 6, RepScalars: true, Nums: num}
	if gen.Pct(t, 40) {
		so.Nums = small
	}
	s := gen.Schema(t, so)
	// Embedded messages are made often: give them small tables.
	for mi := range s.Msgs {
		for i := range s.Msgs[mi].F {
			s.Msgs[mi].F[i].M = len(s.Msgs) // the extra message
		}
	}
	x := gen.Schema(t, gen.SchemaOpts{MaxMsgs: 1, MaxFields: 4, Nums: small}).Msgs[0]
	x.Name = "X"
	for i := range x.F {
		x.F[i].M = len(s.Msgs)
	}
	s.Msgs = append(s.Msgs, x)
	h := gen.DefaultHist()
	h.MaxOps = 8
	h.Enc.MaxRecs = 6
	var nums []int
	for _, f := range s.Msgs[0].F {
		nums = append(nums, f.N)
		// Neighbours, and numbers that differ in high bits only.
		nums = append(nums, f.N+1, f.N+1<<11, f.N^1<<13, f.N+1<<16, f.N+1<<20, f.N+1<<25)
	}
	h.Enc.UnkNums = append(nums, 1, 16, 2048, 262144, 1<<25-1, 1<<25)
	return hist.Case{S: s, M: 0, Ops: gen.Ops(t, &s, 0, h)}
}
