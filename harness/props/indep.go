package props

import (
	"bytes"
	"fmt"
	"sync"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// MultiOp is a call on message I, or (give) a value of J's field G set in I's
// field F, or (hold) a value of I's field F kept and watched, or (take) the embedded
// message or first element in I's field F taken out to replace I; Empty sets or
// appends an empty one first.
type MultiOp struct {
	I  int     `json:"i"`
	K  string  `json:"k,omitempty"`
	J  int     `json:"j,omitempty"`
	G  int     `json:"g,omitempty"`
	F  int     `json:"f,omitempty"`
	Op hist.Op `json:"op,omitempty"`

	Empty bool `json:"empty,omitempty"`
}

// MultiCase is several messages used in turns.
type MultiCase struct {
	S   ref.Schema `json:"s"`
	M   []int      `json:"m"`
	Ops []MultiOp  `json:"ops"`
}

func genMulti(t *rapid.T) MultiCase {
	var c MultiCase
	var mi int
	c.S, mi = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	c.M = []int{mi, mi}
	if gen.Pct(t, 50) {
		c.M = append(c.M, gen.Int(t, 0, len(s.Msgs)-1))
	}
	h := gen.DefaultHist()
	h.MaxOps, h.Enc.MaxRecs, h.SubDepth = 6, 6, 1
	h.Dec, h.Reuse, h.Reset = 12, 4, 3
	if gen.Pct(t, 5) {
		h.Reach, h.ReachAt = 10, reachAt
	}
	var foc [][]*ref.Field
	for _, x := range c.M {
		foc = append(foc, gen.Focus(t, &s.Msgs[x]))
	}
	cur := append([]int{}, c.M...)
	c.Ops = gen.List(t, 2, 16, func(t *rapid.T) MultiOp {
		op := MultiOp{I: gen.Int(t, 0, len(c.M)-1)}
		fs := foc[op.I]
		var subs []*ref.Field
		for _, f := range fs {
			if f.K == ref.Message {
				subs = append(subs, f)
			}
		}
		switch {
		case len(subs) > 0 && gen.Pct(t, 12):
			f := subs[gen.Int(t, 0, len(subs)-1)]
			op.K, op.F, op.Empty = "take", f.N, gen.Pct(t, 50)
			cur[op.I] = f.M
			foc[op.I] = gen.Focus(t, &s.Msgs[f.M])
		case len(fs) > 0 && gen.Pct(t, 20):
			op.K, op.F = "hold", fs[gen.Int(t, 0, len(fs)-1)].N
		case len(fs) > 0 && gen.Pct(t, 20):
			op.K, op.J = "give", gen.Int(t, 0, len(c.M)-1)
			f := fs[gen.Int(t, 0, len(fs)-1)]
			op.F = f.N
			for _, g := range foc[op.J] {
				if g.K == f.K && (g.K != ref.Message || g.M == f.M) {
					op.G = g.N
				}
			}
		default:
			op.Op = gen.Op(t, s, cur[op.I], fs, h)
		}
		return op
	})
	return c
}

type held struct {
	i    int
	view []byte
	str  string
	copy []byte
	what string
}

func runMulti(c *MultiCase, o *eng.Obs) error {
	s := c.S.Resolve()
	var ms []*hist.M
	for _, x := range c.M {
		if x >= len(s.Msgs) {
			return nil
		}
		ms = append(ms, hist.New(s, x))
	}
	if len(ms) < 2 {
		return nil
	}
	var hs []held
	touched := map[int]bool{}
	for i := range c.Ops {
		op := &c.Ops[i]
		if op.I >= len(ms) || op.J >= len(ms) {
			continue
		}
		m := ms[op.I]
		where := fmt.Sprintf("step %d (%s%s on message %d)", i, op.K, op.Op.K, op.I)
		switch op.K {
		case "hold":
			f := m.Field(op.F)
			if f == nil || m.Skip[op.F] || m.St == nil || f.Rep {
				continue
			}
			h := held{i: op.I, what: fmt.Sprintf("value of field %d of message %d read at step %d", op.F, op.I, i)}
			switch f.K {
			case ref.String:
				h.str = m.T.Get(f).Str
				h.copy = []byte(h.str)
			case ref.Bytes:
				h.view = m.T.Get(f).Byt
				h.copy = append([]byte{}, h.view...)
			case ref.Message:
				sub := m.T.New(f.M)
				if ok, err := m.T.GetMsg(f, sub); !ok || err != nil {
					continue
				}
				h.view = sub.Encode()
				h.copy = append([]byte{}, h.view...)
			default:
				continue
			}
			hs = append(hs, h)
			o.Label("value held")
			continue
		case "take":
			f := m.Field(op.F)
			if f == nil || f.K != ref.Message || m.St == nil || m.Skip[op.F] {
				continue
			}
			sub := m.T.New(f.M)
			// The message is kept if what is taken turns out malformed.
			if op.Empty && f.Rep {
				m.T.Append(f, sub)
				v := m.St[f.N]
				v.Elems = append(v.Elems[:len(v.Elems):len(v.Elems)], []byte{})
				m.St[f.N] = v
			} else if op.Empty {
				m.T.SetMsg(f, sub)
				m.St[f.N] = ref.Val{B: []byte{}}
			}
			if f.Rep {
				it := m.T.Iter(f)
				if ok, err := it.Next(sub); !ok || err != nil {
					continue
				}
			} else if ok, err := m.T.GetMsg(f, sub); !ok || err != nil {
				continue
			}
			spans, perr := ref.Parse(append([]byte{}, sub.Encode()...))
			if perr != nil {
				continue
			}
			d := sub.Desc()
			ms[op.I] = &hist.M{T: sub, St: ref.StateOf(d, spans), Skip: ref.Tainted(d, spans), Depth: m.Depth + 1}
			o.Label("embedded message taken out")
		case "give":
			src := ms[op.J]
			f, g := m.Field(op.F), src.Field(op.G)
			if f == nil || g == nil || op.I == op.J || m.St == nil || src.St == nil || m.Skip[op.F] || src.Skip[op.G] || f.K != g.K || f.M != g.M {
				continue
			}
			if f.K == ref.Message {
				sub := src.T.New(g.M)
				if g.Rep {
					it := src.T.Iter(g)
					if ok, err := it.Next(sub); !ok || err != nil {
						continue
					}
				} else if ok, err := src.T.GetMsg(g, sub); !ok || err != nil {
					continue
				}
				enc := append([]byte{}, sub.Encode()...)
				if f.Rep {
					m.T.Append(f, sub)
					v := m.St[f.N]
					v.Elems = append(v.Elems[:len(v.Elems):len(v.Elems)], enc)
					m.St[f.N] = v
				} else {
					m.T.SetMsg(f, sub)
					m.St[f.N] = ref.Val{B: enc}
				}
			} else {
				v := src.T.Get(g)
				m.St[f.N] = ref.Val{U: v.U, B: append([]byte(v.Str), v.Byt...)}
				m.T.Set(f, v)
			}
			o.Label("value passed on")
		default:
			if err := m.Apply(&op.Op); err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
		}
		touched[op.I] = true
		// Values held stay as they were unless their own message was changed.
		keep := hs[:0]
		for _, h := range hs {
			if h.i == op.I {
				continue
			}
			if !bytes.Equal(h.view, h.copy) && h.str != string(h.copy) {
				return fmt.Errorf("%s: %s changed from %s", where, h.what, ref.Short(h.copy))
			}
			keep = append(keep, h)
		}
		hs = keep
		for k, x := range ms {
			if err := x.Check(); err != nil {
				return fmt.Errorf("after %s: message %d: %w", where, k, err)
			}
		}
	}
	if len(touched) > 1 {
		o.NonTrivial()
	}
	return nil
}

// ConcCase is histories run by goroutines of their own, and a decoded message
// read by all of them.
type ConcCase struct {
	S      ref.Schema  `json:"s"`
	M      int         `json:"m"`
	Hist   [][]hist.Op `json:"hist"`
	Shared []ref.Rec   `json:"shared"`
	Reps   int         `json:"reps"`
}

func genConc(t *rapid.T) ConcCase {
	var c ConcCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	h := gen.DefaultHist()
	h.MaxOps, h.Enc.MaxRecs, h.SubDepth = 5, 5, 1
	h.Reset, h.Redec = 5, 5
	if gen.Pct(t, 9) {
		// Overflow maps come and go.
		h.MaxOps, h.Reach, h.ReachAt = 8, 16, reachAt
		h.Reset, h.Redec, h.Reuse = 12, 12, 6
	}
	c.Hist = gen.List(t, 2, 4, func(t *rapid.T) []hist.Op { return gen.Ops(t, s, c.M, h) })
	e := gen.Default()
	e.MaxRecs, e.Bad = 10, 5
	if gen.Pct(t, 5) {
		e.Big = 80000
	}
	c.Shared = gen.Recs(t, s, c.M, e)
	if gen.Pct(t, 5) {
		c.Shared = gen.Far(t, &s.Msgs[c.M], c.Shared)
	}
	c.Reps = gen.Int(t, 1, 3)
	return c
}

// play runs a history and digests the message after every step.
func play(s *ref.Schema, mi int, ops []hist.Op) ([]byte, error) {
	m := hist.New(s, mi)
	var d []byte
	for i := range ops {
		if err := m.Step(&ops[i]); err != nil {
			return nil, fmt.Errorf("step %d: %w", i, err)
		}
		d = append(d, m.T.Encode()...)
		d = append(d, '|')
	}
	return append(d, digestAll(m.T, 3)...), nil
}

// shared reads a message as one goroutine does: start is the field begun with.
func readShared(t tgt.Target, taint map[int]bool, start int) [][]byte {
	d := t.Desc()
	out := make([][]byte, len(d.F)+1)
	for k := range d.F {
		i := (k + start) % len(d.F)
		f := &d.F[i]
		if f.Accessible() && !taint[f.N] {
			out[i] = digest(t, f, 3)
		}
	}
	out[len(d.F)] = append([]byte{}, t.Encode()...)
	return out
}

func runConc(c *ConcCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) || len(c.Hist) == 0 {
		return nil
	}
	b := ref.EncodeRecs(nil, c.Shared)
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	taint := ref.Tainted(&s.Msgs[c.M], spans)
	// Alone.
	var want [][]byte
	for g, ops := range c.Hist {
		d, err := play(s, c.M, ops)
		if err != nil {
			return fmt.Errorf("history %d alone: %w", g, err)
		}
		want = append(want, d)
	}
	sh := tgt.New(s, c.M)
	if err := sh.Decode(b); err != nil {
		return err
	}
	wantRead := readShared(sh, taint, 0)
	// Together.
	errs := make([]error, len(c.Hist))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := range c.Hist {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[g] = fmt.Errorf("goroutine %d: panic: %v", g, r)
				}
			}()
			<-gate
			for k := 0; k < c.Reps && k < 10; k++ {
				d, err := play(s, c.M, c.Hist[g])
				if err == nil && !bytes.Equal(d, want[g]) {
					err = fmt.Errorf("the history ends up with %s, alone with %s", ref.Short(d), ref.Short(want[g]))
				}
				if err != nil {
					errs[g] = fmt.Errorf("goroutine %d on its own message: %w", g, err)
					return
				}
				for i, d := range readShared(sh, taint, g) {
					if !bytes.Equal(d, wantRead[i]) {
						errs[g] = fmt.Errorf("goroutine %d reading the shared message: field index %d reads %s, alone %s", g, i, ref.Short(d), ref.Short(wantRead[i]))
						return
					}
				}
			}
		}()
	}
	close(gate)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if len(spans) > 0 && len(c.Hist) > 1 {
		o.NonTrivial()
	}
	o.LabelIf(len(b) > 1<<16, "shared message beyond 64 KiB")
	o.Label("%d goroutines", len(c.Hist))
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C22", Parts: []*eng.Part{
		eng.NewPart("interleaved", 144000, 2520000, "two or three messages used in turns, values passed between them and held; after every step every message and held value is compared with its model; non-trivial: at least two messages were written",
			genMulti, runMulti),
		eng.NewPart("concurrent", 3600, 126000, "2 to 4 goroutines run histories on own messages and read one shared decoded message under the race detector, results compared with running alone; non-trivial: non-empty shared message and at least 2 goroutines",
			genConc, runConc, func(p *eng.Part) { p.Race = true; p.CPULimit = 120 }),
	}, Assumptions: []string{"schedules are those the Go scheduler happens to choose; the race detector reports unsynchronised accesses independently of their timing"}})
}
