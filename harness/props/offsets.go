package props

import (
	"fmt"

	"github.com/danhhz/zeropb"
	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/tgt"
)

// OffOp is set, get, clear, or fill on table T. The last sets N fields from F on
// to V, V+D, ...
type OffOp struct {
	K string `json:"k"`
	T int    `json:"t,omitempty"`
	F int    `json:"f,omitempty"`
	V uint64 `json:"v,omitempty"`
	N int    `json:"n,omitempty"`
	D uint64 `json:"d,omitempty"`
}

// OffCase is a history on two offset tables.
type OffCase struct {
	N    int     `json:"n"`
	Keep bool    `json:"keep"` // wrap once, or for every call as generated code does
	Ops  []OffOp `json:"ops"`
}

func genOff(t *rapid.T) OffCase {
	var c OffCase
	c.N = gen.Of(t, 3, 1, 2, 5, 20, 300)
	fill := false
	if gen.Pct(t, 3) && gen.Pct(t, 30) {
		c.N, fill = gen.Near(t, 300, 12000, 300, 1100, 2100, 4200, 10000), true
	}
	c.Keep = gen.Pct(t, 50)
	few := gen.Int(t, 0, min(c.N-1, 3))
	c.Ops = gen.List(t, 1, 40, func(t *rapid.T) OffOp {
		op := OffOp{K: gen.Of(t, "set", "set", "set", "set", "set", "set", "get", "get", "get", "set", "set", "clear")}
		if fill && gen.Pct(t, 25) {
			op.K = "fill"
			op.F = gen.Of(t, 0, 1, gen.Int(t, 0, c.N-1))
			op.N = gen.Of(t, c.N, c.N/2, gen.Int(t, 1, c.N))
			op.V = gen.Of(t, uint64(1<<16), 1<<20, 1<<33, 65000, 50, 65535)
			op.D = gen.Of(t, uint64(0), 1, 1, 7, 300)
			return op
		}
		op.F = gen.Int(t, 0, few)
		if gen.Pct(t, 20) {
			op.F = gen.Int(t, 0, c.N-1)
		}
		if gen.Pct(t, 10) {
			op.T = 1
		}
		if op.K == "set" {
			switch gen.Int(t, 0, 5) {
			case 0:
				op.V = uint64(gen.Int(t, 1, 100))
			case 1:
				op.V = gen.Of(t, uint64(65533), 65534, 65535, 65536, 65537, 65538)
			case 2:
				op.V = gen.Of(t, uint64(1), 255, 256, 32767, 32768, 65280)
			case 3:
				op.V = gen.Of(t, uint64(1)<<17, 131070, 131071, 131072, 65536+65534, 65536+65535, 1<<24)
			case 4:
				op.V = gen.Of(t, uint64(1)<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<32+65535, 1<<40, 1<<63, 1<<63-1, 1<<64-1, 1<<32+65536)
			default:
				op.V = uint64(gen.Int(t, 1, 1<<20))
			}
		}
		return op
	})
	return c
}

const maxFit = 65534

type table struct {
	a    []uint16
	m    map[int]uint64
	o    zeropb.Offsets
	keep bool
	mod  map[int]uint64
	big  bool // an offset that doesn't fit was stored at some time
}

func (x *table) off() zeropb.Offsets {
	if x.keep {
		return x.o
	}
	return zeropb.WrapOffsets(x.a, &x.m)
}

func (x *table) check() error {
	big := 0
	for f := range x.a {
		got, ok := x.off().Get(f)
		want, wok := x.mod[f]
		if ok != wok || got != want {
			return fmt.Errorf("field %d: got %d, %v, want %d, %v", f, got, ok, want, wok)
		}
		_, in := x.m[f]
		if in != (wok && want > maxFit) {
			return fmt.Errorf("field %d with offset %d (set: %v): in the overflow map: %v", f, want, wok, in)
		}
		if in {
			big++
		}
	}
	if len(x.m) != big {
		return fmt.Errorf("the overflow map holds %d entries, %d offsets don't fit", len(x.m), big)
	}
	if !x.big && x.m != nil {
		return fmt.Errorf("an overflow map was allocated although every offset fits")
	}
	return nil
}

func runOff(c *OffCase, o *eng.Obs) error {
	if c.N < 1 || c.N > 20000 {
		return nil
	}
	var ts [2]table
	for i := range ts {
		x := &ts[i]
		// Tables are parts of larger structs.
		back := make([]uint16, c.N+2)
		x.a, x.keep, x.mod = back[1:1+c.N], c.Keep, map[int]uint64{}
		x.o = zeropb.WrapOffsets(x.a, &x.m)
	}
	moves := 0
	for i, op := range c.Ops {
		if op.F >= c.N || op.T > 1 {
			continue
		}
		x := &ts[op.T]
		switch op.K {
		case "set":
			if op.V == 0 {
				continue
			}
			if old, ok := x.mod[op.F]; ok && (old > maxFit) != (op.V > maxFit) {
				moves++
			}
			x.off().Set(op.F, op.V)
			x.mod[op.F] = op.V
			x.big = x.big || op.V > maxFit
		case "fill":
			if op.V == 0 || op.V > 1<<62 || op.D > 1<<32 {
				continue
			}
			for k := 0; k < op.N && op.F+k < c.N; k++ {
				v := op.V + uint64(k)*op.D
				x.off().Set(op.F+k, v)
				x.mod[op.F+k] = v
				x.big = x.big || v > maxFit
			}
			o.LabelIf(op.N > 1000, "more than a thousand fields stored at once")
		case "get":
			got, ok := x.off().Get(op.F)
			if want, wok := x.mod[op.F]; got != want || ok != wok {
				return fmt.Errorf("step %d: field %d: got %d, %v, want %d, %v", i, op.F, got, ok, want, wok)
			}
		case "clear":
			x.off().Clear()
			x.mod = map[int]uint64{}
			o.LabelIf(x.big, "cleared with an overflow map")
		}
		for k := range ts {
			if err := ts[k].check(); err != nil {
				return fmt.Errorf("after step %d (%s), table %d: %w", i, op.K, k, err)
			}
		}
	}
	o.LabelIf(moves > 0, "an offset moved between array and map")
	if moves > 0 {
		o.NonTrivial()
	}
	return nil
}

// runTable looks at the table of a message through a history.
func runTable(c *hist.Case, o *eng.Obs) error {
	s := *c.S.Resolve()
	s.Name = "" // through the runtime's functions: the table is at hand
	if c.M >= len(s.Msgs) {
		return nil
	}
	m := hist.New(&s, c.M)
	wasBig, last := false, 0
	for i := range c.Ops {
		if err := m.Apply(&c.Ops[i]); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
		if m.St == nil {
			continue
		}
		r := m.T.(*tgt.RT)
		for f, v := range r.A {
			off, in := r.M[f]
			if in != (v == 65535) {
				return fmt.Errorf("after step %d (%s field %d): field %d: array says %d, overflow map has %d, %v", i, c.Ops[i].K, c.Ops[i].F, f, v, off, in)
			}
			if in && off <= maxFit {
				return fmt.Errorf("after step %d (%s field %d): field %d: offset %d is in the overflow map", i, c.Ops[i].K, c.Ops[i].F, f, off)
			}
		}
		for f := range r.M {
			if f < 0 || f >= len(r.A) {
				return fmt.Errorf("after step %d: the overflow map has field %d", i, f)
			}
		}
		// Overwriting may need room for the old and the new value at once.
		n := len(m.T.Encode())
		wasBig = wasBig || n+last > maxFit
		last = n
		if !wasBig && r.M != nil {
			return fmt.Errorf("after step %d: an overflow map was allocated for a message of %d bytes", i, n)
		}
		if err := m.Check(); err != nil {
			return fmt.Errorf("after step %d: %w", i, err)
		}
	}
	if m.Stats.MaxLen > maxFit {
		o.NonTrivial()
	}
	o.LabelIf(m.Stats.Crossings > 1, "crossed 64 KiB several times")
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C16", Parts: []*eng.Part{
		eng.NewPart("table", 1200000, 40000000, "histories of storing, looking up and clearing on two tables beside a map, all fields and the overflow map looked at after every step; non-trivial: an offset moved between array and map",
			genOff, runOff),
		eng.NewPart("message", 60000, 525000, "the table of a message through histories around 64 KiB: array and overflow map stay consistent; non-trivial: longer than 65534 bytes",
			func(t *rapid.T) hist.Case { return gen.Hist(t, gen.FarSchema(), bigHist(t)) }, runTable),
	}, Assumptions: []string{"an offset of 0 is never stored (a field's data follows its tag)"}})
}
