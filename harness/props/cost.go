package props

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// ---- C25: cost ----
//
// Messages of up to a few hundred thousand fields. What costs linear time takes
// well below a second of CPU here; a factor of the number of fields more, and the
// case runs into the watchdog's limit of 12 seconds.

// CostCase is an encoding that consists of many equal units.
type CostCase struct {
	S    ref.Schema `json:"s"`
	M    int        `json:"m"`
	Unit []ref.Rec  `json:"unit"`
	N    int        `json:"n"`
	// Depth of a chain of embedded messages, for types that have one.
	Depth int `json:"depth"`
}

const (
	costFields = 400000
	costBytes  = 8 << 20
	costReads  = 4000
)

func genCost(t *rapid.T) CostCase {
	var c CostCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	e := gen.Default()
	e.MaxRecs, e.Depth, e.Few, e.MaxBlob = 3, 1, true, 12
	c.Unit = gen.Recs(t, s, c.M, e)
	m := &s.Msgs[c.M]
	var reps []*ref.Field
	for i := range m.F {
		if m.F[i].Rep && m.F[i].K == ref.Message {
			reps = append(reps, &m.F[i])
		}
	}
	if len(reps) > 0 && gen.Pct(t, 70) {
		c.Unit = append(c.Unit, gen.Rec(t, s, reps[gen.Int(t, 0, len(reps)-1)], e))
	}
	c.N = gen.Of(t, costFields, costFields, costFields/2, 30000, 1000)
	c.Depth = gen.Of(t, 0, 100000, 200000)
	return c
}

func runCost(c *CostCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil
	}
	m := &s.Msgs[c.M]
	unit := ref.EncodeRecs(nil, c.Unit)
	spans, err := ref.Parse(unit)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	n := c.N
	if len(spans) > 0 {
		n = min(n, costFields/len(spans), costBytes/len(unit)+1)
	}
	st, skip := ref.StateOf(m, spans), ref.Tainted(m, spans)
	b := bytes.Repeat(unit, n)
	o.LabelIf(n*len(spans) >= 100000, "100000 fields or more")
	if n*len(spans) >= 1000 {
		o.NonTrivial()
	}
	t := tgt.New(s, c.M)
	if err := t.Decode(b); err != nil {
		return fmt.Errorf("Decode of a well-formed encoding of %d fields failed: %v", n*len(spans), err)
	}
	// A cut one is refused; one cut between two fields is accepted.
	if len(b) > 1 {
		t.New(c.M).Decode(b[: len(b)-1 : len(b)-1])
	}
	for k := range m.F {
		f := &m.F[k]
		if !f.Accessible() || skip[f.N] {
			continue
		}
		v, present := st[f.N]
		switch {
		case f.Rep:
			it, sub := t.Iter(f), t.New(f.M)
			want := len(v.Elems) * n
			for i := 0; i < want; i++ {
				ok, _ := it.Next(sub)
				if !ok {
					return fmt.Errorf("f%d: iteration ends after %d of %d elements", f.N, i, want)
				}
			}
			if ok, _ := it.Next(sub); ok {
				return fmt.Errorf("f%d: iteration goes on after %d elements", f.N, want)
			}
			o.LabelIf(want >= 100000, "100000 elements or more")
			// The first element, often.
			for i := 0; i < costReads/4; i++ {
				it := t.Iter(f)
				if ok, _ := it.Next(sub); ok != (want > 0) {
					return fmt.Errorf("f%d: first element: %v", f.N, ok)
				}
			}
		case f.K == ref.Message:
			sub := t.New(f.M)
			for i := 0; i < costReads/4; i++ {
				if ok, _ := t.GetMsg(f, sub); ok != present {
					return fmt.Errorf("f%d: present=%v, want %v", f.N, ok, present)
				}
			}
		default:
			for i := 0; i < costReads; i++ {
				t.Get(f)
			}
			if err := tgt.CheckField(t, f, st, ""); err != nil {
				return err
			}
		}
	}
	for i := 0; i < costReads; i++ {
		if len(t.Encode()) != len(b) {
			return fmt.Errorf("Encode returns %d bytes, want %d", len(t.Encode()), len(b))
		}
	}
	if err := costBuild(t, m, st, skip, n, o); err != nil {
		return err
	}
	if err := costGrowth(t, m, st, skip, b, unit, n, o); err != nil {
		return err
	}
	return costChain(t, m, c, o)
}

// costGrowth compares what decoding, iterating and building cost with what a
// sixteenth of the fields costs: a factor of 16, if linear, and 256, if quadratic.
// This finds what makes only a few of the steps scan the rest.
func costGrowth(t tgt.Target, m *ref.Msg, st ref.State, skip map[int]bool, b, unit []byte, n int, o *eng.Obs) error {
	const parts = 16
	limit := 80.0
	if o.Again {
		limit = 60
	}
	k := n / parts
	if k < 500 || len(unit) == 0 {
		return nil
	}
	o.Label("cost compared with that of a sixteenth")
	small := b[: k*len(unit) : k*len(unit)]
	check := func(what string, f func(b []byte, n int)) error {
		r := math.Inf(1)
		for i := 0; i < 4 && r > limit; i++ {
			lo := minTime(6*time.Millisecond, func() { f(small, k) })
			hi := minTime(0, func() { f(b, n) })
			if hi < 3*time.Millisecond {
				return nil
			}
			r = min(r, float64(hi)/float64(lo))
		}
		o.LabelIf(r > 24, "at least 24 times the cost of a sixteenth")
		if r > limit {
			return eng.Measured("%s takes %.0f times as long for %d times as much: %d bytes, %d units", what, r, parts, len(b), n)
		}
		return nil
	}
	x := t.New(t.MsgIndex())
	if err := check("Decode", func(b []byte, n int) { x.Decode(b) }); err != nil {
		return err
	}
	for i := range m.F {
		f := &m.F[i]
		if !f.Rep || f.K != ref.Message || skip[f.N] || len(st[f.N].Elems) == 0 {
			continue
		}
		sub := t.New(f.M)
		if err := check(fmt.Sprintf("f%d: iteration", f.N), func(b []byte, n int) {
			x.Decode(b)
			it, ok := x.Iter(f), true
			for ok {
				ok, _ = it.Next(sub)
			}
		}); err != nil {
			return err
		}
		if sub.Decode(append([]byte{}, st[f.N].Elems[0]...)) != nil {
			continue
		}
		if err := check(fmt.Sprintf("f%d: building by appends", f.N), func(b []byte, n int) {
			y := t.New(t.MsgIndex())
			for i := 0; i < n; i++ {
				y.Append(f, sub)
			}
		}); err != nil {
			return err
		}
	}
	return nil
}

// minTime is the CPU time that f takes at least, as measured in several runs that
// take atLeast together.
func minTime(atLeast time.Duration, f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best, total := time.Duration(math.MaxInt64), time.Duration(0)
	for i := 0; i < 1 || total < atLeast && i < 50; i++ {
		start := threadTime()
		f()
		d := threadTime() - start
		best, total = min(best, d), total+d
	}
	return max(best, time.Microsecond)
}

func threadTime() time.Duration {
	var ts syscall.Timespec
	const threadCPU = 3 // CLOCK_THREAD_CPUTIME_ID
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, threadCPU, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

// costBuild appends all the elements to an empty message.
func costBuild(t tgt.Target, m *ref.Msg, st ref.State, skip map[int]bool, n int, o *eng.Obs) error {
	x := t.New(t.MsgIndex())
	want := 0
	var fs []*ref.Field
	var subs [][]tgt.Target
	for k := range m.F {
		f := &m.F[k]
		if !f.Rep || f.K != ref.Message || skip[f.N] {
			continue
		}
		var ss []tgt.Target
		for _, e := range st[f.N].Elems {
			sub := t.New(f.M)
			if sub.Decode(append([]byte{}, e...)) != nil {
				continue
			}
			ss = append(ss, sub)
			want += n * len(ref.AppendField(nil, f.N, ref.Message, 0, e))
		}
		fs, subs = append(fs, f), append(subs, ss)
	}
	before, calls := allocated(), 0
	for i := 0; i < n; i++ {
		for k, f := range fs {
			for _, sub := range subs[k] {
				x.Append(f, sub)
				calls++
			}
		}
	}
	after := allocated()
	if len(x.Encode()) != want {
		return fmt.Errorf("built by appends: %d bytes, want %d", len(x.Encode()), want)
	}
	// A buffer that grows by a constant factor of 1.25 or more is allocated five
	// times over at most; one that grows by a constant amount, hundreds of times.
	// Calls by reflection allocate too.
	if limit := uint64(16*want + 1<<20 + 500*calls); after-before > limit {
		return eng.Measured("%d bytes were allocated to build a message of %d bytes by %d appends", after-before, want, calls)
	}
	o.LabelIf(want >= 1<<20, "appended more than 1 MiB")
	return nil
}

// costChain walks down a chain of embedded messages.
func costChain(t tgt.Target, m *ref.Msg, c *CostCase, o *eng.Obs) error {
	var f *ref.Field
	for k := range m.F {
		if m.F[k].K == ref.Message && m.F[k].M == c.M {
			f = &m.F[k]
		}
	}
	if f == nil || c.Depth == 0 {
		return nil
	}
	depth := min(c.Depth, 200000)
	// The headers, from the inside out, then reversed.
	var rev []byte
	for i := 0; i < depth; i++ {
		h := ref.AppendVarint(ref.AppendTag(nil, f.N, ref.WLen, 0), uint64(len(rev)), 0)
		for k := len(h) - 1; k >= 0; k-- {
			rev = append(rev, h[k])
		}
	}
	b := make([]byte, len(rev))
	for i, x := range rev {
		b[len(b)-1-i] = x
	}
	o.Label("chain of 100000 levels or more")
	cur, next := t.New(c.M), t.New(c.M)
	if err := cur.Decode(b); err != nil {
		return fmt.Errorf("Decode of %d embedded levels failed: %v", depth, err)
	}
	for i := 0; i < depth; i++ {
		var ok bool
		var err error
		if f.Rep {
			ok, err = cur.Iter(f).Next(next)
		} else {
			ok, err = cur.GetMsg(f, next)
		}
		if !ok || err != nil {
			return fmt.Errorf("level %d of %d: %v, %v", i, depth, ok, err)
		}
		cur, next = next, cur
	}
	if len(cur.Encode()) != 0 {
		return fmt.Errorf("the innermost of %d levels holds %s", depth, ref.Short(cur.Encode()))
	}
	return nil
}

// DistinctCase is a message of many different fields.
type DistinctCase struct {
	W int `json:"w"` // how many
	// K are the kinds of the fields, in turns; a message kind is repeated if odd.
	K []ref.Kind `json:"k"`
	// Pad is the length of the content of the field that comes first.
	Pad int `json:"pad"`
	// Step from each field number to the next, modulo W+1.
	Step int `json:"step"`
	// Times that all of them occur.
	Times int `json:"times"`
	// Gap between numbers.
	Gap int `json:"gap"`
}

func genDistinct(t *rapid.T) DistinctCase {
	c := DistinctCase{W: gen.Of(t, 8192, 32768, 65520, 65536, gen.Int(t, 8000, 70000)), Pad: gen.Of(t, 65600, 70000, 200000), Step: gen.Of(t, 1, 1, -1, 7, 4097, gen.Int(t, 2, 5000)), Times: gen.Of(t, 1, 1, 2, 3), Gap: gen.Of(t, 1, 1, 2, 5)}
	for i := gen.Int(t, 1, 5); i > 0; i-- {
		c.K = append(c.K, gen.Of(t, ref.Bool, ref.Int64, ref.Sint32, ref.Fixed32, ref.Double, ref.String, ref.Bytes, ref.Message, ref.Message))
	}
	return c
}

// message is the case's message with w of its fields, and what they hold.
func (c *DistinctCase) message(w int) (*ref.Schema, []byte, ref.State) {
	st := ref.State{1: {B: make([]byte, c.Pad)}}
	gap := max(c.Gap, 1)
	s := &ref.Schema{Msgs: []ref.Msg{{F: []ref.Field{{N: 1, K: ref.Bytes}}}}}
	m := &s.Msgs[0]
	for i := 0; i < w; i++ {
		k := c.K[i%len(c.K)]
		m.F = append(m.F, ref.Field{N: 2 + i*gap, K: k, Rep: k == ref.Message && i%2 == 1})
	}
	b := ref.AppendField(nil, 1, ref.Bytes, 0, make([]byte, c.Pad))
	step := c.Step % w
	if step <= 0 {
		step += w
	}
	for step > 1 && gcd(step, w) != 1 {
		step--
	}
	for n := 0; n < max(c.Times, 1); n++ {
		for i, at := 0, n; i < w; i, at = i+1, (at+step)%w {
			f := &m.F[1+at%w]
			u, p := uint64(at%2), []byte(nil)
			if f.K != ref.Bool {
				u = uint64(at*3 + n)
			}
			if f.K == ref.String || f.K == ref.Bytes {
				p = []byte{byte('a' + at%26)}
			}
			b = ref.AppendField(b, f.N, f.K, u, p)
			if f.K.WireType() == ref.WLen {
				st[f.N] = ref.Val{B: p}
			} else {
				st[f.N] = ref.Val{U: ref.FromWire(f.K, ref.ToWire(f.K, u))}
			}
		}
	}
	return s, b, st
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// runDistinct decodes a message of many different fields and reads them all, and
// compares what that costs with a message of a sixteenth of the fields.
func runDistinct(c *DistinctCase, o *eng.Obs) error {
	const parts = 16
	if c.W < parts*400 || c.W > 1<<17 || len(c.K) == 0 {
		return nil
	}
	o.NonTrivial()
	limit := 100.0
	if o.Again {
		limit = 80
	}
	type side struct {
		t, sub tgt.Target
		m      *ref.Msg
		b      []byte
		st     ref.State
	}
	mk := func(w int) *side {
		s, b, st := c.message(w)
		t := tgt.NewRT(s, 0)
		return &side{t, t.New(0), &s.Msgs[0], b[:len(b):len(b)], st}
	}
	lo, hi := mk(c.W/parts), mk(c.W)
	for _, x := range []*side{lo, hi} {
		if err := x.t.Decode(x.b); err != nil {
			return fmt.Errorf("Decode of a well-formed encoding of %d different fields: %v", len(x.m.F), err)
		}
		for i := range x.m.F {
			if f := &x.m.F[i]; f.K != ref.Message || i%16 == 2 && !f.Rep {
				if err := tgt.CheckField(x.t, f, x.st, ""); err != nil {
					return err
				}
			}
		}
	}
	steps := []struct {
		what string
		f    func(x *side)
	}{
		{"Decode", func(x *side) { x.t.Decode(x.b) }},
		{"Decode of all but the last byte", func(x *side) { x.sub.Decode(x.b[: len(x.b)-1 : len(x.b)-1]) }},
		{"reading each field", func(x *side) {
			x.t.Decode(x.b)
			for i := range x.m.F {
				if f := &x.m.F[i]; f.K != ref.Message {
					x.t.Get(f)
				}
			}
		}},
		{"starting an iteration of each repeated field", func(x *side) {
			x.t.Decode(x.b)
			for i := range x.m.F {
				if f := &x.m.F[i]; f.Rep {
					x.t.Iter(f)
				}
			}
		}},
		{"emptying it", func(x *side) { x.t.Decode(x.b); x.t.Reset(nil) }},
	}
	for _, st := range steps {
		r := math.Inf(1)
		// Tables grow the first time.
		st.f(lo)
		st.f(hi)
		for i := 0; i < 5 && r > limit; i++ {
			a := minTime(4*time.Millisecond, func() { st.f(lo) })
			z := minTime(0, func() { st.f(hi) })
			if z < 10*time.Millisecond {
				r = 0
				break
			}
			r = min(r, float64(z)/float64(a))
		}
		o.LabelIf(r > 32, "at least 32 times the cost of a sixteenth")
		if r > limit {
			return eng.Measured("%s takes %.0f times as long for %d times as many different fields: %d", st.what, r, parts, c.W)
		}
	}
	return nil
}

// runContents decodes and reads messages with contents of up to gigabytes over
// and over. Neither the time nor the memory it takes may depend on them: looking
// through them, or allocating in proportion, once per call, would exceed the
// limits.
func runContents(c *HugeCase, o *eng.Obs) error {
	b, _, free := hugeBytes(c, o)
	if b == nil {
		return nil
	}
	defer free()
	s := c.S.Resolve()
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	m := &s.Msgs[c.M]
	st, skip := ref.StateOf(m, spans), ref.Tainted(m, spans)
	if len(c.Recs) > 0 {
		o.NonTrivial()
	}
	t := tgt.New(s, c.M)
	cut := min(max(c.Cut, 1), len(b))
	before := allocated()
	for i := 0; i < 30; i++ {
		t.Decode(b[: len(b)-cut : len(b)-cut])
		if err := t.Decode(b); err != nil {
			return fmt.Errorf("Decode of a well-formed encoding of %d bytes: %v", len(b), err)
		}
	}
	for k := range m.F {
		f := &m.F[k]
		if !f.Accessible() || skip[f.N] {
			continue
		}
		_, present := st[f.N]
		var sub tgt.Target
		if f.K == ref.Message {
			sub = t.New(f.M)
		}
		for i := 0; i < 100; i++ {
			switch {
			case f.Rep:
				it := t.Iter(f)
				ok := true
				for ok {
					ok, _ = it.Next(sub)
				}
			case f.K == ref.Message:
				if ok, _ := t.GetMsg(f, sub); ok != present {
					return fmt.Errorf("f%d: present=%v, want %v", f.N, ok, present)
				}
			default:
				t.Get(f)
			}
			if len(t.Encode()) != len(b) {
				return fmt.Errorf("Encode returns %d bytes, want %d", len(t.Encode()), len(b))
			}
		}
	}
	if n := allocated() - before; n > 48<<20 {
		return eng.Measured("%d bytes were allocated to decode and read %d fields of %d bytes", n, len(spans), len(b))
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C25", Parts: []*eng.Part{
		eng.NewPart("contents", 1200, 42000, "encodings of a few fields with contents of 2 MiB to 5 GiB in memory that is never touched, decoded 30 times, cut and decoded, every field read and iterated 100 times, within 12 CPU seconds and 48 MiB of allocations; non-trivial: at least one other field",
			genHuge, runContents, func(p *eng.Part) { p.CPULimit = 12 }),
		eng.NewPart("cost", 560, 19600, "encodings of up to 400000 fields decoded, every field read often, iterated completely, and built by appends; chains of up to 200000 embedded messages walked down; a cost of a higher order than linear (constant, for reads) runs into the limit of 12 CPU seconds, and decoding, iterating and appending may take at most 80 times as long as with a sixteenth of the fields; non-trivial: at least 1000 fields",
			genCost, runCost, func(p *eng.Part) { p.CPULimit = 12 }),
		eng.NewPart("distinct", 480, 16800, "encodings of 8000 to 70000 different fields, beyond 64 KiB, in some order: decoding, decoding a cut one, reading each, starting each iteration and emptying the message may take at most 100 times as long as with a sixteenth of the fields; every value is checked; non-trivial: all",
			genDistinct, runDistinct, func(p *eng.Part) { p.CPULimit = 20 }),
	}})
}
