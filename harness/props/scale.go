package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// ---- C08: messages of gigabytes ----

// HugeCase is an encoding with contents of up to gigabytes, in memory that is
// never touched, then a history on what comes after them.
type HugeCase struct {
	S    ref.Schema `json:"s"`
	M    int        `json:"m"`
	Recs []ref.Rec  `json:"recs"`
	Big  []BigSeg   `json:"big"`
	Cut  int        `json:"cut"`
	Ops  []hist.Op  `json:"ops"`
}

// BigSeg is a length-delimited field of length Len before Recs[At].
type BigSeg struct {
	F   int  `json:"f"`
	Len int  `json:"len"`
	At  int  `json:"at"`
	Sub bool `json:"sub,omitempty"` // its contents are a well-formed message
}

func hugeLen(t *rapid.T) int {
	switch gen.Int(t, 0, 4) {
	case 0:
		return gen.Of(t, 1<<21-1, 1<<21, 4<<20, 4<<20+1, 1<<22, 3<<20)
	case 1:
		return gen.Of(t, 1<<24-1, 1<<24, 1<<26-1, 1<<26, 1<<26+1)
	case 2:
		return gen.Of(t, 1<<28-1, 1<<28, 1<<28+1, 1<<30, 1<<29)
	case 3:
		return gen.Of(t, 1<<31-1, 1<<31-20, 1<<31, 1<<31+1, 1<<31+65536)
	default:
		return gen.Of(t, 1<<32-1, 1<<32-30, 1<<32, 1<<32+1, 1<<32+65535, 5<<30)
	}
}

const (
	hugeSize  = 12 << 30
	hugeSpare = 1 << 17
)

func genHuge(t *rapid.T) HugeCase {
	var c HugeCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	m := &s.Msgs[c.M]
	e := gen.Default()
	e.MaxRecs, e.Depth, e.MaxBlob, e.Few = 7, 2, 10, true
	c.Recs = gen.Recs(t, s, c.M, e)
	var lens []*ref.Field
	for i := range m.F {
		if f := &m.F[i]; f.K.WireType() == ref.WLen {
			lens = append(lens, f)
		}
	}
	used := map[int]bool{}
	for _, r := range c.Recs {
		used[r.N] = true
	}
	c.Big = gen.List(t, 1, 3, func(t *rapid.T) BigSeg {
		b := BigSeg{F: gen.UnknownNum(t, m, nil), Len: hugeLen(t), At: gen.Int(t, 0, len(c.Recs))}
		if len(lens) > 0 && gen.Pct(t, 70) {
			f := lens[gen.Int(t, 0, len(lens)-1)]
			// Singular embedded messages may not be split.
			if f.K != ref.Message || f.Rep || !used[f.N] {
				used[f.N] = true
				b.F, b.Sub = f.N, f.K == ref.Message
			}
		}
		return b
	})
	c.Cut = gen.Int(t, 1, 12)
	h := gen.DefaultHist()
	h.Enc = e
	h.Dec, h.Redec, h.Move, h.Reset, h.Reuse, h.MaxBlob, h.SubDepth = 0, 0, 0, 0, 0, 10, 1
	h.MaxOps = 5
	c.Ops = gen.Ops(t, s, c.M, h)
	return c
}

var huge struct {
	once sync.Once
	b    []byte
}

// hugeRegion is address space without memory.
func hugeRegion() []byte {
	huge.once.Do(func() {
		b, err := syscall.Mmap(-1, 0, hugeSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err == nil {
			huge.b = b
		}
	})
	return huge.b
}

// same compares contents, of long ones only the ends.
func same(a, b []byte) bool {
	const end = 4096
	if len(a) != len(b) || len(a) <= 2*end {
		return bytes.Equal(a, b)
	}
	if unsafe.SliceData(a) == unsafe.SliceData(b) {
		return true
	}
	return bytes.Equal(a[:end], b[:end]) && bytes.Equal(a[len(a)-end:], b[len(b)-end:])
}

// checkHuge is CheckState for long contents.
func checkHuge(t tgt.Target, st ref.State, skip map[int]bool, path string) error {
	for i := range t.Desc().F {
		f := &t.Desc().F[i]
		if !f.Accessible() || skip[f.N] {
			continue
		}
		v, present := st[f.N]
		w := fmt.Sprintf("%s%s(%s %d)", path, f.Name, f.K, f.N)
		switch {
		case f.K == ref.String:
			s := t.Get(f).Str
			if !same(unsafe.Slice(unsafe.StringData(s), len(s)), v.B) {
				return fmt.Errorf("%s: a string of %d bytes, want %d", w, len(s), len(v.B))
			}
		case f.K == ref.Bytes:
			if b := t.Get(f).Byt; !same(b, v.B) {
				return fmt.Errorf("%s: %d bytes (%s), want %d (%s)", w, len(b), ref.Short(b[:min(len(b), 20)]), len(v.B), ref.Short(v.B[:min(len(v.B), 20)]))
			}
		case f.K != ref.Message:
			if err := tgt.CheckField(t, f, st, path); err != nil {
				return err
			}
		case !f.Rep:
			sub := t.New(f.M)
			ok, err := t.GetMsg(f, sub)
			if ok != present {
				return fmt.Errorf("%s: present: %v, want %v", w, ok, present)
			}
			if present {
				if err := checkHugeSub(sub, v.B, err, w); err != nil {
					return err
				}
			}
		default:
			it := t.Iter(f)
			for i, e := range v.Elems {
				sub := t.New(f.M)
				ok, err := it.Next(sub)
				w := fmt.Sprintf("%s[%d]", w, i)
				if !ok {
					return fmt.Errorf("%s: iteration ended, want %d elements", w, len(v.Elems))
				}
				if err := checkHugeSub(sub, e, err, w); err != nil {
					return err
				}
			}
			if ok, err := it.Next(t.New(f.M)); ok || err != nil {
				return fmt.Errorf("%s: Next after %d elements: %v, %v", w, len(v.Elems), ok, err)
			}
		}
	}
	return nil
}

func checkHugeSub(sub tgt.Target, want []byte, err error, w string) error {
	spans, perr := ref.Parse(want)
	if (perr != nil) != (err != nil) {
		return fmt.Errorf("%s: error %v, want %v", w, err, perr)
	}
	if err != nil || tgt.Unspecified(spans) {
		return nil
	}
	if !same(sub.Encode(), want) {
		return fmt.Errorf("%s: holds %d bytes, want %d", w, len(sub.Encode()), len(want))
	}
	return checkHuge(sub, ref.StateOf(sub.Desc(), spans), ref.Tainted(sub.Desc(), spans), w+".")
}

// hugeBytes lays out an encoding of a case, with hugeSpare bytes of capacity
// behind it; last is where its last long content ends. It returns nil if the case
// makes no sense.
func hugeBytes(c *HugeCase, o *eng.Obs) (b []byte, last int, free func()) {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) {
		return nil, 0, nil
	}
	total := 0
	for _, b := range c.Big {
		if b.Len < 1<<20 || b.F <= 0 || b.At < 0 {
			return nil, 0, nil
		}
		if f := s.Msgs[c.M].Field(b.F); f != nil && f.K.WireType() != ref.WLen {
			return nil, 0, nil
		}
		total += b.Len
	}
	reg := hugeRegion()
	if reg == nil || total+1<<20 > hugeSize {
		o.Label("no address space")
		return nil, 0, nil
	}
	n := 0
	// Only the pages written to exist.
	type rng struct{ from, to int }
	var touched []rng
	put := func(b []byte) {
		touched = append(touched, rng{n, n + len(b)})
		n += copy(reg[n:], b)
	}
	free = func() {
		for _, r := range touched {
			lo := r.from / pageSize * pageSize
			hi := (r.to + pageSize - 1) / pageSize * pageSize
			syscall.Madvise(reg[lo:hi], syscall.MADV_DONTNEED)
		}
	}
	for i := 0; i <= len(c.Recs); i++ {
		for _, b := range c.Big {
			if min(b.At, len(c.Recs)) != i {
				continue
			}
			put(ref.AppendVarint(ref.AppendTag(nil, b.F, ref.WLen, 0), uint64(b.Len), 0))
			at, end := n, n+b.Len
			if b.Sub {
				head := ref.AppendTag(nil, ref.MaxFieldNumber, ref.WLen, 0)
				for l := b.Len - len(head); ; l-- {
					h := ref.AppendVarint(head, uint64(l), 0)
					if len(h)+l == b.Len {
						put(h)
						break
					}
					if len(h)+l < b.Len {
						// The length's own length leaves no exact fit.
						put(ref.AppendVarint(head, uint64(l), 1))
						break
					}
				}
			} else {
				put(binary.LittleEndian.AppendUint64(nil, uint64(b.F)*0x9e3779b97f4a7c15|0x8080))
			}
			n = end - 3
			if b.Sub {
				n = max(n, at)
			}
			put([]byte{1, 2, 3})
			last = n
		}
		if i < len(c.Recs) {
			put(ref.EncodeRecs(nil, c.Recs[i:i+1]))
		}
	}
	touched = append(touched, rng{n, n + hugeSpare})
	o.LabelIf(n > 1<<24, "beyond 16 MiB")
	o.LabelIf(n > 1<<28, "beyond 256 MiB")
	o.LabelIf(n > 1<<31, "beyond 2 GiB")
	o.LabelIf(n > 1<<32, "beyond 4 GiB")
	return reg[: n : n+hugeSpare], last, free
}

func runHuge(c *HugeCase, o *eng.Obs) error {
	b, last, free := hugeBytes(c, o)
	if b == nil {
		return nil
	}
	defer free()
	n := len(b)
	s := c.S.Resolve()
	spans, perr := ref.Parse(b)
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	if len(c.Recs) > 0 {
		o.NonTrivial()
	}
	seen := map[int]int{}
	for _, x := range spans {
		if f := s.Msgs[c.M].Field(x.N); f != nil && !f.Rep && f.K == ref.Message {
			if seen[x.N]++; seen[x.N] > 1 {
				return nil
			}
		}
	}
	m := hist.New(s, c.M)
	if c.Cut > 0 && c.Cut < n {
		cut, inside := n-c.Cut, true
		for _, x := range spans {
			if x.Start == cut {
				inside = false
			}
		}
		if err := m.T.Decode(b[:cut:cut]); inside != (err != nil) {
			return fmt.Errorf("Decode of the encoding cut short by %d of %d bytes: %v", c.Cut, n, err)
		}
	}
	if err := m.T.Decode(b); err != nil {
		return fmt.Errorf("Decode of a well-formed encoding of %d bytes: %v", n, err)
	}
	m.St, m.Skip = ref.StateOf(m.T.Desc(), spans), ref.Tainted(m.T.Desc(), spans)
	if err := checkHuge(m.T, m.St, m.Skip, ""); err != nil {
		return fmt.Errorf("after decoding %d bytes: %w", n, err)
	}
	if !same(m.T.Encode(), b) {
		return fmt.Errorf("Encode returns %d bytes, %d were decoded", len(m.T.Encode()), n)
	}
	// What the setters move must not be seen to move in the model.
	small := func(b []byte) []byte {
		if len(b) < 1<<20 {
			return append([]byte{}, b...)
		}
		return b
	}
	for k, v := range m.St {
		v.B = small(v.B)
		for i := range v.Elems {
			v.Elems[i] = small(v.Elems[i])
		}
		m.St[k] = v
	}
	// Fields before the last long content stay in place: moving that takes long.
	fixed := map[int]bool{}
	for _, x := range spans {
		if f := s.Msgs[c.M].Field(x.N); f != nil && !f.Rep {
			fixed[x.N] = x.Start < last
		}
	}
	for i := range c.Ops {
		op := &c.Ops[i]
		if fixed[op.F] || len(m.T.Encode())+20000 > n+hugeSpare {
			continue
		}
		if err := m.Apply(op); err != nil {
			return fmt.Errorf("step %d (%s field %d): %w", i, op.K, op.F, err)
		}
		if err := checkHuge(m.T, m.St, m.Skip, ""); err != nil {
			return fmt.Errorf("after step %d (%s field %d) on %d bytes: %w", i, op.K, op.F, n, err)
		}
		o.Label("steps")
	}
	t2 := m.T.New(c.M)
	if err := t2.Decode(m.T.Encode()); err != nil {
		return fmt.Errorf("decoding the result: %w", err)
	}
	if err := checkHuge(t2, m.St, m.Skip, ""); err != nil {
		return fmt.Errorf("decoding the result: %w", err)
	}
	return nil
}

// ---- C15: the largest field numbers ----

func genGiant(t *rapid.T) hist.Case {
	top := gen.Of(t, 1<<25-1, 1<<25, 1<<25, 1<<24, 1<<26, 1<<28, 1<<29-1, 1<<25, 1<<25, 1<<25)
	var s ref.Schema
	m := ref.Msg{Name: "M"}
	add := func(n int) {
		if n < 1 || n > ref.MaxFieldNumber || m.Field(n) != nil || n >= 19000 && n < 20000 {
			return
		}
		f := ref.Field{N: n, Name: fmt.Sprintf("f%d", n), K: ref.Kind(gen.Int(t, 0, int(ref.NumKinds)-1))}
		if gen.Pct(t, 30) {
			f.K = gen.Of(t, ref.Message, ref.Bytes)
		}
		if f.K == ref.Message {
			f.M, f.Rep = 1, gen.Pct(t, 60)
		}
		m.F = append(m.F, f)
	}
	add(top)
	for i := gen.Int(t, 1, 4); i > 0; i-- {
		add(gen.Of(t, top-1, top/2, top&0xffff, top&0xfffff, top>>8, 1, 15, 16, 2047, 262144, top-65536, top-2))
	}
	s.Msgs = []ref.Msg{m, {Name: "X", F: []ref.Field{{N: 1, Name: "x", K: ref.Int64}, {N: 3, Name: "y", K: ref.Message, M: 1}, {N: 16, Name: "z", K: ref.Bytes}}}}
	h := gen.DefaultHist()
	h.MaxOps, h.SubDepth = 6, 1
	h.Redec, h.Move, h.Reset, h.Reuse = 0, 0, 1, 0
	h.Enc.Unknown, h.Enc.MaxRecs, h.Enc.Few = 0, 6, true
	if gen.Pct(t, 40) {
		h.MaxOps, h.Reach, h.ReachAt = 8, 60, reachAt
	}
	return hist.Case{S: s, M: 0, Ops: gen.Ops(t, &s, 0, h)}
}

func runGiant(c *hist.Case, o *eng.Obs) error {
	s := &c.S
	if c.S.Name != "" || c.M != 0 || len(s.Msgs) != 2 {
		return nil
	}
	own := map[int]bool{}
	for _, f := range s.Msgs[0].F {
		if f.N < 1 || f.N > ref.MaxFieldNumber || f.K == ref.Message && f.M != 1 {
			return nil
		}
		own[f.N] = true
	}
	t, err := tgt.NewGiant(s, 0, 0, eng.Dir)
	if err != nil {
		o.Label("no address space")
		return nil
	}
	o.Label("tag lengths up to %d", len(ref.AppendTag(nil, s.Msgs[0].Max(), 0, 0)))
	o.LabelIf(s.Msgs[0].Max() >= 1<<28, "beyond 2^28")
	m := &hist.M{T: t, St: ref.State{}, Built: true}
	if err := m.Check(); err != nil {
		return fmt.Errorf("fresh message: %w", err)
	}
	// Beside the table, whose size is given by the largest number, memory depends
	// on what the message holds only.
	before := allocated()
	for i := range c.Ops {
		op := &c.Ops[i]
		for _, r := range op.Recs {
			if op.K == "dec" && !own[r.N] {
				return nil
			}
		}
		if err := m.Step(op); err != nil {
			return fmt.Errorf("step %d (%s field %d): %w", i, op.K, op.F, err)
		}
	}
	if m.Stats.Sets+m.Stats.Appends > 0 {
		o.NonTrivial()
	}
	o.LabelIf(m.Stats.MaxLen > 1<<16, "message beyond 64 KiB")
	if n := allocated() - before; n > 256<<20 {
		return eng.Measured("%d bytes were allocated for a message of at most %d bytes", n, m.Stats.MaxLen)
	}
	t2, err := tgt.NewGiant(s, 0, 1, eng.Dir)
	if err != nil || m.St == nil {
		return nil
	}
	if err := t2.Decode(append([]byte{}, t.Encode()...)); err != nil {
		return fmt.Errorf("decoding the result: %v", err)
	}
	if err := tgt.CheckState(t2, m.St, m.Skip, ""); err != nil {
		return fmt.Errorf("decoding the result: %w", err)
	}
	return nil
}

// ---- C10: deep nesting ----

// DeepCase is a chain of embedded messages, from the inside out.
type DeepCase struct {
	S      ref.Schema `json:"s"`
	Levels []Level    `json:"levels"`
	// Times repeats all levels but the first.
	Times int `json:"times,omitempty"`
}

// Level is a message holding the one inside it in field F.
type Level struct {
	M      int       `json:"m"`
	F      int       `json:"f"`
	Before []ref.Rec `json:"before,omitempty"`
	After  []ref.Rec `json:"after,omitempty"`
}

func genDeep(t *rapid.T) DeepCase {
	var c DeepCase
	if gen.Pct(t, 40) {
		c.S = ref.Schema{Name: "test"}
	} else if gen.Pct(t, 40) {
		c.S = ref.Schema{Name: gen.Of(t, "fresh0", "fresh1", "fresh2", "fresh6")}
	} else {
		c.S = gen.Schema(t, gen.DefaultSchema())
		// A chain needs a way back.
		x := &c.S.Msgs[0]
		for x.Field(21) != nil || x.Field(22) != nil {
			x = &c.S.Msgs[len(c.S.Msgs)-1]
			if x.Field(21) != nil || x.Field(22) != nil {
				x.F = nil
			}
		}
		mi := 0
		for i := range c.S.Msgs {
			if &c.S.Msgs[i] == x {
				mi = i
			}
		}
		x.F = append(x.F, ref.Field{N: 21, Name: "f21", K: ref.Message, M: mi}, ref.Field{N: 22, Name: "f22", K: ref.Message, M: mi, Rep: true})
	}
	s := c.S.Resolve()
	e := gen.Default()
	e.MaxRecs, e.Depth, e.Few, e.MaxBlob = 3, 1, true, 12
	mi := 0
	for i, m := range s.Msgs {
		for _, f := range m.F {
			if f.K == ref.Message && f.M == i {
				mi = i
			}
		}
	}
	// From the outside in: every level continues in one of its message fields.
	n := gen.Of(t, 1, 2, 3, 5, 8, 12)
	var from []Level
	for i := 0; i < n; i++ {
		m := &s.Msgs[mi]
		var fs []*ref.Field
		for k := range m.F {
			if m.F[k].K == ref.Message && (i < n-1 || m.F[k].M == from0(from, mi)) {
				fs = append(fs, &m.F[k])
			}
		}
		if len(fs) == 0 {
			break
		}
		f := fs[gen.Int(t, 0, len(fs)-1)]
		l := Level{M: mi, F: f.N}
		drop := func(recs []ref.Rec) (out []ref.Rec) {
			for _, r := range recs {
				if r.N != f.N {
					out = append(out, r)
				}
			}
			return out
		}
		if gen.Pct(t, 60) {
			l.Before = drop(gen.Recs(t, s, mi, e))
		}
		if gen.Pct(t, 60) {
			l.After = drop(gen.Recs(t, s, mi, e))
		}
		from = append(from, l)
		mi = f.M
	}
	c.Levels = from
	if len(from) > 0 && mi == from[0].M {
		c.Times = gen.Of(t, 0, 0, 1, 5, 20, 40)
	}
	return c
}

func from0(ls []Level, mi int) int {
	if len(ls) > 0 {
		return ls[0].M
	}
	return mi
}

func runDeep(c *DeepCase, o *eng.Obs) error {
	s := c.S.Resolve()
	var ls []Level
	for k := 0; k <= c.Times; k++ {
		ls = append(ls, c.Levels...)
	}
	next := -1
	for _, l := range ls {
		if l.M >= len(s.Msgs) || next >= 0 && l.M != next {
			return nil
		}
		f := s.Msgs[l.M].Field(l.F)
		if f == nil || f.K != ref.Message || f.M >= len(s.Msgs) {
			return nil
		}
		next = f.M
	}
	if len(ls) == 0 || len(ls) > 1000 {
		return nil
	}
	// Encode, from the inside out; inner[i] is what level i's field holds.
	inner := make([][]byte, len(ls)+1)
	for i := len(ls) - 1; i >= 0; i-- {
		l := &c.Levels[i%len(c.Levels)]
		m := &s.Msgs[l.M]
		recs := append(append([]ref.Rec{}, l.Before...), ref.Rec{N: l.F, WT: ref.WLen, Blob: ref.Blob{B: inner[i+1]}})
		recs = dropSplits(m, append(recs, l.After...))
		inner[i] = ref.EncodeRecs(nil, recs)
	}
	o.LabelIf(len(ls) >= 20, "20 levels or more")
	o.LabelIf(len(ls) >= 64, "64 levels or more")
	o.LabelIf(len(ls) >= 128, "128 levels or more")
	if len(ls) >= 5 {
		o.NonTrivial()
	}
	// Downwards.
	t := tgt.New(s, ls[0].M)
	if err := t.Decode(append([]byte{}, inner[0]...)); err != nil {
		return fmt.Errorf("Decode of a well-formed encoding with %d levels: %v", len(ls), err)
	}
	for i := range ls {
		spans, err := ref.Parse(inner[i])
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		st := ref.StateOf(t.Desc(), spans)
		f := t.Desc().Field(ls[i].F)
		for k := range t.Desc().F {
			g := &t.Desc().F[k]
			if g != f && g.Accessible() {
				if err := tgt.CheckField(t, g, st, fmt.Sprintf("level %d: ", i)); err != nil {
					return err
				}
			}
		}
		sub := t.New(f.M)
		var ok bool
		if f.Rep {
			ok, err = t.Iter(f).Next(sub)
		} else {
			ok, err = t.GetMsg(f, sub)
		}
		if !ok || err != nil {
			return fmt.Errorf("level %d: %v, %v", i, ok, err)
		}
		if !bytes.Equal(sub.Encode(), inner[i+1]) {
			return fmt.Errorf("level %d: the embedded message holds %s, want %s", i, ref.Short(sub.Encode()), ref.Short(inner[i+1]))
		}
		t = sub
	}
	// Built, from the inside out.
	cur, want := t.New(t.MsgIndex()), []byte{}
	if err := cur.Decode(append([]byte{}, inner[len(ls)]...)); err != nil {
		return fmt.Errorf("innermost: %v", err)
	}
	want = append(want, inner[len(ls)]...)
	for i := len(ls) - 1; i >= 0; i-- {
		up := tgt.New(s, ls[i].M)
		f := up.Desc().Field(ls[i].F)
		if f.Rep {
			up.Append(f, cur)
		} else {
			up.SetMsg(f, cur)
		}
		want = ref.AppendField(nil, f.N, ref.Message, 0, want)
		if !bytes.Equal(up.Encode(), want) {
			return fmt.Errorf("built up to level %d: %s, want %s", i, ref.Short(up.Encode()), ref.Short(want))
		}
		cur = up
	}
	for i := range ls {
		f := cur.Desc().Field(ls[i].F)
		sub := cur.New(f.M)
		var ok bool
		var err error
		if f.Rep {
			ok, err = cur.Iter(f).Next(sub)
		} else {
			ok, err = cur.GetMsg(f, sub)
		}
		if !ok || err != nil {
			return fmt.Errorf("built, level %d: %v, %v", i, ok, err)
		}
		cur = sub
	}
	if !bytes.Equal(cur.Encode(), inner[len(ls)]) {
		return fmt.Errorf("built: the innermost message holds %s, want %s", ref.Short(cur.Encode()), ref.Short(inner[len(ls)]))
	}
	return nil
}
