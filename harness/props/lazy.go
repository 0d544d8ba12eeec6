package props

import (
	"bytes"
	"fmt"
	"sync"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// ---- C24: laziness ----

// LazyCase is an encoding put on pages of its own, those inside contents that
// must not be looked at made inaccessible.
type LazyCase struct {
	S    ref.Schema `json:"s"`
	M    int        `json:"m"`
	Recs []ref.Rec  `json:"recs"`
	Off  int        `json:"off"`
	// Bad is put behind the message, to make it malformed.
	Bad []byte `json:"bad,omitempty"`
	// Cut drops so many bytes of the message's end.
	Cut int `json:"cut,omitempty"`
}

// fatten makes many contents span pages.
func fatten(t *rapid.T, recs []ref.Rec, pct int) {
	for i := range recs {
		r := &recs[i]
		if r.WT != ref.WLen {
			continue
		}
		if r.HasSub {
			fatten(t, r.Sub, pct)
			if gen.Pct(t, pct/2) {
				// An unknown field makes the embedded message itself long.
				r.Sub = append(r.Sub, ref.Rec{N: 2047, WT: ref.WLen, Blob: ref.Blob{Fill: 8192 + gen.Int(t, 0, 9000)}})
			}
		} else if gen.Pct(t, pct) {
			r.Fill, r.Salt = 8192+gen.Int(t, 0, 9000), byte(gen.Int(t, 0, 255))
			if gen.Pct(t, 25) {
				// Closed from the first byte to the last, if it is aligned.
				r.Fill = pageSize * gen.Int(t, 1, 3)
			}
		}
	}
}

func genLazy(t *rapid.T) LazyCase {
	var c LazyCase
	c.S, c.M = gen.Type(t, gen.DefaultSchema())
	s := c.S.Resolve()
	e := gen.Default()
	e.MaxRecs, e.Depth = 9, 2
	c.Recs = gen.Recs(t, s, c.M, e)
	fatten(t, c.Recs, 50)
	c.Off = gen.Int(t, 0, 4095)
	if gen.Pct(t, 12) {
		if gen.Pct(t, 50) {
			c.Bad = badTail(t)
		} else {
			c.Cut = gen.Of(t, 1, 2, gen.Int(t, 1, 9), gen.Int(t, 1, 9000))
		}
	}
	if gen.Pct(t, 60) {
		// Align a content with the pages, so that its first byte, or its last one,
		// is closed too.
		b := ref.EncodeRecs(nil, c.Recs)
		if edges := contentEdges(s, c.M, b, b, nil); len(edges) > 0 {
			c.Off = (pageSize - edges[gen.Int(t, 0, len(edges)-1)]%pageSize) % pageSize
		}
	}
	return c
}

// badTail is a record that makes a message malformed.
func badTail(t *rapid.T) []byte {
	// A group, a reserved wire type, a varint cut short or too long, a length
	// past the end.
	n := gen.Int(t, 1, 15)
	return gen.Of(t, []byte{byte(n<<3 | 3)}, []byte{byte(n<<3 | 4), 0}, []byte{byte(n<<3 | 6), 0}, []byte{byte(n<<3 | 7), 1},
		[]byte{byte(n << 3), 0x80}, []byte{0x80}, []byte{byte(n<<3 | 2), 9, 1, 2}, []byte{byte(n<<3 | 2), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1},
		[]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 0}, []byte{byte(n<<3 | 5), 1, 2}, []byte{byte(n<<3 | 1), 1, 2, 3, 4, 5, 6, 7})
}

// contentEdges lists where in b the contents of the message in part begin and end.
func contentEdges(s *ref.Schema, mi int, b, part []byte, edges []int) []int {
	spans, err := ref.Parse(part)
	if err != nil {
		return edges
	}
	for _, sp := range spans {
		if sp.WT != ref.WLen || len(sp.Payload) == 0 {
			continue
		}
		lo := int(uintptr(unsafe.Pointer(&sp.Payload[0])) - uintptr(unsafe.Pointer(&b[0])))
		// Beginnings more often: who looks, looks there first.
		edges = append(edges, lo, lo, lo+len(sp.Payload))
		if f := s.Msgs[mi].Field(sp.N); f != nil && f.K == ref.Message {
			edges = contentEdges(s, f.M, b, sp.Payload, edges)
		}
	}
	return edges
}

const (
	pageSize   = 4096
	regionSize = 1 << 20
)

var (
	regionOnce sync.Once
	region     []byte
	// messageEnd is where the message in the region ends.
	messageEnd int
)

func lazyRegion() []byte {
	regionOnce.Do(func() {
		if syscall.Getpagesize() != pageSize {
			return
		}
		b, err := syscall.Mmap(-1, 0, regionSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err == nil {
			region = b
		}
	})
	return region
}

// at is where b begins in the region.
func at(b []byte) int {
	return int(uintptr(unsafe.Pointer(unsafe.SliceData(b))) - uintptr(unsafe.Pointer(unsafe.SliceData(region))))
}

func openRegion() {
	if err := syscall.Mprotect(region, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(eng.Inconclusive{Err: err})
	}
}

// closePages makes the pages that lie wholly inside b, or have nothing but the
// message's end in common with others, inaccessible.
func closePages(b []byte) (n int) {
	if len(b) == 0 {
		return 0
	}
	lo, hi := at(b), at(b)+len(b)
	lo = (lo + pageSize - 1) / pageSize * pageSize
	if hi == messageEnd {
		hi += pageSize - 1
	}
	hi = hi / pageSize * pageSize
	if hi <= lo {
		return 0
	}
	if err := syscall.Mprotect(region[lo:hi], syscall.PROT_NONE); err != nil {
		panic(eng.Inconclusive{Err: err})
	}
	return (hi - lo) / pageSize
}

// under runs f while the contents of spans are closed, except for the one at
// open, whose own contents are closed instead (sub, its parsed form).
func under(spans []ref.Span, open int, sub []ref.Span, outer [][]byte, f func() error) (closed int, err error) {
	for _, b := range outer {
		closed += closePages(b)
	}
	for i := range spans {
		if spans[i].WT == ref.WLen && i != open {
			closed += closePages(spans[i].Payload)
		}
	}
	for i := range sub {
		if sub[i].WT == ref.WLen {
			closed += closePages(sub[i].Payload)
		}
	}
	defer openRegion()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(eng.Inconclusive); ok {
				panic(r)
			}
			err = fmt.Errorf("looked at contents it has no business with (or panicked): %v", r)
		}
	}()
	return closed, f()
}

type lazy struct {
	o      *eng.Obs
	closed int
}

// message checks the accessors of t, decoded from what spans were parsed from.
// outer are contents outside of the message.
func (l *lazy) message(t tgt.Target, spans []ref.Span, outer [][]byte, depth int, path string) error {
	m := t.Desc()
	st := ref.StateOf(m, spans)
	taint := ref.Tainted(m, spans)
	for i := range m.F {
		f := &m.F[i]
		if !f.Accessible() || taint[f.N] {
			continue
		}
		where := path + f.Name
		if f.K != ref.Message {
			var v tgt.Val
			n, err := under(spans, -1, nil, outer, func() error {
				v = t.Get(f)
				if f.K.WireType() == ref.WLen && len(v.Str)+len(v.Byt) != len(st[f.N].B) {
					return fmt.Errorf("accessor returned %d bytes, want %d", len(v.Str)+len(v.Byt), len(st[f.N].B))
				}
				return nil
			})
			l.closed += n
			if err != nil {
				return fmt.Errorf("accessor of %s: %w", where, err)
			}
			if !tgt.SameScalar(v, scalar(f, st[f.N])) {
				return fmt.Errorf("accessor of %s returned the wrong value", where)
			}
			continue
		}
		// Occurrences, in order.
		var occ []int
		for k := range spans {
			if spans[k].N == f.N && spans[k].WT == ref.WLen {
				occ = append(occ, k)
			}
		}
		if !f.Rep {
			if len(occ) > 1 {
				continue
			}
			k, want := -1, len(occ) == 1
			if want {
				k = occ[0]
			}
			sub := t.New(f.M)
			if err := l.sub(spans, k, outer, sub, depth, where, func() (bool, error) { return t.GetMsg(f, sub) }, want); err != nil {
				return err
			}
			continue
		}
		it := t.Iter(f)
		for _, k := range append(occ, -1) {
			sub := t.New(f.M)
			if err := l.sub(spans, k, outer, sub, depth, where, func() (bool, error) { return it.Next(sub) }, k >= 0); err != nil {
				return err
			}
		}
	}
	n, err := under(spans, -1, nil, outer, func() error { t.Encode(); return nil })
	l.closed += n
	return err
}

func (l *lazy) sub(spans []ref.Span, k int, outer [][]byte, sub tgt.Target, depth int, where string, get func() (bool, error), want bool) error {
	var inner []ref.Span
	var perr error
	if k >= 0 {
		inner, perr = ref.Parse(spans[k].Payload)
		if perr != nil || tgt.Unspecified(inner) {
			inner = nil
		}
	}
	var ok bool
	var derr error
	n, err := under(spans, k, inner, outer, func() error { ok, derr = get(); return nil })
	l.closed += n
	if err != nil {
		return fmt.Errorf("accessor of %s: %w", where, err)
	}
	if ok != want {
		return fmt.Errorf("accessor of %s: present=%v, want %v", where, ok, want)
	}
	if perr != nil || k < 0 || inner == nil && len(spans[k].Payload) > 0 {
		return nil
	}
	if derr != nil {
		return fmt.Errorf("accessor of %s: %v", where, derr)
	}
	if depth <= 0 {
		return nil
	}
	l.o.Label("embedded message read")
	rest := append([][]byte{}, outer...)
	for i := range spans {
		if i != k && spans[i].WT == ref.WLen {
			rest = append(rest, spans[i].Payload)
		}
	}
	return l.message(sub, inner, rest, depth-1, where+".")
}

func scalar(f *ref.Field, v ref.Val) tgt.Val {
	switch f.K {
	case ref.String:
		return tgt.Val{Str: string(v.B)}
	case ref.Bytes:
		return tgt.Val{Byt: v.B}
	}
	return tgt.Val{U: v.U}
}

func runLazy(c *LazyCase, o *eng.Obs) error {
	s := c.S.Resolve()
	if c.M >= len(s.Msgs) || c.Off < 0 || c.Off >= pageSize {
		return nil
	}
	reg := lazyRegion()
	if reg == nil {
		return eng.Inconclusive{Err: fmt.Errorf("no region of pages of %d bytes", pageSize)}
	}
	b := ref.EncodeRecs(nil, c.Recs)
	bad := len(c.Bad) > 0 || c.Cut > 0
	whole := b
	b = append(b[:max(0, len(b)-max(0, c.Cut)):len(b)], c.Bad...)
	if c.Off+len(b) > len(reg) {
		return nil
	}
	messageEnd = c.Off + len(b)
	if bad {
		messageEnd = -1
	}
	openRegion()
	copy(reg[c.Off:], b)
	buf := reg[c.Off : c.Off+len(b) : c.Off+len(b)]
	spans, perr := ref.Parse(buf)
	if bad && perr != nil {
		// The content that was cut, as far as it is there, is not to be read either.
		var outer [][]byte
		if full, err := ref.Parse(whole); err == nil && len(c.Bad) == 0 && len(spans) < len(full) {
			if sp := full[len(spans)]; sp.WT == ref.WLen && sp.End-len(sp.Payload) < len(buf) {
				outer = append(outer, buf[sp.End-len(sp.Payload):])
			}
		}
		t := tgt.New(s, c.M)
		n, err := under(spans, -1, nil, outer, func() error {
			if t.Decode(buf) == nil {
				return fmt.Errorf("a malformed encoding was accepted")
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("Decode of a malformed encoding: %w", err)
		}
		if n > 0 {
			o.NonTrivial()
		}
		o.LabelIf(n > 0, "pages closed during a failing Decode")
		return nil
	}
	if perr != nil {
		return fmt.Errorf("harness: %v", perr)
	}
	t := tgt.New(s, c.M)
	n, err := under(spans, -1, nil, nil, func() error {
		if err := t.Decode(buf); err != nil {
			return fmt.Errorf("Decode of a well-formed encoding failed: %v", err)
		}
		return nil
	})
	if err != nil {
		return fmt.Errorf("Decode: %w", err)
	}
	if n > 0 && len(spans) > 1 {
		o.NonTrivial()
	}
	o.LabelIf(n > 0, "pages closed during Decode")
	l := &lazy{o: o}
	if err := l.message(t, spans, nil, 3, ""); err != nil {
		return err
	}
	o.LabelIf(l.closed > 0, "pages closed during reads")
	if !bytes.Equal(b, buf) {
		return fmt.Errorf("the encoding was modified")
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C24", Parts: []*eng.Part{
		eng.NewPart("lazy", 320000, 5600000, "well-formed encodings with contents that span pages, those pages closed to all access while Decode and the accessors of other fields run; non-trivial: pages were closed during Decode and there are other fields",
			genLazy, runLazy),
	}, Assumptions: []string{"contents are seen to be read only where they span whole pages of memory or are the message's last", "setters may move contents and are not covered"}})
}
