// Package drv is the body of the programs that C18 links with freshly generated
// code: it runs histories and values on the generated types.
package drv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/hist"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// Value is a message value, to be built with setters in the order of the
// records; Enc is another implementation's encoding of it.
type Value struct {
	M    int       `json:"m"`
	Recs []ref.Rec `json:"recs"`
	Enc  []byte    `json:"enc,omitempty"`
}

// Pkg is one generated package and what to do with it.
type Pkg struct {
	Msgs  []ref.Msg   `json:"msgs"`
	Hists []hist.Case `json:"hists,omitempty"`
	Vals  []Value     `json:"vals,omitempty"`
}

// Fail is what went wrong; Hist or Val is -1 if it's not about one.
type Fail struct {
	Pkg  int    `json:"pkg"`
	Hist int    `json:"hist"`
	Val  int    `json:"val"`
	Err  string `json:"err"`
}

// Out is what the program prints.
type Out struct {
	Fail *Fail `json:"fail,omitempty"`
	// Built are the encodings of the values built.
	Built [][][]byte   `json:"built,omitempty"`
	Steps int          `json:"steps"`
	St    []hist.Stats `json:"st,omitempty"`
}

// Exit codes.
const (
	ExitFail = 10
	ExitHang = 11
)

func cpu() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// CPULimit per history or value, in seconds.
const CPULimit = 25

// Main runs the file named by the first argument.
func Main(regs []map[string]func() interface{}) {
	debug.SetPanicOnFault(true)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var pkgs []Pkg
	if err := json.Unmarshal(b, &pkgs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cur atomic.Pointer[Fail]
	go func() {
		var last *Fail
		start := 0.0
		for range time.Tick(200 * time.Millisecond) {
			if f := cur.Load(); f != last {
				last, start = f, cpu()
			} else if f != nil && cpu()-start > CPULimit {
				g := *f
				g.Err = "too much CPU time was used (endless loop?)"
				emit(&Out{Fail: &g})
				os.Exit(ExitHang)
			}
		}
	}()
	out := &Out{}
	fail := func(f Fail, err error) {
		f.Err = err.Error()
		emit(&Out{Fail: &f})
		os.Exit(ExitFail)
	}
	for pi := range pkgs {
		p := &pkgs[pi]
		at := Fail{Pkg: pi, Hist: -1, Val: -1}
		sch := ref.Schema{Name: "gen", Msgs: p.Msgs}
		lib, err := tgt.NewLib(&sch, tgt.Registry(regs[pi]))
		if err != nil {
			fail(at, err)
		}
		tgt.Override = lib
		for i := range p.Hists {
			at := at
			at.Hist = i
			cur.Store(&at)
			c := hist.Case{S: sch, M: p.Hists[i].M, Ops: p.Hists[i].Ops}
			var st *hist.Stats
			err := guard(func() (err error) { st, err = hist.Run(&c); return err })
			if err != nil {
				fail(at, err)
			}
			out.St = append(out.St, *st)
			out.Steps += len(c.Ops)
		}
		var built [][]byte
		for i := range p.Vals {
			at := at
			at.Val = i
			cur.Store(&at)
			err := guard(func() error {
				b, err := value(lib, &p.Vals[i])
				built = append(built, b)
				return err
			})
			if err != nil {
				fail(at, err)
			}
			out.Steps += len(p.Vals[i].Recs)
		}
		out.Built = append(out.Built, built)
	}
	emit(out)
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := debug.Stack()
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return f()
}

func emit(o *Out) {
	b, _ := json.Marshal(o)
	os.Stdout.Write(append(b, '\n'))
}

func build(lib *tgt.Lib, mi int, recs []ref.Rec) tgt.Target {
	t := lib.New(mi)
	for i := range recs {
		r := &recs[i]
		f := t.Desc().Field(r.N)
		if f == nil || !f.Accessible() {
			continue
		}
		if f.K == ref.Message {
			sub := build(lib, f.M, r.Sub)
			if f.Rep {
				t.Append(f, sub)
			} else {
				t.SetMsg(f, sub)
			}
			continue
		}
		v, _ := hist.ValOf(f, &hist.Op{U: ref.FromWire(f.K, r.U), Blob: r.Blob})
		t.Set(f, v)
	}
	return t
}

func value(lib *tgt.Lib, v *Value) ([]byte, error) {
	if v.M >= len(lib.Sch.Msgs) {
		return nil, nil
	}
	t := build(lib, v.M, v.Recs)
	b := append([]byte{}, t.Encode()...)
	if want := ref.EncodeRecs(nil, v.Recs); !bytes.Equal(b, want) {
		// Built in this order, each field canonical: nothing else is possible
		// unless the order is not kept, which is allowed.
		if _, err := ref.Parse(b); err != nil {
			return b, fmt.Errorf("what was built is malformed: %v: %s", err, ref.Short(b))
		}
		en := func(u uint64) string { return fmt.Sprint(u) }
		if g, w := ref.Text(lib.Sch, v.M, b, en), ref.Text(lib.Sch, v.M, want, en); g != w {
			return b, fmt.Errorf("what was built means something else: got\n%s\nwant\n%s", g, w)
		}
	}
	if v.Enc == nil {
		return b, nil
	}
	spans, err := ref.Parse(v.Enc)
	if err != nil {
		return b, fmt.Errorf("harness: the other implementation's encoding is malformed: %v", err)
	}
	for k, t := range []tgt.Target{lib.New(v.M), t} {
		if err := t.Decode(append([]byte{}, v.Enc...)); err != nil {
			return b, fmt.Errorf("Decode of the other implementation's encoding (%d): %v", k, err)
		}
		if err := tgt.CheckSpans(t, spans, ""); err != nil {
			return b, fmt.Errorf("reading the other implementation's encoding (%d): %w", k, err)
		}
	}
	return b, nil
}
