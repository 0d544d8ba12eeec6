package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"

	"github.com/danhhz/zeropb/generate"
	"pgregory.net/rapid"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

// ---- C26: StringTree ----

// TreeCase is a series of Write calls on a writer that accepts Room bytes, then
// fails (negative: never).
type TreeCase struct {
	Indent string      `json:"indent"`
	Calls  [][]TreeArg `json:"calls"`
	Room   int         `json:"room"`
	// Swallow makes the failing call accept nothing, instead of what fits.
	Swallow bool `json:"swallow,omitempty"`
	// Err selects the error that the writer fails with.
	Err int `json:"err,omitempty"`
	// Writer is the kind of writer.
	Writer string `json:"writer,omitempty"`
	// Twin uses a second tree in turns with the first.
	Twin bool `json:"twin,omitempty"`
}

// treeErrs are what the writer fails with. Some of them have a meaning elsewhere.
var treeErrs = []error{errors.New("no more room"), io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress,
	os.ErrClosed, os.ErrNotExist, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.Errno(0),
	context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull, net.ErrClosed, fmt.Errorf("wrapped: %w", io.EOF),
	&os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE}, errors.New(""), emptyErr{}, (*nilErr)(nil), errors.Join(io.EOF, io.ErrShortWrite)}

type emptyErr struct{}

func (emptyErr) Error() string { return "EOF" }

// Temporary is what net.Error has.
func (emptyErr) Temporary() bool { return true }

// Timeout is, too.
func (emptyErr) Timeout() bool { return true }

type nilErr struct{}

func (*nilErr) Error() string { return "<nil>" }

// TreeArg is one argument.
type TreeArg struct {
	K string `json:"k"` // indent, bytes, string, stringer, int32
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
	// Times repeats S.
	Times int `json:"times,omitempty"`
}

type treeStringer string

func (s treeStringer) String() string { return string(s) }

// Stringers of kinds that Write knows by another name, whose text differs from
// their value's.
type (
	bytesStringer  []byte
	int32Stringer  int32
	intStringer    int
	structStringer struct{ a, b string }
)

func (s bytesStringer) String() string   { return "[" + string(s) + "]" }
func (s int32Stringer) String() string   { return "n" + strconv.Itoa(int(s)) }
func (s intStringer) String() string     { return "\n" + strconv.Itoa(int(s)) + "\n" }
func (s *structStringer) String() string { return s.a + s.b }
func (s *structStringer) Error() string  { return "error " + s.b }

func (a *TreeArg) text(indent string) (interface{}, string) {
	s := a.S
	if a.Times > 0 && a.Times < 1<<14 {
		s = strings.Repeat(s, a.Times)
	}
	switch a.K {
	case "indent":
		i, t := generate.StringTreeIndent(0), ""
		n := a.N % 1000
		for k := 0; k < n; k++ {
			i, t = i.Next(), t+indent
		}
		return i, t
	case "bytes":
		return []byte(s), s
	case "stringer":
		switch a.N {
		case 1:
			return bytesStringer(s), "[" + s + "]"
		case 2:
			return int32Stringer(len(s)), "n" + strconv.Itoa(len(s))
		case 3:
			return intStringer(len(s)), "\n" + strconv.Itoa(len(s)) + "\n"
		case 4:
			return &structStringer{s, a.S}, s + a.S
		case 5:
			// An enum of generated code.
			return generate.FieldDescriptorProto_TYPE_SINT64, "TYPE_SINT64"
		}
		return treeStringer(s), s
	case "int32":
		return int32(a.N), strconv.FormatInt(int64(int32(a.N)), 10)
	}
	return s, s
}

// limited accepts room bytes.
type limited struct {
	got     []byte
	room    int
	swallow bool
	err     error
	failed  int
	after   int // calls after the first failure
}

func (w *limited) Write(p []byte) (int, error) {
	if w.failed > 0 {
		w.after++
		w.failed++
		return 0, fmt.Errorf("error %d", w.failed)
	}
	if w.room >= 0 && len(w.got)+len(p) > w.room {
		n := w.room - len(w.got)
		if w.swallow {
			n = 0
		}
		w.got = append(w.got, p[:n]...)
		w.failed++
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// limitedString has a WriteString method, as many writers have.
type limitedString struct{ limited }

func (w *limitedString) WriteString(s string) (int, error) { return w.limited.Write([]byte(s)) }

func genTree(t *rapid.T) TreeCase {
	c := TreeCase{Indent: gen.Of(t, "  ", "\t", "", " ", "é\x00", "....")}
	c.Calls = gen.List(t, 0, gen.Of(t, 3, 8, 30), func(t *rapid.T) []TreeArg {
		return gen.List(t, 0, 6, func(t *rapid.T) TreeArg {
			a := TreeArg{K: gen.Of(t, "indent", "bytes", "string", "string", "stringer", "int32")}
			switch a.K {
			case "indent":
				a.N = gen.Of(t, 0, 1, 2, 3, gen.Int(t, 0, 20), gen.Int(t, 0, 300))
			case "int32":
				a.N = int(int32(gen.Scalar(t, ref.Int32)))
			default:
				if a.K == "stringer" && gen.Pct(t, 50) {
					a.N = gen.Int(t, 1, 5)
				}
				a.S = gen.Of(t, "", "\n", "x", "%d", "a\nb\n", "\xff\x00", "%s%!", string(gen.Blob(t, 40, 0, true).Bytes()), string(gen.Blob(t, 40, 0, false).Bytes()))
				if gen.Pct(t, 4) && gen.Pct(t, 30) {
					a.Times = gen.Of(t, 2, 10, 300, 2000)
				}
			}
			return a
		})
	})
	total := 0
	for _, call := range c.Calls {
		for i := range call {
			_, s := call[i].text(c.Indent)
			total += len(s)
		}
	}
	c.Room = gen.Of(t, -1, -1, 0, total, total-1, gen.Int(t, 0, total))
	c.Swallow = gen.Pct(t, 40)
	if gen.Pct(t, 60) {
		c.Err = gen.Int(t, 0, len(treeErrs)-1)
	}
	if gen.Pct(t, 40) {
		c.Writer = gen.Of(t, "WriteString", "WriteString", "strings.Builder", "bytes.Buffer")
	}
	c.Twin = gen.Pct(t, 20)
	return c
}

func runTree(c *TreeCase, o *eng.Obs) error {
	ws := &limitedString{limited{room: max(c.Room, -1), swallow: c.Swallow, err: treeErrs[c.Err%len(treeErrs)]}}
	w := &ws.limited
	st := generate.NewStringTree(w, c.Indent)
	var sb strings.Builder
	var bb bytes.Buffer
	got := func() []byte { return w.got }
	switch c.Writer {
	case "WriteString":
		st = generate.NewStringTree(ws, c.Indent)
	case "strings.Builder":
		st = generate.NewStringTree(&sb, c.Indent)
		got = func() []byte { return []byte(sb.String()) }
		w.room = -1
	case "bytes.Buffer":
		st = generate.NewStringTree(&bb, c.Indent)
		got = bb.Bytes
		w.room = -1
	}
	// Another tree gets the same calls, less their first arguments.
	w2 := &limited{room: -1}
	st2 := generate.NewStringTree(w2, c.Indent)
	var want2 []byte
	if err := st.Error(); err != nil {
		return fmt.Errorf("a fresh tree reports %v", err)
	}
	var want []byte
	full := false
	for i, call := range c.Calls {
		args := make([]interface{}, len(call))
		type arg struct{ b, was []byte }
		var bs []arg
		for k := range call {
			var s string
			args[k], s = call[k].text(c.Indent)
			if b, ok := args[k].([]byte); ok {
				bs = append(bs, arg{b, append([]byte{}, b...)})
			}
			want = append(want, s...)
			if c.Twin && k > 0 {
				want2 = append(want2, s...)
			}
		}
		st.Write(args...)
		if c.Twin && len(args) > 0 {
			st2.Write(args[1:]...)
		}
		for _, a := range bs {
			if !bytes.Equal(a.b, a.was) {
				return fmt.Errorf("call %d changes its argument", i)
			}
			for k := range a.b {
				a.b[k] ^= 0x55 // what was written stays
			}
		}
		full = w.room >= 0 && len(want) > w.room
		switch {
		case !full && st.Error() != nil:
			return fmt.Errorf("call %d: Error is %v, nothing failed", i, st.Error())
		case full && st.Error() != w.err:
			return fmt.Errorf("call %d: Error is %v, want the first error, %v", i, st.Error(), w.err)
		case !full && !bytes.Equal(got(), want):
			return fmt.Errorf("call %d: written so far %q, want %q", i, clip(got()), clip(want))
		case !bytes.Equal(w2.got, want2) || st2.Error() != nil:
			return fmt.Errorf("call %d: another tree has written %q, want %q; its error: %v", i, clip(w2.got), clip(want2), st2.Error())
		}
		if full && (!bytes.HasPrefix(want, w.got) || !w.swallow && len(w.got) != w.room) {
			return fmt.Errorf("call %d: before the error %q was written, want the first %d bytes of %q", i, clip(w.got), w.room, clip(want))
		}
		if w.after > 0 {
			return fmt.Errorf("call %d: it writes on after the error", i)
		}
	}
	o.LabelIf(full, "the writer failed")
	if len(want) > 0 && len(c.Calls) > 1 {
		o.NonTrivial()
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return append(append([]byte{}, b[:200]...), "..."...)
	}
	return b
}

func init() {
	eng.Register(&eng.Prop{ID: "C26", Parts: []*eng.Part{
		eng.NewPart("write", 800000, 14000000, "series of Write calls with arguments of every kind, on a writer that fails after a random number of bytes or never; after each call what was written and Error are compared with the texts' concatenation; non-trivial: several calls and some text",
			genTree, runTree),
	}})
}
