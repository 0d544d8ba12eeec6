package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/desc"
	"verif/harness/drv"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/hist"
	"verif/harness/ref"
)

// ---- C18: compiled generated code ----

// CompCase is a batch of proto files, each with histories or values.
type CompCase struct {
	P []CompPkg `json:"p"`
}

// CompPkg is one of them.
type CompPkg struct {
	F     desc.File   `json:"f"`
	Hists []hist.Case `json:"hists,omitempty"`
	Vals  []drv.Value `json:"vals,omitempty"`
}

func (c *CompCase) ok() bool {
	for i := range c.P {
		f := &c.P[i].F
		seen := map[string]bool{}
		for _, m := range f.Msgs {
			if seen[m.Name] || m.Name == "" {
				return false
			}
			seen[m.Name] = true
			nums, names := map[int]bool{}, map[string]bool{}
			for _, x := range m.F {
				if nums[x.N] || names[x.Name] || x.Name == "" || x.N < 1 || x.K == ref.Message && x.M >= len(f.Msgs) {
					return false
				}
				nums[x.N], names[x.Name] = true, true
			}
		}
		for _, h := range c.P[i].Hists {
			if h.M >= len(f.Msgs) {
				return false
			}
		}
		for _, v := range c.P[i].Vals {
			if v.M >= len(f.Msgs) {
				return false
			}
		}
	}
	return true
}

func compOpts() fileOpts { return fileOpts{1, 4, 9, 70000, true} }

// sweep sets every field once, in some order, with distinctive values.
func sweep(t *rapid.T, s *ref.Schema, mi int, h gen.HistOpts) []hist.Op {
	var ops []hist.Op
	m := &s.Msgs[mi]
	var idx []int
	for i := range m.F {
		if m.F[i].Accessible() {
			idx = append(idx, i)
		}
	}
	if len(idx) > 1 {
		idx = rapid.Permutation(idx).Draw(t, "order")
	}
	for _, i := range idx {
		f := &m.F[i]
		op := hist.Op{K: "set", F: f.N}
		switch {
		case f.K == ref.Message && f.Rep:
			op.K = "app"
			op.Recs = gen.Recs(t, s, f.M, h.Enc)
		case f.K == ref.Message:
			op.K = "setm"
			op.Recs = gen.Recs(t, s, f.M, h.Enc)
		case f.K == ref.String || f.K == ref.Bytes:
			op.Blob = ref.Blob{Fill: i + 1, Salt: byte(i * 17), A: f.K == ref.String}
		default:
			op.U = gen.Scalar(t, f.K)
			if op.U == 0 && gen.Pct(t, 70) {
				op.U = 1
			}
		}
		ops = append(ops, op)
	}
	return ops
}

func genComp(t *rapid.T, npkg, nhist int) CompCase {
	var c CompCase
	for i := 0; i < npkg; i++ {
		p := CompPkg{F: genFile(t, compOpts())}
		if gen.Pct(t, 30) {
			divide(t, &p.F, false)
		}
		s := &ref.Schema{Msgs: p.F.Msgs}
		h := gen.DefaultHist()
		h.MaxOps, h.Alias, h.RMW, h.Iter, h.BadDec, h.Down = 10, 2, 4, 2, 1, 4
		for mi := range s.Msgs {
			p.Hists = append(p.Hists, hist.Case{M: mi, Ops: sweep(t, s, mi, h)})
			for k := 0; k < nhist; k++ {
				p.Hists = append(p.Hists, hist.Case{M: mi, Ops: gen.Ops(t, s, mi, h)})
			}
		}
		c.P = append(c.P, p)
	}
	return c
}

// build trouble that is the generated code's fault.
type badCode struct {
	pkg int
	err error
}

func (b badCode) Error() string { return b.err.Error() }

// setupDriver finds the compiled packages that drivers are linked with.
func setupDriver(dir string) error {
	if _, err := os.Stat(filepath.Join(dir, "linkcfg")); err == nil {
		return nil
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}", "verif/harness/drv")
	cmd.Dir = filepath.Join(eng.Root, "harness")
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, se.String())
	}
	for _, c := range []string{"GOROOT", "GOTOOLDIR"} {
		b, err := exec.Command("go", "env", c).Output()
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, c), bytes.TrimSpace(b), 0o644); err != nil {
			return err
		}
	}
	// A program's import config needs every package by its real path.
	return os.WriteFile(filepath.Join(dir, "linkcfg"), out, 0o644)
}

func goTool(dir, tool string, args ...string) ([]byte, error) {
	td, err := os.ReadFile(filepath.Join(eng.Dir, "GOTOOLDIR"))
	if err != nil {
		return nil, eng.Inconclusive{Err: err}
	}
	cmd := exec.Command(filepath.Join(string(td), tool), args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	if err != nil && (!errors.As(err, &ee) || ee.ExitCode() < 0) {
		return out, eng.Inconclusive{Err: err}
	}
	return out, err
}

var genAt = regexp.MustCompile(`gen\d+\.go:`)

// buildDriver compiles the sources and links a program; it returns its name.
func buildDriver(dir string, srcs [][]string) (string, error) {
	base, err := os.ReadFile(filepath.Join(eng.Dir, "linkcfg"))
	if err != nil {
		return "", eng.Inconclusive{Err: err}
	}
	cfg := filepath.Join(eng.Dir, "linkcfg")
	link := string(base)
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"verif/harness/drv\"\n")
	var list strings.Builder
	for i, src := range srcs {
		f, err := parser.ParseFile(token.NewFileSet(), "gen.go", src[0], parser.PackageClauseOnly)
		if err != nil {
			return "", badCode{i, fmt.Errorf("the generated file is not valid Go: %v", err)}
		}
		pd := filepath.Join(dir, fmt.Sprintf("p%d", i))
		if err := os.MkdirAll(pd, 0o755); err != nil {
			return "", eng.Inconclusive{Err: err}
		}
		var reg strings.Builder
		fmt.Fprintf(&reg, "package %s\n\nfunc VerifRegistry_() map[string]func() interface{} {\n\treturn map[string]func() interface{}{\n", f.Name.Name)
		files, args := map[string]string{}, []string{"reg.go"}
		for k, src := range src {
			for _, n := range messageNames(src) {
				fmt.Fprintf(&reg, "\t\t%q: func() interface{} { return new(%s) },\n", n, n)
			}
			name := fmt.Sprintf("gen%d.go", k)
			files[name], args = src, append(args, name)
		}
		reg.WriteString("\t}\n}\n")
		files["reg.go"] = reg.String()
		for n, s := range files {
			if err := os.WriteFile(filepath.Join(pd, n), []byte(s), 0o644); err != nil {
				return "", eng.Inconclusive{Err: err}
			}
		}
		path := fmt.Sprintf("verif/gendrv/p%d", i)
		out, err := goTool(pd, "compile", append([]string{"-o", "p.a", "-p", path, "-complete", "-pack", "-lang=go1.23", "-importcfg", cfg}, args...)...)
		if err != nil {
			if errors.As(err, new(eng.Inconclusive)) {
				return "", err
			}
			if !genAt.Match(out) && !bytes.Contains(out, []byte("reg.go:")) {
				return "", eng.Inconclusive{Err: fmt.Errorf("compile: %v: %s", err, tail(out))}
			}
			return "", badCode{i, fmt.Errorf("the generated code does not compile: %s", tail(out))}
		}
		link += fmt.Sprintf("packagefile %s=%s\n", path, filepath.Join(pd, "p.a"))
		fmt.Fprintf(&main, "\tp%d %q\n", i, path)
		fmt.Fprintf(&list, "\t\tp%d.VerifRegistry_(),\n", i)
	}
	main.WriteString(")\n\nfunc main() {\n\tdrv.Main([]map[string]func() interface{}{\n" + list.String() + "\t})\n}\n")
	lc := filepath.Join(dir, "linkcfg")
	for n, s := range map[string]string{"main.go": main.String(), "linkcfg": link} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			return "", eng.Inconclusive{Err: err}
		}
	}
	if out, err := goTool(dir, "compile", "-o", "main.a", "-p", "main", "-complete", "-pack", "-importcfg", lc, "main.go"); err != nil {
		return "", eng.Inconclusive{Err: fmt.Errorf("compiling the driver: %v: %s", err, tail(out))}
	}
	exe := filepath.Join(dir, "driver")
	if out, err := goTool(dir, "link", "-o", exe, "-importcfg", lc, "-s", "-w", "-buildmode=exe", "main.a"); err != nil {
		return "", eng.Inconclusive{Err: fmt.Errorf("linking the driver: %v: %s", err, tail(out))}
	}
	return exe, nil
}

// methodReceivers lists the types that have all the methods, in source order.
func methodReceivers(f *ast.File, names ...string) []string {
	count := map[string]int{}
	var out []string
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || len(fd.Recv.List) != 1 {
			continue
		}
		t := fd.Recv.List[0].Type
		if st, ok := t.(*ast.StarExpr); ok {
			t = st.X
		}
		id, ok := t.(*ast.Ident)
		if !ok {
			continue
		}
		for _, n := range names {
			if fd.Name.Name == n {
				if count[id.Name]++; count[id.Name] == len(names) {
					out = append(out, id.Name)
				}
			}
		}
	}
	return out
}

// messageNames lists the types of a generated file that have an Encode method.
func messageNames(src string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil
	}
	return methodReceivers(f, "Encode", "Decode", "Reset")
}

func runDriver(dir, exe string, pkgs []drv.Pkg) (*drv.Out, error) {
	b, err := json.Marshal(pkgs)
	if err != nil {
		return nil, err
	}
	in := filepath.Join(dir, "in.json")
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, eng.Inconclusive{Err: err}
	}
	cmd := exec.Command(exe, in)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
	err = cmd.Run()
	if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() == 3 || strings.Contains(cmd.ProcessState.String(), "killed") {
		return nil, eng.Inconclusive{Err: fmt.Errorf("running the driver: %v: %s", err, tail(se.Bytes()))}
	}
	out := new(drv.Out)
	lines := bytes.Split(bytes.TrimSpace(so.Bytes()), []byte("\n"))
	if e := json.Unmarshal(lines[len(lines)-1], out); e != nil {
		if err == nil {
			return nil, eng.Inconclusive{Err: fmt.Errorf("the driver's output: %v", e)}
		}
		return nil, fmt.Errorf("the program using the generated code died: %v: %s", err, tail(se.Bytes()))
	}
	if err != nil && out.Fail == nil {
		return nil, fmt.Errorf("the program using the generated code died: %v: %s", err, tail(se.Bytes()))
	}
	return out, nil
}

// narrow makes a case of what failed alone.
func (c *CompCase) narrow(f *drv.Fail) *CompCase {
	p := c.P[f.Pkg]
	n := CompPkg{F: p.F}
	if f.Hist >= 0 {
		n.Hists = p.Hists[f.Hist : f.Hist+1]
	}
	if f.Val >= 0 {
		n.Vals = p.Vals[f.Val : f.Val+1]
	}
	return &CompCase{P: []CompPkg{n}}
}

func (c *CompCase) failed(f *drv.Fail, o *eng.Obs) error {
	err := fmt.Errorf("file %d (%s): %s", f.Pkg, c.P[f.Pkg].F.Name, f.Err)
	n := c.narrow(f)
	if a, _ := json.Marshal(n); len(a) > 0 {
		if b, _ := json.Marshal(c); len(a) < len(b) {
			return eng.Narrowed{Err: err, Case: n}
		}
	}
	return err
}

func runComp(c *CompCase, o *eng.Obs) error {
	if !c.ok() || len(c.P) == 0 {
		return nil
	}
	dir, err := os.MkdirTemp(eng.Dir, "comp-")
	if err != nil {
		return eng.Inconclusive{Err: err}
	}
	defer os.RemoveAll(dir)
	var srcs [][]string
	pkgs := make([]drv.Pkg, len(c.P))
	for i := range c.P {
		p := &c.P[i]
		src, err := generatePkg(&p.F)
		if err != nil {
			return c.failed(&drv.Fail{Pkg: i, Hist: -1, Val: -1, Err: err.Error()}, o)
		}
		srcs = append(srcs, src)
		pkgs[i] = drv.Pkg{Msgs: p.F.Msgs, Hists: p.Hists}
	}
	exe, err := buildDriver(dir, srcs)
	if err != nil {
		var bc badCode
		if errors.As(err, &bc) {
			return c.failed(&drv.Fail{Pkg: bc.pkg, Hist: -1, Val: -1, Err: err.Error()}, o)
		}
		return err
	}
	out, err := runDriver(dir, exe, pkgs)
	if err != nil {
		return err
	}
	if out.Fail != nil {
		return c.failed(out.Fail, o)
	}
	kinds := 0
	for i := range c.P {
		fileFeatures(&c.P[i].F, o)
		o.LabelIf(len(srcs[i]) > 1, "several files of one package")
		for _, m := range c.P[i].F.Msgs {
			kinds += len(m.F)
		}
		o.Label("schemas")
	}
	for i := range out.St {
		histLabels(&out.St[i], o)
		o.Label("histories")
	}
	if kinds > 0 && out.Steps > 0 {
		o.NonTrivial()
	}
	return nil
}

// ---- C18, against protoc ----

// genDense has messages with nearly every number of a range, each of any type and
// label, and histories that write and read all of them.
func genDense(t *rapid.T) CompCase {
	var c CompCase
	for i := 0; i < 2; i++ {
		f := desc.File{Name: "dense.proto", Pkg: "dense", HasPkg: true}
		base := gen.Of(t, 0, 0, 0, 0, 250, 900, 1900, 4000, 16300, 32600)
		big := ref.Msg{Name: gen.Of(t, "Dense", "M", "Wide_one")}
		var order []int
		for n := 1; n <= 256; n++ {
			order = append(order, base+n)
		}
		for _, n := range rapid.Permutation(order).Draw(t, "order")[:gen.Int(t, 180, 240)] {
			if n >= 19000 && n < 20000 {
				continue
			}
			x := ref.Field{N: n, K: ref.Kind(gen.Int(t, 0, int(ref.NumKinds)-1)), Name: fmt.Sprintf("%s%d", gen.Of(t, "f", "Field_", "x_y_", "isSet", "v_"), n)}
			switch gen.Int(t, 0, 5) {
			case 0:
				x.Req = true
			case 1:
				x.Rep = true
			case 2:
				x.K = ref.Message
				x.Rep = gen.Pct(t, 50)
			}
			if x.K == ref.Message {
				x.M = gen.Of(t, 0, 1, 1)
			}
			big.F = append(big.F, x)
		}
		f.Msgs = []ref.Msg{big, {Name: "Leaf", F: []ref.Field{{N: 1, K: ref.Uint64, Name: "a"}, {N: 2, K: ref.String, Name: "b"}}}}
		s := &ref.Schema{Msgs: f.Msgs}
		h := gen.DefaultHist()
		h.Enc.MaxRecs, h.Enc.Depth = 2, 1
		dec := hist.Op{K: "dec"}
		for i := range big.F {
			for k := gen.Of(t, 0, 1, 1, 2); k > 0; k-- {
				if big.F[i].K != ref.Message || big.F[i].Rep || k == 1 {
					dec.Recs = append(dec.Recs, gen.Rec(t, s, &big.F[i], h.Enc))
				}
			}
		}
		dec.Recs = rapid.Permutation(dec.Recs).Draw(t, "encoding")
		first, again := sweep(t, s, 0, h), sweep(t, s, 0, h)
		c.P = append(c.P, CompPkg{F: f, Hists: []hist.Case{{Ops: first}, {Ops: append([]hist.Op{dec}, again...)}}})
	}
	return c
}

func plainScalar(t *rapid.T, k ref.Kind) uint64 {
	switch k {
	case ref.Enum:
		return uint64(gen.Of(t, desc.EnumVals...))
	case ref.Double:
		for {
			if u := gen.Scalar(t, k); !math.IsNaN(math.Float64frombits(u)) {
				return u
			}
		}
	case ref.Float:
		for {
			if u := gen.Scalar(t, k); !math.IsNaN(float64(math.Float32frombits(uint32(u)))) {
				return u
			}
		}
	}
	return gen.Scalar(t, k)
}

// plain draws a value of a message that every implementation writes and reads
// the same way.
func plain(t *rapid.T, s *ref.Schema, mi, depth int) []ref.Rec {
	var recs []ref.Rec
	m := &s.Msgs[mi]
	for i := range m.F {
		f := &m.F[i]
		if !f.Accessible() {
			continue
		}
		n := 0
		switch {
		case f.Rep:
			n = gen.Of(t, 0, 1, 2, 3)
		case gen.Pct(t, 75):
			n = 1
		}
		if f.K == ref.Message && depth <= 0 {
			n = 0
		}
		for ; n > 0; n-- {
			r := ref.Rec{N: f.N, WT: f.K.WireType()}
			switch f.K {
			case ref.Message:
				r.HasSub = true
				r.Sub = plain(t, s, f.M, depth-1)
			case ref.String, ref.Bytes:
				r.Blob = gen.Blob(t, 20, 0, f.K == ref.String)
			default:
				r.U = ref.ToWire(f.K, plainScalar(t, f.K))
			}
			recs = append(recs, r)
		}
	}
	if len(recs) > 1 && gen.Pct(t, 70) {
		recs = rapid.Permutation(recs).Draw(t, "order")
	}
	return recs
}

func genProtoc(t *rapid.T) CompCase {
	var c CompCase
	for i := 0; i < 3; i++ {
		p := CompPkg{F: genFile(t, compOpts())}
		if gen.Pct(t, 30) {
			divide(t, &p.F, true)
		}
		s := &ref.Schema{Msgs: p.F.Msgs}
		for mi := range s.Msgs {
			for k := gen.Of(t, 1, 2, 3); k > 0; k-- {
				p.Vals = append(p.Vals, drv.Value{M: mi, Recs: plain(t, s, mi, 2)})
			}
		}
		c.P = append(c.P, p)
	}
	return c
}

func setupProtoc(dir string) error {
	if err := setupDriver(dir); err != nil {
		return err
	}
	return setupBin("github.com/danhhz/zeropb/cmd/protoc-gen-zeropb")(dir)
}

func protoc(dir string, in []byte, args ...string) (out, serr []byte, code int, err error) {
	cmd := exec.Command("protoc", args...)
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() < 0 {
		return nil, nil, 0, eng.Inconclusive{Err: err}
	}
	return so.Bytes(), se.Bytes(), cmd.ProcessState.ExitCode(), nil
}

func enumName(u uint64) string { return fmt.Sprintf("EV_%d", u) }

func runProtoc(c *CompCase, o *eng.Obs) error {
	if _, err := exec.LookPath("protoc"); err != nil {
		o.Label("no protoc")
		return nil
	}
	if !c.ok() || len(c.P) == 0 {
		return nil
	}
	dir, err := os.MkdirTemp(eng.Dir, "protoc-")
	if err != nil {
		return eng.Inconclusive{Err: err}
	}
	defer os.RemoveAll(dir)
	plug := filepath.Join(eng.Dir, "protoc-gen-zeropb")
	var srcs [][]string
	pkgs := make([]drv.Pkg, len(c.P))
	src := func(i int) string { return filepath.Join(dir, fmt.Sprintf("s%d", i)) }
	for i := range c.P {
		p := &c.P[i]
		at := drv.Fail{Pkg: i, Hist: -1, Val: -1}
		s := &ref.Schema{Msgs: p.F.Msgs}
		in, od := src(i), filepath.Join(dir, fmt.Sprintf("o%d", i))
		err := os.MkdirAll(od, 0o755)
		var names []string
		for _, f := range p.F.Files() {
			names = append(names, f.Name)
			file := filepath.Join(in, filepath.FromSlash(f.Name))
			if err == nil {
				err = os.MkdirAll(filepath.Dir(file), 0o755)
			}
			if err == nil {
				err = os.WriteFile(file, []byte(f.Proto()), 0o644)
			}
		}
		if err != nil {
			return eng.Inconclusive{Err: err}
		}
		last := names[len(names)-1]
		// protoc itself must accept the file.
		_, se, code, err := protoc(dir, nil, "-I", in, "--descriptor_set_out=/dev/null", last)
		if err != nil {
			return err
		}
		if code != 0 {
			o.Label("not accepted by protoc")
			return nil
		}
		_, se, code, err = protoc(dir, nil, append([]string{"-I", in, "--plugin=protoc-gen-zeropb=" + plug, "--zeropb_out=" + od}, names...)...)
		if err != nil {
			return err
		}
		if code != 0 {
			at.Err = fmt.Sprintf("protoc with the plugin fails: exit status %d: %s", code, tail(se))
			return c.failed(&at, o)
		}
		var files []string
		filepath.WalkDir(od, func(path string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				files = append(files, path)
			}
			return nil
		})
		if len(files) != len(names) {
			at.Err = fmt.Sprintf("protoc wrote %d files: %q", len(files), files)
			return c.failed(&at, o)
		}
		var gs []string
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return eng.Inconclusive{Err: err}
			}
			gs = append(gs, string(b))
		}
		srcs = append(srcs, gs)
		o.LabelIf(len(names) > 1, "several files of one package")
		pkgs[i] = drv.Pkg{Msgs: p.F.Msgs}
		for _, v := range p.Vals {
			want := ref.Text(s, v.M, ref.EncodeRecs(nil, v.Recs), enumName)
			enc, se, code, err := protoc(dir, []byte(want), "-I", in, "--encode="+p.F.FullName(v.M), last)
			if err != nil {
				return err
			}
			if code != 0 {
				return eng.Inconclusive{Err: fmt.Errorf("protoc --encode: exit status %d: %s for %s", code, tail(se), want)}
			}
			// The reference codec and protoc agree.
			if got := ref.Text(s, v.M, enc, enumName); got != want {
				return eng.Inconclusive{Err: fmt.Errorf("harness: the reference codec disagrees with protoc: got\n%s\nwant\n%s", got, want)}
			}
			pkgs[i].Vals = append(pkgs[i].Vals, drv.Value{M: v.M, Recs: v.Recs, Enc: append([]byte{}, enc...)})
		}
	}
	exe, err := buildDriver(dir, srcs)
	if err != nil {
		var bc badCode
		if errors.As(err, &bc) {
			return c.failed(&drv.Fail{Pkg: bc.pkg, Hist: -1, Val: -1, Err: err.Error()}, o)
		}
		return err
	}
	out, err := runDriver(dir, exe, pkgs)
	if err != nil {
		return err
	}
	if out.Fail != nil {
		return c.failed(out.Fail, o)
	}
	for i := range c.P {
		p := &c.P[i]
		fs := p.F.Files()
		last := fs[len(fs)-1].Name
		fileFeatures(&p.F, o)
		for k, v := range pkgs[i].Vals {
			at := drv.Fail{Pkg: i, Hist: -1, Val: k}
			dec := func(b []byte) ([]byte, error) {
				t, se, code, err := protoc(dir, b, "-I", src(i), "--decode="+p.F.FullName(v.M), last)
				if err == nil && code != 0 {
					err = fmt.Errorf("protoc --decode: exit status %d: %s", code, tail(se))
				}
				return t, err
			}
			want, err := dec(v.Enc)
			if err != nil {
				return eng.Inconclusive{Err: err}
			}
			got, err := dec(out.Built[i][k])
			if errors.As(err, new(eng.Inconclusive)) {
				return err
			}
			if err != nil {
				at.Err = fmt.Sprintf("protoc cannot decode what generated code encoded: %v", err)
				return c.failed(&at, o)
			}
			if !bytes.Equal(got, want) {
				at.Err = fmt.Sprintf("protoc reads what generated code encoded as\n%s\nwant\n%s", tail(got), tail(want))
				return c.failed(&at, o)
			}
			o.Label("values exchanged")
			if len(v.Recs) > 1 {
				o.NonTrivial()
			}
		}
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{ID: "C18", Parts: []*eng.Part{
		eng.NewPart("compiled", 160, 4000, "batches of random proto files, generated, compiled and linked with a driver that runs model-based histories (one that sets every field, and random ones) on every message type; non-trivial: at least one field and step",
			func(t *rapid.T) CompCase { return genComp(t, 8, 4) }, runComp, func(p *eng.Part) {
				p.External = true
				p.Setup = setupDriver
			}),
		eng.NewPart("dense", 96, 2400, "messages of 180 to 240 fields, nearly every number of a range, of any types and labels, compiled; every field is set, and, after decoding an encoding of all of them, overwritten, everything read after every step; non-trivial: at least one field and step",
			genDense, runComp, func(p *eng.Part) {
				p.External = true
				p.Setup = setupDriver
			}),
		eng.NewPart("protoc", 80, 2500, "batches of .proto files run through protoc with the built plugin; values built with the generated code are decoded by protoc, and values encoded by protoc are read by the generated code; non-trivial: a value with several fields",
			genProtoc, runProtoc, func(p *eng.Part) {
				p.External = true
				p.Setup = setupProtoc
			}),
	}, Assumptions: []string{"message names are no Go keywords or predeclared identifiers, nor zeropb", "field numbers up to 70000 (the generated structs hold an array as long as the largest number)", "values exchanged with protoc are no NaNs and known enum values"}})
}
