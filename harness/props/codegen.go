package props

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"sync"
	"syscall"
	"unicode"

	"github.com/danhhz/zeropb/generate"
	gogo "github.com/gogo/protobuf/proto"
	plugin "github.com/gogo/protobuf/protoc-gen-gogo/plugin"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/desc"
	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/tgt"
)

// ---- schemas as proto files ----

var msgNames = []string{"A", "B", "Foo", "Bar", "FooBar", "BarBaz", "Baz", "FooBarIterator", "M1", "foo", "buf", "m", "x", "i", "Iterator",
	"Offsets", "Message", "Msg_1", "_U", "Encode", "RepeatedFields", "FooFooIterator", "AAIterator", "Set", "FooBarBaz", "AXIterator", "FooXIterator"}

var fieldNames = []string{"x", "set_x", "get_x", "append_to_x", "encode", "decode", "reset", "setx", "x_", "_x", "X", "x1", "_1", "__", "_",
	"fooBar", "foo_bar", "FooBar", "foo_bar_", "set", "append_to", "buf", "offsets", "type", "func", "string", "m", "repeated_fields", "to_x",
	"Set_x", "setX", "a_b_c", "a", "b", "c", "x__", "f1", "f_1", "f2", "value", "entries", "ID", "id", "iD", "appendTo_x", "AppendToX", "next", "Next", "len", "i", "_2x", "x_1_y"}

var pkgNames = []string{"pkg", "a.b.c", "type", "func", "foo_bar", "Foo", "_", "x1", "go", "string", "a.type", "range.x", "zeropb", "v1._x", "testpkg"}

var fileNames = []string{"a.proto", "dir/sub/b.proto", "x-y.proto", "1.proto", "a.b.proto", "noext", "x.proto.proto", "type.proto", "dir.proto/c.proto",
	"my file.proto", "d/-.proto", "protofile", "proto", "a.protox", "x.PROTO", "_.proto", "prototype.proto", "go/range.proto"}

type fileOpts struct {
	minMsgs, maxMsgs, maxFields, maxNum int
	repScalars                          bool
}

func genNum(t *rapid.T, max int) int {
	n := 0
	switch gen.Int(t, 0, 7) {
	case 0:
		n = gen.Near(t, 1, max, 15, 16, 17, 127, 128, 255, 256, 2047, 2048, 2049)
	case 1:
		n = gen.Of(t, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 262143, 262144, 5000, 18999, 20000)
		if max > 1<<25 && gen.Pct(t, 20) {
			n = gen.Of(t, 1<<25-1, 1<<25, 1<<28-1, 1<<28, 1<<29-1, 1<<29-2)
		}
	default:
		n = gen.Int(t, 1, 20)
	}
	if n > max {
		n = 1 + n%max
	}
	return n
}

func genFile(t *rapid.T, o fileOpts) desc.File {
	var f desc.File
	f.Name = gen.Of(t, fileNames...)
	if gen.Pct(t, 9) {
		f.Name = gen.Word(t, "a", "x_y", "go/range") + ".proto"
	}
	if gen.Pct(t, 75) {
		f.HasPkg, f.Pkg = true, gen.Word(t, pkgNames...)
	}
	f.EnumMore = gen.Pct(t, 15)
	f.Deco = genDeco(t)
	if o.maxFields > 0 && gen.Pct(t, 3) && gen.Pct(t, 25) {
		// Many fields or many messages.
		if gen.Pct(t, 50) {
			o.maxFields, o.maxMsgs = gen.Near(t, 20, 350, 70, 140, 300), max(o.minMsgs, 1)
		} else {
			o.maxFields, o.maxMsgs = min(o.maxFields, 3), gen.Near(t, 6, 70, 12, 40)
		}
		if gen.Pct(t, 10) {
			if o.maxMsgs > 5 {
				o.minMsgs = gen.Near(t, 100, 300, 127, 128, 255, 256)
				o.maxMsgs = o.minMsgs
			} else {
				o.maxFields = gen.Near(t, 300, 1200, 511, 512, 1000, 1024)
			}
		}
	}
	nm := gen.Int(t, o.minMsgs, o.maxMsgs)
	used := map[string]bool{}
	for i := 0; i < nm; i++ {
		m := ref.Msg{Name: gen.Of(t, msgNames...)}
		if gen.Pct(t, 9) {
			m.Name = gen.Word(t, msgNames...)
			if m.Name == "_" {
				// The blank identifier can't have methods.
				m.Name = "__"
			}
			m.Name = strings.ToUpper(m.Name[:1]) + m.Name[1:]
		}
		if gen.Pct(t, 3) {
			m.Name += longName(t, "Foo")
		}
		for used[m.Name] {
			m.Name += "X"
		}
		used[m.Name] = true
		names := map[string]bool{}
		long := gen.Pct(t, 3)
		nf := gen.Int(t, 0, o.maxFields)
		for j := 0; j < nf; j++ {
			x := ref.Field{N: genNum(t, o.maxNum), Name: gen.Word(t, fieldNames...)}
			if long && gen.Pct(t, 40) {
				x.Name += longName(t, "foo_", "set_", "_x", "F", "1")
			}
			for names[x.Name] {
				x.Name += gen.Of(t, "1", "_", "a", "_b")
			}
			names[x.Name] = true
			for m.Field(x.N) != nil || x.N >= 19000 && x.N < 20000 {
				x.N++
			}
			x.K = ref.Kind(gen.Int(t, 0, int(ref.NumKinds)-1))
			if gen.Pct(t, 30) {
				x.K = ref.Message
			}
			if x.K == ref.Message {
				x.M = gen.Int(t, 0, nm-1)
				x.Rep = gen.Pct(t, 55)
			} else if o.repScalars {
				x.Rep = gen.Pct(t, 15)
			}
			x.Req = !x.Rep && gen.Pct(t, 15)
			m.F = append(m.F, x)
		}
		f.Msgs = append(f.Msgs, m)
	}
	return f
}

// longName is part of a name, of dozens or hundreds of letters.
func longName(t *rapid.T, parts ...string) string {
	n := gen.Near(t, 8, 300, 20, 32, 40, 64, 100, 127, 128, 200, 255, 256)
	return strings.Repeat(gen.Of(t, parts...), n)[:n]
}

func genDeco(t *rapid.T) (d desc.Deco) {
	if gen.Pct(t, 40) {
		for b := desc.Deco(1); b < desc.DecoAll; b *= 2 {
			if gen.Pct(t, 40) {
				d |= b
			}
		}
	}
	return d
}

// fileFeatures: what makes a schema interesting.
func fileFeatures(f *desc.File, o *eng.Obs) (n int) {
	add := func(ok bool, l string) {
		o.LabelIf(ok, l)
		if ok {
			n++
		}
	}
	add(!f.HasPkg, "no package")
	add(strings.Contains(f.Pkg, "."), "dotted package")
	add(len(f.Msgs) == 0, "no messages")
	add(token.Lookup(f.Pkg).IsKeyword(), "keyword package")
	same, coll, self, unord, mutual := false, false, false, false, false
	for i, m := range f.Msgs {
		reps := map[int]int{}
		names := map[string]bool{"Encode": true, "Decode": true, "Reset": true}
		last := 0
		for _, x := range m.F {
			if x.N < last {
				unord = true
			}
			last = x.N
			if x.Rep && x.K == ref.Message {
				reps[x.M]++
				same = same || reps[x.M] > 1
			}
			if x.K == ref.Message {
				self = self || x.M == i
				for _, y := range f.Msgs[x.M].F {
					mutual = mutual || y.K == ref.Message && y.M == i && x.M != i
				}
			}
			g := tgt.GoCase(x.Name)
			mut := "Set" + g
			if x.Rep {
				mut = "AppendTo" + g
			}
			coll = coll || g == "" || names[g] || names[mut] || unicode.IsDigit(rune(g[0]))
			names[g], names[mut] = true, true
		}
	}
	add(same, "several repeated fields of one message type")
	add(coll, "colliding or odd field names")
	add(self, "self-recursive message")
	add(mutual, "mutually recursive messages")
	add(unord, "field numbers out of order")
	return n
}

func toRequest(b []byte) (*generate.CodeGeneratorRequest, error) {
	req := new(generate.CodeGeneratorRequest)
	if err := proto.Unmarshal(b, req); err != nil {
		return nil, fmt.Errorf("the request cannot be unmarshalled: %v", err)
	}
	return req, nil
}

// generateOne generates a single file.
func generateOne(f *desc.File) (name, content string, err error) {
	r := desc.Request{Files: []desc.File{*f}, Gen: []string{f.Name}}
	req, err := toRequest(r.Bytes())
	if err != nil {
		return "", "", err
	}
	res, err := generate.Generate(req)
	if err != nil {
		return "", "", fmt.Errorf("Generate: %v", err)
	}
	if len(res.File) != 1 {
		return "", "", fmt.Errorf("Generate returned %d files, want 1", len(res.File))
	}
	return res.File[0].GetName(), res.File[0].GetContent(), nil
}

// divide puts the messages of f into several files of one package; acyclic if no
// file may refer to a later one.
func divide(t *rapid.T, f *desc.File, acyclic bool) {
	if !f.HasPkg || f.Pkg == "" || len(f.Msgs) < 2 {
		return
	}
	n := gen.Of(t, 2, 2, 3)
	part := make([]int, len(f.Msgs))
	for i := range part {
		part[i] = gen.Int(t, 0, n-1)
	}
	for changed := true; acyclic && changed; {
		changed = false
		for i, m := range f.Msgs {
			for _, x := range m.F {
				if x.K == ref.Message && part[x.M] > part[i] {
					part[i], changed = part[x.M], true
				}
			}
		}
	}
	// Each file's iterators are named without regard to the other files.
	owner := map[string]int{}
	for i, m := range f.Msgs {
		owner[strings.TrimRight(m.Name, "_")] = part[i]
	}
	for i, m := range f.Msgs {
		for _, x := range m.F {
			if !x.Rep || x.K != ref.Message {
				continue
			}
			g := tgt.GoCase(x.Name)
			for _, it := range []string{f.Msgs[x.M].Name, g, "X" + g} {
				it = m.Name + strings.TrimRight(it, "_") + "Iterator"
				for _, it := range []string{it, m.Name + f.Msgs[x.M].Name + "Iterator", m.Name + g + "_Iterator", m.Name + g + "__Iterator"} {
					if p, ok := owner[it]; ok && p != part[i] {
						return
					}
					owner[it] = part[i]
				}
			}
		}
	}
	f.Part = part
}

// generatePkg generates all the files that f is divided into, in one run.
func generatePkg(f *desc.File) (srcs []string, err error) {
	r := desc.Request{Files: f.Files()}
	for _, x := range r.Files {
		r.Gen = append(r.Gen, x.Name)
	}
	req, err := toRequest(r.Bytes())
	if err != nil {
		return nil, err
	}
	res, err := generate.Generate(req)
	if err != nil {
		return nil, fmt.Errorf("Generate: %v", err)
	}
	if len(res.File) != len(r.Files) {
		return nil, fmt.Errorf("Generate returned %d files, want %d", len(res.File), len(r.Files))
	}
	for _, x := range res.File {
		srcs = append(srcs, x.GetContent())
	}
	return srcs, nil
}

// ---- C17: compiling and the accessor set ----

var exports struct {
	once sync.Once
	m    map[string]string
	imp  types.Importer
	err  error
}

// setupExports writes the export data locations of the runtime.
func setupExports(dir string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}", "github.com/danhhz/zeropb")
	cmd.Dir = filepath.Join(eng.Root, "harness")
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, se.String())
	}
	return os.WriteFile(filepath.Join(dir, "exports"), out, 0o644)
}

func goImporter(fset *token.FileSet) (types.Importer, error) {
	exports.once.Do(func() {
		b, err := os.ReadFile(filepath.Join(eng.Dir, "exports"))
		if err != nil {
			exports.err = err
			return
		}
		exports.m = map[string]string{}
		for _, l := range strings.Split(string(b), "\n") {
			if p := strings.Fields(l); len(p) == 2 {
				exports.m[p[0]] = p[1]
			}
		}
		exports.imp = importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
			if exports.m[path] == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(exports.m[path])
		})
	})
	return exports.imp, exports.err
}

// GenCase is a proto file to generate.
type GenCase struct {
	F desc.File `json:"f"`
}

func runCompile(c *GenCase, o *eng.Obs) error {
	if fileFeatures(&c.F, o) > 0 {
		o.NonTrivial()
	}
	o.Label("%d messages", min(len(c.F.Msgs), 12))
	srcs, err := generatePkg(&c.F)
	if err != nil {
		return err
	}
	o.LabelIf(len(srcs) > 1, "several files of one package")
	fset := token.NewFileSet()
	var files []*ast.File
	for i, src := range srcs {
		file, err := parser.ParseFile(fset, fmt.Sprintf("gen%d.go", i), src, parser.AllErrors|parser.SkipObjectResolution)
		if err != nil {
			return fmt.Errorf("the generated file is not valid Go: %v", err)
		}
		files = append(files, file)
	}
	imp, err := goImporter(fset)
	if err != nil {
		return eng.Inconclusive{Err: err}
	}
	var first error
	conf := types.Config{Importer: imp, Error: func(err error) {
		if first == nil {
			first = err
		}
	}}
	pkg, _ := conf.Check("gen", fset, files, nil)
	if first != nil {
		return fmt.Errorf("the generated file does not compile: %v", first)
	}
	return checkAPI(&c.F, pkg)
}

var basics = map[ref.Kind]types.BasicKind{ref.Bool: types.Bool, ref.Int32: types.Int32, ref.Int64: types.Int64, ref.Uint32: types.Uint32,
	ref.Uint64: types.Uint64, ref.Sint32: types.Int32, ref.Sint64: types.Int64, ref.Fixed32: types.Uint32, ref.Fixed64: types.Uint64,
	ref.Sfixed32: types.Int32, ref.Sfixed64: types.Int64, ref.Double: types.Float64, ref.Float: types.Float32, ref.String: types.String, ref.Enum: types.Uint32}

var errType = types.Universe.Lookup("error").Type()
var boolType = types.Typ[types.Bool]
var bytesType = types.NewSlice(types.Typ[types.Byte])

func sigIs(s *types.Signature, in, out []types.Type) bool {
	if s == nil || s.Params().Len() != len(in) || s.Results().Len() != len(out) {
		return false
	}
	for i, t := range in {
		if !types.Identical(s.Params().At(i).Type(), t) {
			return false
		}
	}
	for i, t := range out {
		if !types.Identical(s.Results().At(i).Type(), t) {
			return false
		}
	}
	return true
}

// checkAPI checks that every message has the methods documented.
func checkAPI(f *desc.File, pkg *types.Package) error {
	named := func(name string) types.Type {
		if tn, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return tn.Type()
		}
		return nil
	}
	method := func(t types.Type, name string) *types.Signature {
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, pkg, name)
		if fn, ok := obj.(*types.Func); ok {
			return fn.Type().(*types.Signature)
		}
		return nil
	}
	for _, m := range f.Msgs {
		t := named(m.Name)
		if t == nil {
			return fmt.Errorf("message %s: no such type", m.Name)
		}
		if !sigIs(method(t, "Encode"), nil, []types.Type{bytesType}) || !sigIs(method(t, "Decode"), []types.Type{bytesType}, []types.Type{errType}) ||
			!sigIs(method(t, "Reset"), []types.Type{bytesType}, nil) {
			return fmt.Errorf("message %s: Encode, Decode or Reset missing or of another type", m.Name)
		}
		used := map[string]bool{"Encode": true, "Decode": true, "Reset": true}
		for i := range m.F {
			x := &m.F[i]
			if !x.Accessible() {
				continue
			}
			name := tgt.GoCase(x.Name)
			if name == "" || unicode.IsDigit(rune(name[0])) {
				name = "X" + name
			}
			ok := false
			for try := 0; try < 2*len(m.F)+6 && !ok; try++ {
				mut := "Set" + name
				if x.Rep {
					mut = "AppendTo" + name
				}
				if !used[name] && !used[mut] {
					g, s := method(t, name), method(t, mut)
					switch {
					case x.K == ref.Message:
						sub := named(f.Msgs[x.M].Name)
						if sub == nil {
							break
						}
						ptr := types.NewPointer(sub)
						ok = sigIs(s, []types.Type{sub}, nil)
						if !x.Rep {
							ok = ok && sigIs(g, []types.Type{ptr}, []types.Type{boolType, errType})
						} else if ok = ok && g != nil && g.Params().Len() == 0 && g.Results().Len() == 1; ok {
							ok = sigIs(method(g.Results().At(0).Type(), "Next"), []types.Type{ptr}, []types.Type{boolType, errType})
						}
					case x.K == ref.Bytes:
						ok = sigIs(g, nil, []types.Type{bytesType}) && sigIs(s, []types.Type{bytesType}, nil)
					default:
						b := types.Typ[basics[x.K]]
						ok = sigIs(g, nil, []types.Type{b}) && sigIs(s, []types.Type{b}, nil)
					}
					if ok {
						used[name], used[mut] = true, true
					}
				}
				name += "_"
			}
			if !ok {
				return fmt.Errorf("message %s: no accessors of the right type for field %s (%s, repeated: %v)", m.Name, x.Name, x.K, x.Rep)
			}
		}
	}
	return nil
}

// ---- C19: requests ----

func genRequest(t *rapid.T, fo fileOpts) desc.Request {
	var r desc.Request
	used := map[string]bool{}
	n := gen.Of(t, 1, 2, 3, 0, 2, 3, 4, 5, 6)
	asked := gen.Of(t, 60, 60, 60, 100)
	if gen.Pct(t, 3) && gen.Pct(t, 25) {
		n = gen.Near(t, 7, 300, 15, 30, 40, 70, 128, 130, 257)
		fo.maxMsgs, fo.maxFields = min(fo.maxMsgs, 1), min(fo.maxFields, 2)
	}
	for ; n > 0; n-- {
		f := genFile(t, fo)
		if len(r.Files) > 0 && gen.Pct(t, 25) {
			f.Name = nearName(t, r.Files[gen.Int(t, 0, len(r.Files)-1)].Name)
		}
		if gen.Pct(t, 3) {
			f.Name = longName(t, "dir/") + f.Name
		}
		for used[f.Name] {
			f.Name = gen.Of(t, "x/", "a", "b.", "zz") + f.Name
		}
		used[f.Name] = true
		if gen.Pct(t, 40) {
			f.Syntax = gen.Of(t, "proto2", "proto3")
		}
		if gen.Pct(t, 40) {
			f.Comment = gen.Of(t, "hello", "a\nb\"\\'", "\x00\x01ü", strings.Repeat("long ", 40))
		}
		if gen.Pct(t, 30) {
			f.GoPkg = gen.Of(t, "foo", "github.com/x/y;z")
		}
		if len(r.Files) > 0 && gen.Pct(t, 40) {
			f.Deps = []string{r.Files[gen.Int(t, 0, len(r.Files)-1)].Name}
		}
		r.Files = append(r.Files, f)
	}
	for _, f := range r.Files {
		if gen.Pct(t, asked) {
			r.Gen = append(r.Gen, f.Name)
		}
	}
	for i := range r.Files {
		// What is merely imported may use anything.
		if f := &r.Files[i]; !slices.Contains(r.Gen, f.Name) && gen.Pct(t, 40) {
			f.Deco |= gen.Of(t, desc.DecoForeign, desc.DecoForeign|desc.DecoUnknown, desc.DecoUnknown)
		}
	}
	if gen.Pct(t, 10) {
		// Not in the request.
		near := gen.Of(t, "absent.proto", "a", "x")
		if len(r.Files) > 0 && gen.Pct(t, 60) {
			near = nearName(t, r.Files[gen.Int(t, 0, len(r.Files)-1)].Name)
		}
		if !used[near] {
			r.Gen = append(r.Gen, near)
		}
	}
	if gen.Pct(t, 15) && len(r.Gen) > 0 {
		r.Gen = append(r.Gen, r.Gen[0])
	}
	if gen.Pct(t, 50) {
		r.Gen = rapid.Permutation(r.Gen).Draw(t, "gen")
	}
	if gen.Pct(t, 30) {
		r.Param = gen.Of(t, "a=b", "paths=source_relative", "x,y")
	}
	r.Ver = gen.Of(t, 0, 3)
	return r
}

// nearName is another name that a careless comparison takes for n.
func nearName(t *rapid.T, n string) string {
	base := path.Base(n)
	return gen.Of(t, "./"+n, n+"/", "/"+n, "x/../"+n, strings.Replace(n, "/", "//", 1), strings.ToUpper(n), strings.ToLower(n), " "+n, n+" ",
		base, "x/"+base, "dir/"+base, strings.TrimSuffix(n, ".proto"), n+".proto", strings.TrimSuffix(n, ".proto")+".zeropb.go", n+"x", "x"+n,
		strings.Replace(n, "/", "\\", 1), strings.Replace(n, "-", "_", 1), strings.TrimSuffix(n, "o"), n+"\x00", strings.Replace(n, ".", "/", 1))
}

func outName(proto string) string { return strings.TrimSuffix(proto, ".proto") + ".zeropb.go" }

func runRequest(r *desc.Request, o *eng.Obs) error {
	seen := map[string]bool{}
	for i := range r.Files {
		if seen[r.Files[i].Name] {
			return nil
		}
		seen[r.Files[i].Name] = true
		for _, m := range r.Files[i].Msgs {
			for _, x := range m.F {
				if x.K == ref.Message && x.M >= len(r.Files[i].Msgs) {
					return nil
				}
			}
		}
	}
	b := r.Bytes()
	req, err := toRequest(b)
	if err != nil {
		return err
	}
	orig := proto.Clone(req)
	res, err := generate.Generate(req)
	if err != nil {
		return fmt.Errorf("Generate: %v", err)
	}
	if !proto.Equal(req, orig) {
		return fmt.Errorf("Generate modified the request")
	}
	b1, err := proto.Marshal(orig)
	if err != nil {
		return eng.Inconclusive{Err: err}
	}
	if b2, err := proto.Marshal(req); err != nil || !bytes.Equal(b1, b2) {
		return fmt.Errorf("the request serializes differently after Generate (%v)", err)
	}
	want := map[string]bool{}
	for _, n := range r.Gen {
		want[n] = true
	}
	var files []*desc.File
	for i := range r.Files {
		if want[r.Files[i].Name] {
			files = append(files, &r.Files[i])
		}
	}
	var names []string
	for _, f := range res.File {
		names = append(names, f.GetName())
	}
	if len(names) != len(files) {
		return fmt.Errorf("%d files were generated (%q), %d were requested", len(names), names, len(files))
	}
	if res.Error != nil {
		return fmt.Errorf("the response reports the error %q", res.GetError())
	}
	for i, f := range files {
		if names[i] != outName(f.Name) {
			return fmt.Errorf("file %d of the response is %q, want %q for %q (all: %q)", i, names[i], outName(f.Name), f.Name, names)
		}
		if res.File[i].Content == nil || res.File[i].InsertionPoint != nil {
			return fmt.Errorf("file %q has no content or is an insertion", names[i])
		}
	}
	o.Label("%d of %d files requested", min(len(files), 7), min(len(r.Files), 7))
	if len(files) > 0 && len(r.Files) > len(files) {
		o.NonTrivial()
	}
	// The same again.
	for k := 0; k < 2; k++ {
		res2, err := generate.Generate(req)
		if err != nil {
			return fmt.Errorf("Generate again: %v", err)
		}
		if !proto.Equal(res, res2) {
			return fmt.Errorf("generating twice gives different responses")
		}
	}
	// Alone, and in the opposite order with everything else changed.
	rev := desc.Request{Param: "other", Ver: 9}
	for i := len(r.Files) - 1; i >= 0; i-- {
		rev.Files = append(rev.Files, r.Files[i])
		if r.Files[i].Deco&desc.DecoForeign == 0 {
			rev.Gen = append(rev.Gen, r.Files[i].Name)
		}
	}
	rreq, err := toRequest(rev.Bytes())
	if err != nil {
		return err
	}
	rres, err := generate.Generate(rreq)
	if err != nil {
		return fmt.Errorf("Generate of the reversed request: %v", err)
	}
	for i, f := range files {
		_, alone, err := generateOne(f)
		if err != nil {
			return fmt.Errorf("%q alone: %v", f.Name, err)
		}
		if alone != res.File[i].GetContent() {
			return fmt.Errorf("the output for %q depends on the other files: alone it is different", f.Name)
		}
		ok := false
		for k, g := range rev.Gen {
			if g == f.Name && k < len(rres.File) {
				ok = rres.File[k].GetContent() == alone
			}
		}
		if !ok {
			return fmt.Errorf("the output for %q depends on the other files or their order", f.Name)
		}
	}
	return nil
}

// ---- C20, C21: the binaries ----

// BinCase is what a plugin binary gets on standard input.
type BinCase struct {
	Req desc.Request `json:"req"`
	// Raw, if Bad, is sent instead: Kind says how it came about.
	Bad  bool   `json:"bad,omitempty"`
	Raw  []byte `json:"raw,omitempty"`
	Cut  int    `json:"cut,omitempty"`
	Add  []byte `json:"add,omitempty"`
	Flip int    `json:"flip,omitempty"`
	// Chunks: the input is written in that many pieces.
	Chunks int `json:"chunks,omitempty"`
	// Big comments make large requests.
	Big int `json:"big,omitempty"`
	// Any request is sent instead of Req.
	Any *AnyReq `json:"any,omitempty"`
	// Len, if positive, is the length of the response that the input is padded for.
	Len int `json:"len,omitempty"`
	// Args for the binary.
	Args []string `json:"args,omitempty"`
	// Fault in reading or writing: see runTool. Reading fails after At bytes.
	Fault int `json:"fault,omitempty"`
	At    int `json:"at,omitempty"`
}

// Faults.
const (
	faultNone  = iota
	faultRead  // reading the request fails after At bytes
	faultFull  // the device that is written to is full
	faultBreak // nobody is left to read what is written
)

// genFault makes reading or writing fail.
func genFault(t *rapid.T, c *BinCase) {
	if c.Bad || !gen.Pct(t, 10) {
		return
	}
	if c.Fault = gen.Of(t, faultRead, faultRead, faultFull, faultBreak); c.Fault == faultRead {
		c.At = gen.Of(t, -1, -1, gen.Int(t, 0, 3000))
	}
}

func genBin(t *rapid.T) BinCase {
	var c BinCase
	c.Req = genRequest(t, fileOpts{0, 4, 6, 300000, true})
	if gen.Pct(t, 40) {
		c.Bad = true
		switch gen.Int(t, 0, 3) {
		case 0:
			c.Cut = gen.Int(t, 1, 30)
		case 1:
			c.Add = gen.Of(t, []byte{0x0a}, []byte{0x0a, 5, 1}, []byte{0x80}, []byte{0x7a, 0x80}, []byte{0x0f}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0x09, 1}, []byte{0x7a, 2, 0x0a, 9}, []byte{0x7a, 3, 0x22, 1, 0x0a})
		case 2:
			c.Flip = gen.Int(t, 1, 400)
		default:
			c.Raw = gen.BadBytes(t).Bytes()
		}
	}
	c.Chunks = gen.Of(t, 1, 1, 1, 2, 5)
	if gen.Pct(t, 5) {
		c.Big = gen.Of(t, 5000, 70000, 200000, 1<<20, 5<<20)
	}
	if gen.Pct(t, 3) && gen.Pct(t, 3) {
		c.Big = 65 << 20
	}
	return c
}

// genDump draws a case for the dumper.
func genDump(t *rapid.T) BinCase {
	c := genBin(t)
	if gen.Pct(t, 40) {
		c.Any = genAny(t)
	}
	genFault(t, &c)
	return c
}

// genPlugin draws a case for the plugin.
func genPlugin(t *rapid.T) BinCase {
	c := genBin(t)
	if !c.Bad && gen.Pct(t, 40) {
		c.Len = gen.Near(t, 300, 70000, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 1<<17-1, 1<<17, 1<<17+1, 3<<16+1, 1<<18, 1<<20, 1<<20+1)
	}
	genFault(t, &c)
	return c
}

// padded is the request with a file that makes the response c.Len bytes long, if
// that can be done.
func (c *BinCase) padded() desc.Request {
	r := c.Req
	for i := range r.Files {
		if !slices.Contains(r.Gen, r.Files[i].Name) {
			continue
		}
		r.Files = append([]desc.File{}, r.Files...)
		f := &r.Files[i]
		if f.Pkg == "" {
			f.Pkg = "p"
		}
		pkg := f.Pkg
		pad := 0
		// The package is named a number of times, so this takes a few steps.
		for try := 0; try < 6; try++ {
			f.Pkg = pkg + strings.Repeat("a", pad)
			n, ok := responseLen(&r)
			if !ok || n == c.Len {
				break
			}
			per := 1
			f.Pkg = pkg + strings.Repeat("a", pad+1)
			if n2, ok := responseLen(&r); ok && n2 > n {
				per = n2 - n
			}
			f.Pkg = pkg + strings.Repeat("a", pad)
			if pad += (c.Len - n) / per; pad < 0 || (c.Len-n)/per == 0 {
				break
			}
		}
		break
	}
	return r
}

// responseLen is the length of the generator's serialized response.
func responseLen(r *desc.Request) (n int, ok bool) {
	req, err := toRequest(r.Bytes())
	if err != nil {
		return 0, false
	}
	var res *generate.CodeGeneratorResponse
	if panics(func() { res, err = generate.Generate(req) }) || err != nil {
		return 0, false
	}
	return proto.Size(res), true
}

func (c *BinCase) input() []byte {
	r := c.Req
	if c.Len > 0 {
		r = c.padded()
	}
	if c.Big > 0 && len(r.Files) > 0 {
		r.Files = append([]desc.File{}, r.Files...)
		r.Files[len(r.Files)-1].Comment = strings.Repeat("0123456789abcde\n", c.Big/32)
	}
	b := r.Bytes()
	if c.Any != nil {
		b = c.Any.bytes()
	}
	if !c.Bad {
		return b
	}
	switch {
	case c.Raw != nil:
		return c.Raw
	case c.Cut > 0 && len(b) > 0:
		b = b[:len(b)-1-(c.Cut-1)%len(b)]
	case c.Add != nil:
		b = append(b, c.Add...)
	case c.Flip > 0 && len(b) > 0:
		b[(c.Flip*7)%len(b)] ^= 1 << uint(c.Flip%8)
	}
	return b
}

func setupBin(pkg string) func(dir string) error {
	return func(dir string) error {
		out := filepath.Join(dir, filepath.Base(pkg))
		if _, err := os.Stat(out); err == nil {
			return nil
		}
		cmd := exec.Command("go", "build", "-o", out, pkg)
		cmd.Dir = filepath.Join(eng.Root, "harness")
		if b, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("building %s: %v\n%s", pkg, err, b)
		}
		return nil
	}
}

type chunked struct {
	b []byte
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := min(c.n, len(c.b), len(p))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// reset is a socket from which in can be read and then fails.
func reset(in []byte) (*os.File, error) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	f, peer := os.NewFile(uintptr(fds[0]), "stdin"), os.NewFile(uintptr(fds[1]), "peer")
	// Closing a socket with something left to be read resets the connection.
	if _, err := f.Write([]byte{0}); err == nil {
		syscall.SetsockoptInt(fds[1], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 8<<20)
		_, err = peer.Write(in)
	}
	peer.Close()
	if err != nil {
		f.Close()
		return nil, err
	}
	return f, nil
}

// runTool runs a plugin binary; a fault in writing concerns standard output, or if
// both standard error as well.
func runTool(name string, c *BinCase, in []byte, both bool) (stdout, stderr []byte, code int, err error) {
	cmd := exec.Command(filepath.Join(eng.Dir, name), c.Args...)
	cmd.Dir = eng.Dir
	n := len(in)
	if c.Chunks > 1 {
		n = len(in)/c.Chunks + 1
	}
	if n == 0 {
		n = 1
	}
	cmd.Stdin = &chunked{in, n}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var w *os.File
	switch c.Fault {
	case faultRead:
		f, err := reset(in)
		if err != nil {
			return nil, nil, 0, eng.Inconclusive{Err: err}
		}
		defer f.Close()
		cmd.Stdin = f
	case faultFull:
		if w, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
			return nil, nil, 0, eng.Inconclusive{Err: err}
		}
	case faultBreak:
		var r *os.File
		if r, w, err = os.Pipe(); err != nil {
			return nil, nil, 0, eng.Inconclusive{Err: err}
		}
		r.Close()
	}
	if w != nil {
		defer w.Close()
		if !both {
			cmd.Stdout = w
		} else {
			cmd.Stdout, cmd.Stderr = w, w
		}
	}
	err = cmd.Run()
	if cmd.ProcessState == nil {
		return nil, nil, 0, eng.Inconclusive{Err: err}
	}
	code = cmd.ProcessState.ExitCode()
	if code < 0 {
		// Ended by a signal: when that is SIGKILL, something outside did it.
		if strings.Contains(cmd.ProcessState.String(), "killed") {
			return nil, nil, 0, eng.Inconclusive{Err: err}
		}
	}
	return so.Bytes(), se.Bytes(), code, nil
}

// valid says whether in is a valid request; unclear is true for input on which
// implementations may differ.
func validRequest(in []byte) (msg *plugin.CodeGeneratorRequest, ok, unclear bool) {
	msg = new(plugin.CodeGeneratorRequest)
	err := gogo.Unmarshal(in, msg)
	_, parseErr := ref.Parse(in)
	req := new(generate.CodeGeneratorRequest)
	err2 := proto.Unmarshal(in, req)
	switch {
	case err == nil && err2 == nil:
		return msg, true, false
	case err != nil && err2 != nil:
		return nil, false, false
	case err != nil && parseErr != nil:
		// Clearly malformed.
		return nil, false, false
	}
	return nil, false, true
}

// failing runs a binary when reading or writing fails.
func (c *BinCase) failing(name string, in []byte, both bool, o *eng.Obs) error {
	what := "the output cannot be written"
	if c.Fault == faultRead {
		if c.At >= 0 && c.At < len(in) {
			in = in[:c.At]
		}
		if len(in) > 64<<10 {
			// What a socket surely holds.
			in = in[:64<<10]
		}
		what = fmt.Sprintf("reading the request fails after %d bytes", len(in))
	}
	so, _, code, err := runTool(name, c, in, both)
	if err != nil {
		return err
	}
	if code == 0 {
		return fmt.Errorf("%s: exit status 0", what)
	}
	if c.Fault == faultRead && !both && len(so) > 0 {
		return fmt.Errorf("%s: %d bytes on standard output", what, len(so))
	}
	o.NonTrivial()
	o.Label([]string{"", "reading fails", "the device is full", "nobody reads"}[c.Fault])
	return nil
}

func runPlugin(c *BinCase, o *eng.Obs) error {
	in := c.input()
	msg, ok, unclear := validRequest(in)
	if unclear {
		o.Label("unclear whether valid")
		return nil
	}
	if !ok {
		o.NonTrivial()
		o.Label("invalid request")
		so, se, code, err := runTool("protoc-gen-zeropb", c, in, false)
		if err != nil {
			return err
		}
		if code == 0 {
			return fmt.Errorf("input that is no valid request: exit status 0 (stderr %q)", tail(se))
		}
		if len(so) > 0 {
			return fmt.Errorf("input that is no valid request: %d bytes on standard output", len(so))
		}
		if len(bytes.TrimSpace(se)) == 0 {
			return fmt.Errorf("input that is no valid request: nothing on standard error")
		}
		return nil
	}
	o.Label("valid request")
	if c.Bad {
		o.Label("corrupted, but still valid")
	}
	req, err := toRequest(in)
	if err != nil {
		return err
	}
	var want *generate.CodeGeneratorResponse
	if panics(func() { want, err = generate.Generate(req) }) {
		o.Label("unsupported schema")
		return nil
	}
	if c.Fault != faultNone {
		if c.Fault != faultRead && (err != nil || proto.Size(want) == 0) {
			o.Label("nothing to write")
			return nil
		}
		return c.failing("protoc-gen-zeropb", in, false, o)
	}
	so, se, code, rerr := runTool("protoc-gen-zeropb", c, in, false)
	if rerr != nil {
		return rerr
	}
	if err != nil {
		// An error may be reported either way.
		o.Label("generator error")
		return nil
	}
	if code != 0 {
		return fmt.Errorf("a valid request: exit status %d, stderr %q", code, tail(se))
	}
	got := new(plugin.CodeGeneratorResponse)
	if err := gogo.Unmarshal(so, got); err != nil {
		return fmt.Errorf("standard output is no serialized response: %v", err)
	}
	if len(got.XXX_unrecognized) > 0 {
		return fmt.Errorf("standard output holds more than a response")
	}
	if got.Error != nil || len(got.File) != len(want.File) {
		return fmt.Errorf("the response has %d files and error %q, the generator produces %d", len(got.File), got.GetError(), len(want.File))
	}
	for i, f := range want.File {
		if got.File[i].GetName() != f.GetName() || got.File[i].GetContent() != f.GetContent() {
			return fmt.Errorf("file %d of the response is not what the generator produces (%q, %q)", i, got.File[i].GetName(), f.GetName())
		}
	}
	wb, err := proto.Marshal(want)
	if err != nil {
		return fmt.Errorf("the generator's response cannot be serialized: %v", err)
	}
	if len(wb) != len(so) {
		return fmt.Errorf("standard output has %d bytes, the response %d", len(so), len(wb))
	}
	if len(msg.ProtoFile) > 0 && len(want.File) > 0 {
		o.NonTrivial()
	}
	o.LabelIf(len(so) == c.Len, "response of a chosen length")
	o.LabelIf(len(in) > 1<<16, "request beyond 64 KiB")
	o.LabelIf(len(in) > 4<<20, "request beyond 4 MiB")
	o.LabelIf(len(in) > 64<<20, "request beyond 64 MiB")
	return nil
}

func tail(b []byte) string {
	if len(b) > 600 {
		b = b[:600]
	}
	return string(b)
}

func runText(c *BinCase, o *eng.Obs) error {
	if c.Big > 6<<20 {
		c.Big = 6 << 20
	}
	in := c.input()
	msg, ok, unclear := validRequest(in)
	if unclear {
		o.Label("unclear whether valid")
		return nil
	}
	if c.Fault != faultNone && ok {
		if c.Fault != faultRead && len(msg.ProtoFile) == 0 {
			o.Label("nothing to write")
			return nil
		}
		return c.failing("protoc-gen-text", in, true, o)
	}
	so, se, code, err := runTool("protoc-gen-text", c, in, true)
	if err != nil {
		return err
	}
	if !ok {
		o.NonTrivial()
		o.Label("invalid request")
		if code == 0 {
			return fmt.Errorf("input that is no valid request: exit status 0 (stderr %q)", tail(se))
		}
		if len(bytes.TrimSpace(se)) == 0 {
			return fmt.Errorf("input that is no valid request: nothing on standard error")
		}
		return nil
	}
	o.Label("valid request")
	if code != 0 {
		return fmt.Errorf("a valid request: exit status %d, stderr %q", code, tail(se))
	}
	// The text is on standard error, as standard output belongs to the protocol.
	text := se
	if len(so) > 0 && len(se) == 0 {
		text = so
	}
	if hasUnknown(msg) {
		// Fields unknown to the descriptor types have no name in text, only a number.
		var known []string
		for _, l := range strings.Split(string(text), "\n") {
			if t := strings.TrimSpace(l); t == "" || t[0] != '/' && !unicode.IsDigit(rune(t[0])) {
				known = append(known, l)
			}
		}
		got := new(plugin.CodeGeneratorRequest)
		if err := gogo.UnmarshalText(strings.Join(known, "\n"), got); err != nil {
			// Not laid out in lines.
			o.Label("unknown fields, not compared")
			return nil
		}
		o.Label("unknown fields")
		m := gogo.Clone(msg)
		gogo.DiscardUnknown(m)
		dropExtensions(reflect.ValueOf(m))
		if !sameText(got, m) {
			return fmt.Errorf("the text printed is not the request, known fields considered only: %q", tail(text))
		}
		return nil
	}
	got := new(plugin.CodeGeneratorRequest)
	if err := gogo.UnmarshalText(string(text), got); err != nil {
		return fmt.Errorf("what is printed is no text form of a request: %v: %q", err, tail(text))
	}
	if !sameText(got, msg) {
		return fmt.Errorf("the text printed is not the request: %q", tail(text))
	}
	if len(msg.ProtoFile) > 0 {
		o.NonTrivial()
	}
	o.LabelIf(c.Any != nil, "any request")
	o.LabelIf(c.Any != nil && c.Any.Many >= 200, "any request, at least 200 of something")
	o.LabelIf(len(in) > 1<<16, "request beyond 64 KiB")
	o.LabelIf(len(in) > 4<<20, "request beyond 4 MiB")
	o.LabelIf(len(in) > 64<<20, "request beyond 64 MiB")
	return nil
}

// sameText compares messages, taking NaNs, which text does not tell apart, for
// equal.
func sameText(a, b gogo.Message) bool {
	if gogo.Equal(a, b) {
		return true
	}
	s := gogo.MarshalTextString(b)
	return strings.Contains(s, ": nan\n") && gogo.MarshalTextString(a) == s
}

// hasUnknown looks for unknown fields anywhere in m, by serializing without
// them.
func hasUnknown(m gogo.Message) bool {
	c := gogo.Clone(m)
	before := gogo.Size(c)
	gogo.DiscardUnknown(c)
	return gogo.Size(c) != before || dropExtensions(reflect.ValueOf(c))
}

// dropExtensions removes extension fields, none of which are known, and tells
// whether there were any.
func dropExtensions(v reflect.Value) (found bool) {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && dropExtensions(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() == reflect.Ptr; i++ {
			found = dropExtensions(v.Index(i)) || found
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); {
			case v.Type().Field(i).Name == "XXX_InternalExtensions":
				found = found || !f.IsZero()
				f.Set(reflect.Zero(f.Type()))
			case v.Type().Field(i).IsExported():
				found = dropExtensions(f) || found
			}
		}
	}
	return found
}

func init() {
	eng.Register(&eng.Prop{ID: "C17", Parts: []*eng.Part{
		eng.NewPart("compile", 168000, 2940000, "random proto files, or packages of up to 3 files that refer to each other (0..5, rarely 70 messages, up to 350 fields, all types and labels, recursive, colliding and odd names, odd packages), the generated file type-checked against the runtime's export data and its method sets compared with the schema; non-trivial: at least one of the unusual features",
			func(t *rapid.T) GenCase {
				c := GenCase{genFile(t, fileOpts{0, 5, 8, ref.MaxFieldNumber, true})}
				if gen.Pct(t, 25) {
					divide(t, &c.F, false)
				}
				return c
			}, runCompile,
			func(p *eng.Part) { p.Setup = setupExports }),
	}, Assumptions: []string{"message names are no Go keywords or predeclared identifiers, nor zeropb", "go/types stands for the compiler (C18 compiles for real)"}})
	eng.Register(&eng.Prop{ID: "C19", Parts: []*eng.Part{
		eng.NewPart("request", 160000, 2800000, "random requests: any subset of up to 6, rarely 300 files, in any order, with repetitions and absent names; generated three times, alone, and in the opposite order; non-trivial: some but not all files requested",
			func(t *rapid.T) desc.Request { return genRequest(t, fileOpts{0, 4, 6, 300000, true}) }, runRequest),
	}})
	eng.Register(&eng.Prop{ID: "C20", Parts: []*eng.Part{
		eng.NewPart("binary", 16000, 560000, "the built binary fed serialized requests (whole or in pieces, up to 64 MiB, padded for responses of chosen lengths) and corrupted ones, reading or writing made to fail in some cases; non-trivial: an invalid request, a fault, or a valid one with files to generate",
			genPlugin, runPlugin, func(p *eng.Part) {
				p.External = true
				p.Setup = setupBin("github.com/danhhz/zeropb/cmd/protoc-gen-zeropb")
			}),
	}, Assumptions: []string{"a request is invalid if both gogo/protobuf's and golang/protobuf's decoders reject it"}})
	eng.Register(&eng.Prop{ID: "C21", Parts: []*eng.Part{
		eng.NewPart("dump", 16000, 560000, "the built dumper fed serialized requests, arbitrary ones with every descriptor field set, and corrupted ones, its text parsed by gogo/protobuf and compared with the request, reading or writing made to fail in some cases; non-trivial: an invalid request, a fault, or a valid one with files",
			genDump, runText, func(p *eng.Part) {
				p.External = true
				p.Setup = setupBin("github.com/danhhz/zeropb/cmd/protoc-gen-text")
			}),
	}, Assumptions: []string{"requests with fields unknown to descriptor.proto are left out", "a request is invalid if both gogo/protobuf's and golang/protobuf's decoders reject it"}})
}
