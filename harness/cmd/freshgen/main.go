// freshgen DIR ROOT generates code for the schemas of ref.Fresh into DIR, and
// writes DIR/overlay.json, which puts it into the package fresh of the harness
// at ROOT. Schemas whose generated code is not valid Go are left out.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/danhhz/zeropb/generate"
	"github.com/golang/protobuf/proto"
	"verif/harness/desc"
	"verif/harness/ref"
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// source is the code generated for s, or "".
func source(s *ref.Schema) (src string) {
	defer func() {
		if recover() != nil {
			src = ""
		}
	}()
	f := desc.File{Name: s.Name + ".proto", Pkg: s.Name, HasPkg: true, Msgs: s.Msgs}
	r := desc.Request{Files: []desc.File{f}, Gen: []string{f.Name}}
	req := new(generate.CodeGeneratorRequest)
	if proto.Unmarshal(r.Bytes(), req) != nil {
		return ""
	}
	res, err := generate.Generate(req)
	if err != nil || len(res.File) != 1 {
		return ""
	}
	return res.File[0].GetContent()
}

func main() {
	dir, root := os.Args[1], os.Args[2]
	go func() {
		time.Sleep(60 * time.Second)
		os.Exit(1)
	}()
	over := map[string]string{}
	put := func(rel, src string) {
		at := filepath.Join(dir, strings.Replace(rel, "/", "-", -1))
		check(os.WriteFile(at, []byte(src), 0o644))
		over[filepath.Join(root, "fresh", rel)] = at
	}
	var imports, types, direct, vars strings.Builder
	for _, s := range ref.Fresh() {
		src := source(s)
		f, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, parser.SkipObjectResolution)
		if err != nil || len(messages(f)) == 0 {
			continue
		}
		types.WriteString(fmt.Sprintf("\t%q: {\n", s.Name))
		for _, n := range messages(f) {
			fmt.Fprintf(&types, "\t\t%q: func() interface{} { return new(%s.%s) },\n", n, s.Name, n)
		}
		types.WriteString("\t},\n")
		fmt.Fprintf(&direct, "\t%q: {\n", s.Name)
		for _, n := range messages(f) {
			fmt.Fprintf(&vars, "var sub_%s_%s, none_%s_%s %s.%s\n", s.Name, n, s.Name, n, s.Name, n)
			fmt.Fprintf(&vars, "var some_%s_%s = func() (m %s.%s) {\n\t_ = m.Decode([]byte(Some))\n\treturn m\n}()\n", s.Name, n, s.Name, n)
			fmt.Fprintf(&direct, "\t\t%q: {\n%s\t\t},\n", n, calls(f, s.Name, n))
		}
		direct.WriteString("\t},\n")
		fmt.Fprintf(&imports, "\t%s %q\n", s.Name, "verif/harness/fresh/"+s.Name)
		put(s.Name+"/gen.go", src)
	}
	put("all.go", "package fresh\n\nimport (\n"+imports.String()+")\n\nvar Types = map[string]map[string]func() interface{}{\n"+types.String()+"}\n\n"+vars.String()+"\nvar Direct = map[string]map[string]Calls{\n"+direct.String()+"}\n")
	b, err := json.Marshal(map[string]interface{}{"Replace": over})
	check(err)
	check(os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644))
}

// calls writes the calls of all the methods of a message type.
func calls(f *ast.File, pkg, typ string) string {
	msgs := map[string]bool{}
	for _, n := range messages(f) {
		msgs[n] = true
	}
	var read, write strings.Builder
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || !ast.IsExported(fd.Name.Name) {
			continue
		}
		st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
		if !ok {
			continue
		}
		if id, ok := st.X.(*ast.Ident); !ok || id.Name != typ {
			continue
		}
		n := fd.Name.Name
		if n == "Encode" || n == "Decode" || n == "Reset" {
			continue
		}
		var in, out []ast.Expr
		for _, x := range fd.Type.Params.List {
			in = append(in, x.Type)
		}
		if fd.Type.Results != nil {
			for _, x := range fd.Type.Results.List {
				out = append(out, x.Type)
			}
		}
		switch {
		case len(in) == 0 && len(out) == 1:
			switch t := name(out[0]); t {
			case "bool":
				fmt.Fprintf(&read, "\t\t\t\tSink.T = m.%s()\n", n)
			case "string":
				fmt.Fprintf(&read, "\t\t\t\tSink.S = m.%s()\n", n)
			case "[]byte":
				fmt.Fprintf(&read, "\t\t\t\tSink.B = m.%s()\n", n)
			case "float64", "float32":
				fmt.Fprintf(&read, "\t\t\t\tSink.F += float64(m.%s())\n", n)
			case "int32", "int64", "uint32", "uint64":
				fmt.Fprintf(&read, "\t\t\t\tSink.U += uint64(m.%s())\n", n)
			default:
				// An iterator: its element is what its Next takes.
				if e := element(f, t); msgs[e] {
					fmt.Fprintf(&read, "\t\t\t\tfor it := m.%s(); ; {\n\t\t\t\t\tok, err := it.Next(&sub_%s_%s)\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn false\n\t\t\t\t\t}\n\t\t\t\t\tif !ok {\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t}\n", n, pkg, e)
				}
			}
		case len(in) == 1 && len(out) == 2:
			if st, ok := in[0].(*ast.StarExpr); ok && msgs[name(st.X)] {
				fmt.Fprintf(&read, "\t\t\t\tif ok, err := m.%s(&sub_%s_%s); err != nil {\n\t\t\t\t\treturn false\n\t\t\t\t} else {\n\t\t\t\t\tSink.T = ok\n\t\t\t\t}\n", n, pkg, name(st.X))
			}
		case len(in) == 1 && len(out) == 0:
			v := ""
			switch t := name(in[0]); t {
			case "bool":
				v = "u&1 != 0"
			case "string":
				v = "s"
			case "[]byte":
				v = "b"
			case "float64", "float32", "int32", "int64", "uint32", "uint64":
				v = t + "(u)"
			default:
				if !msgs[t] {
					continue
				}
				v = "none_" + pkg + "_" + t
				fmt.Fprintf(&write, "\t\t\t\tif u&2 != 0 {\n\t\t\t\t\tm.%s(some_%s_%s)\n\t\t\t\t}\n", n, pkg, t)
			}
			fmt.Fprintf(&write, "\t\t\t\tm.%s(%s)\n", n, v)
		}
	}
	cast := fmt.Sprintf("\t\t\t\tm := p.(*%s.%s)\n\t\t\t\t_ = m\n", pkg, typ)
	return "\t\t\tRead: func(p interface{}) bool {\n" + cast + read.String() + "\t\t\t\treturn true\n\t\t\t},\n" +
		"\t\t\tWrite: func(p interface{}, u uint64, s string, b []byte) {\n" + cast + write.String() + "\t\t\t},\n" +
		fmt.Sprintf("\t\t\tBase: func(p interface{}) Base { return p.(*%s.%s) },\n", pkg, typ)
}

// name of a type.
func name(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.ArrayType:
		if e.Len == nil && name(e.Elt) == "byte" {
			return "[]byte"
		}
	}
	return ""
}

// element is the type that the Next method of an iterator takes.
func element(f *ast.File, it string) string {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || fd.Name.Name != "Next" || len(fd.Type.Params.List) != 1 {
			continue
		}
		st, ok := fd.Recv.List[0].Type.(*ast.StarExpr)
		if !ok || name(st.X) != it {
			continue
		}
		if a, ok := fd.Type.Params.List[0].Type.(*ast.StarExpr); ok {
			return name(a.X)
		}
	}
	return ""
}

// messages lists the types that have the methods of a message.
func messages(f *ast.File) []string {
	have := map[string]int{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || len(fd.Recv.List) != 1 {
			continue
		}
		t := fd.Recv.List[0].Type
		if st, ok := t.(*ast.StarExpr); ok {
			t = st.X
		}
		id, ok := t.(*ast.Ident)
		if !ok {
			continue
		}
		switch fd.Name.Name {
		case "Encode", "Decode", "Reset":
			have[id.Name]++
		}
	}
	var out []string
	for n, k := range have {
		if k == 3 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
