// gmutate FILE SEED prints a copy of a Go file in which one random statement behaves differently
// under one random condition; the first line of standard error says what was done.
//
// Used by hand (tools/gmutants.py): such changes need something specific to show.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

var ints = map[string]bool{"fieldID": true, "field": true, "offset": true, "idx": true, "size": true, "s": true, "oldLen": true, "tagLen": true, "n": true,
	"lenSize": true, "msgLen": true, "l": true, "tag": true, "typ": true, "fieldEnd": true, "fieldBegin": true, "removedBytes": true, "oldValLen": true, "oldValLenLen": true, "minLen": true, "f": true}
var slices = map[string]bool{"buf": true, "val": true, "valLen": true, "msg": true}

// small are those whose values are below ten.
var small = map[string]bool{"uint64(tagLen)": true, "uint64(size)": true, "uint64(n)": true, "uint64(lenSize)": true, "uint64(typ)": true,
	"uint64(oldValLenLen)": true, "uint64(minLen)": true, "uint64(len(valLen))": true}

type edit struct {
	from, to int
	text     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	seed, _ := strconv.Atoi(os.Args[2])
	r := rand.New(rand.NewSource(int64(seed)))
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	type site struct {
		stmt  ast.Stmt
		cond  ast.Expr // of an if, instead
		stack []ast.Node
	}
	var sites []site
	var stack []ast.Node
	ast.Inspect(file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			if _, ok := stack[0].(*ast.File); ok && len(stack) > 1 {
				if _, ok := stack[1].(*ast.FuncDecl); ok {
					cp := append([]ast.Node{}, stack...)
					switch x := n.(type) {
					case *ast.AssignStmt, *ast.ExprStmt, *ast.ReturnStmt, *ast.IncDecStmt:
						switch p := stack[len(stack)-1].(type) {
						case *ast.BlockStmt, *ast.CaseClause:
							_ = p
							sites = append(sites, site{stmt: n.(ast.Stmt), stack: cp})
						}
					case *ast.IfStmt:
						if x.Init == nil {
							sites = append(sites, site{cond: x.Cond, stack: cp})
						}
					}
				}
			}
		}
		stack = append(stack, n)
		return true
	})
	for try := 0; try < 1000; try++ {
		s := sites[r.Intn(len(sites))]
		var node ast.Node = s.stmt
		if s.cond != nil {
			node = s.cond
		}
		// Variables in scope.
		var vi, vs []string
		ptr := false
		have := map[string]bool{}
		put := func(name string) {
			if have[name] {
				return
			}
			have[name] = true
			if ints[name] {
				vi = append(vi, "uint64("+name+")")
			} else if slices[name] {
				vs = append(vs, name)
			}
		}
		def := func(st ast.Stmt) {
			switch a := st.(type) {
			case *ast.AssignStmt:
				if a.Tok == token.DEFINE && a.End() < node.Pos() {
					for _, l := range a.Lhs {
						put(text(l))
					}
				}
			case *ast.DeclStmt:
				if g, ok := a.Decl.(*ast.GenDecl); ok && a.End() < node.Pos() {
					for _, sp := range g.Specs {
						if v, ok := sp.(*ast.ValueSpec); ok {
							for _, id := range v.Names {
								put(id.Name)
							}
						}
					}
				}
			}
		}
		for _, p := range s.stack {
			switch x := p.(type) {
			case *ast.FuncDecl:
				for _, f := range x.Type.Params.List {
					for _, id := range f.Names {
						if id.Name == "buf" && strings.HasPrefix(text(f.Type), "*") {
							ptr = true
						}
						put(id.Name)
					}
				}
			case *ast.BlockStmt:
				for _, st := range x.List {
					def(st)
				}
			case *ast.CaseClause:
				for _, st := range x.Body {
					def(st)
				}
			case *ast.IfStmt:
				if x.Init != nil {
					def(x.Init)
				}
			case *ast.ForStmt:
				if x.Init != nil {
					def(x.Init)
				}
			case *ast.RangeStmt:
				if x.Key != nil {
					put(text(x.Key))
				}
				if x.Value != nil {
					put(text(x.Value))
				}
			}
		}
		for _, v := range vs {
			if v == "buf" && ptr {
				v = "*buf"
			}
			vi = append(vi, "uint64(len("+v+"))")
		}
		if len(vi) == 0 {
			continue
		}
		one := func() string {
			a, b := vi[r.Intn(len(vi))], vi[r.Intn(len(vi))]
			for small[a] && r.Intn(3) > 0 {
				a = vi[r.Intn(len(vi))]
			}
			if small[a] {
				return fmt.Sprintf("%s == %d", a, 1+r.Intn(4))
			}
			for i := 0; (a == b || small[b]) && i < 20; i++ {
				b = vi[r.Intn(len(vi))]
			}
			m := []int{1, 3, 7, 15, 31, 63, 127}[r.Intn(7)]
			k := r.Intn(5)
			if (a == b || small[b]) && k > 1 {
				k = r.Intn(2)
			}
			switch k {
			case 0:
				return fmt.Sprintf("%s&%d == %d", a, m, r.Intn(m+1))
			case 1:
				return fmt.Sprintf("%s > %d", a, []int{5, 15, 40, 127, 200, 300, 1000, 5000, 20000, 70000}[r.Intn(10)])
			case 2:
				return fmt.Sprintf("%s == %s+%d", a, b, r.Intn(4))
			case 3:
				return fmt.Sprintf("%s > %s", a, b)
			}
			return fmt.Sprintf("(%s^%s)&%d == 0", a, b, m)
		}
		cond := one()
		if r.Intn(3) > 0 {
			cond += " && " + one()
		}
		// The change.
		var es []edit
		add := func(from, to token.Pos, t string) { es = append(es, edit{off(from), off(to), t}) }
		ast.Inspect(node, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				if sw := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.LAND: "||", token.LOR: "&&", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&"}[x.Op]; sw != "" {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), sw)
				}
				if x.Op == token.ADD || x.Op == token.SUB {
					add(x.Pos(), x.End(), text(x.X))
				}
			case *ast.BasicLit:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1))
					add(x.Pos(), x.End(), fmt.Sprint(v-1))
				}
			case *ast.Ident:
				if ints[x.Name] {
					add(x.Pos(), x.End(), "("+x.Name+"+1)")
					add(x.Pos(), x.End(), "("+x.Name+"-1)")
				}
				if x.Name == "nil" {
					return false
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					for _, t := range map[string][]string{"uint64": {"uint32", "uint16", "uint8"}, "int": {"int16", "int8"}, "int64": {"int32"}, "int32": {"int16"}, "uint32": {"uint16"}}[id.Name] {
						add(x.Pos(), x.End(), id.Name+"("+t+"("+text(x.Args[0])+"))")
					}
				}
			}
			return true
		})
		old := text(node)
		base := off(node.Pos())
		drop := s.cond == nil
		if a, ok := s.stmt.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
			drop = false
		}
		if _, ok := s.stmt.(*ast.ReturnStmt); ok {
			drop = false
		}
		var to string
		if drop && (len(es) == 0 || r.Intn(4) == 0) {
			to = ""
		} else if len(es) == 0 {
			continue
		} else {
			e := es[r.Intn(len(es))]
			to = old[:e.from-base] + e.text + old[e.to-base:]
		}
		var out string
		if s.cond != nil {
			out = fmt.Sprintf("(%s) && (%s) || !(%s) && (%s)", cond, to, cond, old)
		} else if a, ok := s.stmt.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
			eq := strings.Replace(to, ":=", "=", 1)
			out = old + "\nif " + cond + " {\n" + eq + "\n}"
		} else if _, ok := s.stmt.(*ast.ReturnStmt); ok {
			out = "if " + cond + " {\n" + to + "\n}\n" + old
		} else {
			out = "if " + cond + " {\n" + to + "\n} else {\n" + old + "\n}"
		}
		line := fset.Position(node.Pos()).Line
		fmt.Fprintf(os.Stderr, "line %d: when %s: %q -> %q\n", line, cond, old, to)
		os.Stdout.Write(src[:base])
		os.Stdout.WriteString(out)
		os.Stdout.Write(src[off(node.End()):])
		return
	}
	os.Exit(3)
}
