// mutate FILE            lists the mutants of a Go file
// mutate FILE N          prints the file with mutant N applied
//
// Used by hand (tools/mutants.py) to look for changes the checks miss.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(from, to token.Pos, s, what string) { es = append(es, edit{off(from), off(to), s, what}) }
	swaps := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.QUO: {"*"},
	}
	assigns := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+="}
	seen := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
			}
			if x.Op == token.ADD || x.Op == token.SUB {
				add(x.Pos(), x.End(), text(x.X), "drop right")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), "const+1")
					add(x.Pos(), x.End(), fmt.Sprint(v-1), "const-1")
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
			add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
		case *ast.ForStmt:
			if x.Post != nil {
				add(x.Post.Pos(), x.Post.End(), "", "no post")
			}
		case *ast.AssignStmt:
			if s := assigns[x.Tok]; s != "" {
				add(x.TokPos, x.TokPos+2, s, "assign op")
			}
			for _, l := range x.Rhs {
				if c, ok := l.(*ast.SliceExpr); ok && c.Slice3 {
					add(c.High.End(), c.Max.End(), "", "slice3")
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "low+1")
			}
			if x.High != nil {
				add(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "high-1")
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "", "drop stmt")
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.RangeStmt, *ast.ForStmt:
					add(s.Pos(), s.End(), "", "drop stmt")
				case *ast.IfStmt:
					if y.Else == nil && y.Init == nil {
						add(s.Pos(), s.End(), "", "drop stmt")
					}
				case *ast.ReturnStmt:
					if len(y.Results) == 0 {
						add(s.Pos(), s.End(), "", "drop stmt")
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				switch s.(type) {
				case *ast.AssignStmt, *ast.ExprStmt, *ast.BranchStmt:
					add(s.Pos(), s.End(), "", "drop stmt")
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
				narrow := map[string][]string{"uint64": {"uint32", "uint16"}, "int": {"int32", "int16"}, "int64": {"int32"}, "int32": {"int16"}, "uint32": {"uint16"}}
				back := id.Name
				for _, t := range narrow[id.Name] {
					add(x.Pos(), x.End(), back+"("+t+"("+text(x.Args[0])+"))", "narrow "+t)
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out []edit
	for _, e := range es {
		k := fmt.Sprint(e.from, e.to, e.text)
		if !seen[k] && string(src[e.from:e.to]) != e.text {
			seen[k] = true
			out = append(out, e)
		}
	}
	if len(os.Args) < 3 {
		for i, e := range out {
			line := 1
			for _, c := range src[:e.from] {
				if c == '\n' {
					line++
				}
			}
			fmt.Printf("%d\t%d\t%s\t%q -> %q\n", i, line, e.what, src[e.from:e.to], e.text)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := out[n]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
