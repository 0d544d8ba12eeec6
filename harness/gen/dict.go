package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// A fuzzing dictionary: the constants that the code under test mentions. A
// condition on one particular length, count, number or name is met by chance
// hardly ever, by a value from the dictionary soon. It only steers what is
// generated; what is right and wrong doesn't depend on it.

type dict struct {
	ints   []uint64 // more than 3, as 64 bit two's complement
	floats []float64
	words  []string // identifier-like parts of string constants
	strs   []string
}

var theDict dict
var dictOnce sync.Once

func loaded() *dict {
	dictOnce.Do(func() {
		if dir := sourceDir(); dir != "" {
			theDict = loadDict(dir)
		}
	})
	return &theDict
}

// sourceDir is where the module under test lies.
func sourceDir() string {
	bi, ok := debug.ReadBuildInfo()
	if !ok {
		return ""
	}
	for _, d := range bi.Deps {
		if d.Path == "github.com/danhhz/zeropb" && d.Replace != nil && filepath.IsAbs(d.Replace.Path) {
			return d.Replace.Path
		}
	}
	return ""
}

type noImports struct{}

func (noImports) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	if path == "math" {
		for n, v := range map[string]int64{"MaxInt8": math.MaxInt8, "MaxUint8": math.MaxUint8, "MaxInt16": math.MaxInt16, "MaxUint16": math.MaxUint16,
			"MaxInt32": math.MaxInt32, "MaxUint32": math.MaxUint32, "MaxInt64": math.MaxInt64, "MinInt64": math.MinInt64, "MinInt32": math.MinInt32} {
			p.Scope().Insert(types.NewConst(token.NoPos, p, n, types.Typ[types.UntypedInt], constant.MakeInt64(v)))
		}
	}
	p.MarkComplete()
	return p, nil
}

func loadDict(dir string) (d dict) {
	ints, floats, words, strs := map[uint64]bool{}, map[float64]bool{}, map[string]bool{}, map[string]bool{}
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(v); ok {
				ints[uint64(i)] = true
			} else if u, ok := constant.Uint64Val(v); ok {
				ints[u] = true
			}
		case constant.Float:
			f, _ := constant.Float64Val(v)
			floats[f] = true
		case constant.String:
			s := constant.StringVal(v)
			if len(s) == 0 || len(s) > 60 {
				return
			}
			strs[s] = true
			for _, w := range strings.FieldsFunc(s, func(r rune) bool { return !(r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)) || r == '_') }) {
				if (w[0] < '0' || w[0] > '9') && w != "main" && w != "init" {
					words[w] = true
				}
			}
		}
	}
	for _, pkg := range []string{".", "generate", "cmd/protoc-gen-zeropb", "cmd/protoc-gen-text"} {
		names, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
		fset := token.NewFileSet()
		var files []*ast.File
		var own []*ast.File
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(n)
			if err != nil {
				continue
			}
			f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
			if err != nil || f == nil {
				continue
			}
			generated := ast.IsGenerated(f)
			if generated && len(src) > 1<<16 {
				continue
			}
			files = append(files, f)
			if !generated {
				own = append(own, f)
			}
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: noImports{}, Error: func(error) {}}
		func() {
			defer func() { recover() }()
			conf.Check(pkg, fset, files, info)
		}()
		for _, f := range own {
			ast.Inspect(f, func(n ast.Node) bool {
				if imp, ok := n.(*ast.ImportSpec); ok && imp != nil {
					return false
				}
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				if tv, ok := info.Types[e]; ok && tv.Value != nil {
					add(tv.Value)
				}
				if l, ok := e.(*ast.BasicLit); ok {
					if v := constant.MakeFromLiteral(l.Value, l.Kind, 0); v.Kind() != constant.Unknown {
						add(v)
					}
				}
				return true
			})
		}
	}
	for v := range ints {
		if int64(v) > 3 || int64(v) < -3 {
			d.ints = append(d.ints, v)
		}
	}
	sort.Slice(d.ints, func(i, j int) bool { return d.ints[i] < d.ints[j] })
	for v := range floats {
		d.floats = append(d.floats, v)
	}
	sort.Float64s(d.floats)
	for v := range words {
		d.words = append(d.words, v)
	}
	sort.Strings(d.words)
	for v := range strs {
		d.strs = append(d.strs, v)
	}
	sort.Strings(d.strs)
	return d
}

// Dict draws a number from lo to hi that is in the dictionary, or close to one.
func Dict(t *T, lo, hi int) (int, bool) {
	var xs []int
	for _, v := range loaded().ints {
		if x := int(v); x >= lo && x <= hi {
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		return 0, false
	}
	x := xs[uniform(t, len(xs))]
	switch uniform(t, 8) {
	case 4:
		x++
	case 5:
		x--
	case 6:
		x += uniform(t, 16)
	case 7:
		x -= uniform(t, 16)
	}
	if x < lo || x > hi {
		return 0, false
	}
	return x, true
}

// Near draws one of xs or, in one case out of eight, a number from lo to hi that is
// near one of the dictionary.
func Near(t *T, lo, hi int, xs ...int) int {
	if uniform(t, 8) == 7 {
		if x, ok := Dict(t, lo, hi); ok {
			return x
		}
	}
	return Of(t, xs...)
}

// Word draws one of xs or, in one case out of eight, an identifier made of those in
// the dictionary.
func Word(t *T, xs ...string) string {
	if ws := loaded().words; len(ws) > 0 && uniform(t, 8) == 7 {
		w := ws[uniform(t, len(ws))]
		switch uniform(t, 8) {
		case 4:
			w += xs[uniform(t, len(xs))]
		case 5:
			w = xs[uniform(t, len(xs))] + w
		case 6:
			w += "_" + ws[uniform(t, len(ws))]
		case 7:
			w += strconv.Itoa(uniform(t, 10))
		}
		return w
	}
	return Of(t, xs...)
}

// dictBytes draws the contents of a blob.
func dictBytes(t *T) []byte {
	d := loaded()
	if len(d.strs) > 0 && uniform(t, 4) == 3 {
		return []byte(d.strs[uniform(t, len(d.strs))])
	}
	var xs []byte
	for _, v := range d.ints {
		if v < 256 {
			xs = append(xs, byte(v))
		}
	}
	if len(xs) == 0 {
		return []byte{0}
	}
	var b []byte
	for n := 1 + uniform(t, 4); n > 0; n-- {
		b = append(b, xs[uniform(t, len(xs))])
	}
	return b
}

// dictScalar draws a number in the dictionary, or near one.
func dictScalar(t *T) (uint64, bool) {
	d := loaded()
	if len(d.ints) == 0 {
		return 0, false
	}
	v := d.ints[uniform(t, len(d.ints))]
	switch uniform(t, 8) {
	case 4:
		v++
	case 5:
		v--
	case 6:
		v = -v
	case 7:
		// Often a number of bits.
		v = 1<<(v&63) - uint64(uniform(t, 2))
	}
	return v, true
}

// dictFloat draws a floating point number in the dictionary.
func dictFloat(t *T) (float64, bool) {
	d := loaded()
	n := len(d.ints) + len(d.floats)
	if n == 0 {
		return 0, false
	}
	i := uniform(t, n)
	if i < len(d.floats) {
		return d.floats[i], true
	}
	return float64(int64(d.ints[i-len(d.floats)])), true
}
