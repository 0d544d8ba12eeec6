package props

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	gogo "github.com/gogo/protobuf/proto"
	plugin "github.com/gogo/protobuf/protoc-gen-gogo/plugin"
	"pgregory.net/rapid"
	"verif/harness/gen"
)

// AnyReq is a request that need not make sense: every field of every descriptor
// type may be set to anything.
type AnyReq struct {
	Seed int64 `json:"seed"`
	// Budget of fields to set.
	Budget int `json:"budget"`
	// The field numbered Field (see descFields), if repeated, gets Many elements
	// where it occurs first, and contents of Many bytes, if a string.
	Field int `json:"field"`
	Many  int `json:"many"`
}

// descField is a field of a descriptor type.
type descField struct {
	T reflect.Type
	I int
}

// descFields are the fields that AnyReq.Field numbers: those of all types, in the
// order in which they are found.
var descFields = func() (fs []descField) {
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); anyKnown(f) {
				if k := f.Type.Kind(); k == reflect.Slice || f.Type == reflect.TypeOf((*string)(nil)) {
					fs = append(fs, descField{t, i})
				}
				if e := elem(f.Type); e.Kind() == reflect.Struct {
					walk(e)
				}
			}
		}
	}
	walk(reflect.TypeOf(plugin.CodeGeneratorRequest{}))
	return fs
}()

func anyKnown(f reflect.StructField) bool { return f.Tag.Get("protobuf") != "" }

// elem strips slices and pointers.
func elem(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	return t
}

// reaches tells whether a message of type t can hold one of type u.
func reaches(t, u reflect.Type, seen map[reflect.Type]bool) bool {
	if t == u {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for i := 0; i < t.NumField(); i++ {
		if e := elem(t.Field(i).Type); anyKnown(t.Field(i)) && e.Kind() == reflect.Struct && reaches(e, u, seen) {
			return true
		}
	}
	return false
}

func genAny(t *rapid.T) *AnyReq {
	a := &AnyReq{Seed: int64(gen.Int(t, 0, 1<<30)), Budget: gen.Of(t, 3, 20, 100, 400), Field: gen.Int(t, 0, len(descFields)-1)}
	a.Many = gen.Near(t, 0, 3000, 0, 1, 2, 3, 10, 50, 255, 256, 257, 1000, 1024)
	if gen.Pct(t, 30) {
		a.Many = gen.Near(t, 0, 70000, 0, 1, 100, 300, 600, 4095, 4096, 4097, 65536)
	}
	return a
}

type anyFiller struct {
	r      *rand.Rand
	c      *AnyReq
	target descField
	found  bool
	left   int
}

func (a *AnyReq) message() *plugin.CodeGeneratorRequest {
	m := new(plugin.CodeGeneratorRequest)
	x := &anyFiller{r: rand.New(rand.NewSource(a.Seed)), c: a, left: a.Budget, target: descFields[a.Field%len(descFields)]}
	x.fill(reflect.ValueOf(m).Elem(), 0)
	return m
}

func (x *anyFiller) fill(v reflect.Value, depth int) {
	t := v.Type()
	// The way to the field comes first, for the budget may be used up later.
	order := x.r.Perm(t.NumField())
	toward := -1
	if !x.found && t != x.target.T {
		for _, i := range order {
			if e := elem(t.Field(i).Type); anyKnown(t.Field(i)) && e.Kind() == reflect.Struct && e != t && reaches(e, x.target.T, map[reflect.Type]bool{t: true}) {
				toward = i
				break
			}
		}
	} else if !x.found {
		toward = x.target.I
	}
	if toward >= 0 {
		x.field(v.Field(toward), t, toward, depth, true)
	}
	for _, i := range order {
		f := t.Field(i)
		if i == toward || !anyKnown(f) {
			continue
		}
		required := strings.Contains(f.Tag.Get("protobuf"), ",req,")
		if !required && (x.left <= 0 || depth > 12 || x.r.Intn(3) == 0) {
			continue
		}
		x.left--
		x.field(v.Field(i), t, i, depth, false)
	}
}

func (x *anyFiller) field(v reflect.Value, t reflect.Type, i, depth int, must bool) {
	tag := t.Field(i).Tag.Get("protobuf")
	n := 1 + x.r.Intn(3)
	here := !x.found && x.target == descField{t, i}
	if here {
		x.found, n = true, x.c.Many
	} else if !must && x.r.Intn(6) == 0 {
		n = x.r.Intn(20)
	}
	switch {
	case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8:
		b := []byte(x.str(here))
		v.SetBytes(b)
	case v.Kind() == reflect.Slice:
		s := reflect.MakeSlice(v.Type(), n, n)
		if n == 0 {
			return
		}
		for k := 0; k < n; k++ {
			x.set(s.Index(k), tag, depth, here && v.Type().Elem().Kind() != reflect.Ptr && v.Type().Elem().Kind() != reflect.String)
		}
		v.Set(s)
	default:
		x.set(v, tag, depth, here)
	}
}

func (x *anyFiller) str(here bool) string {
	if here {
		b := make([]byte, x.c.Many)
		for i := range b {
			b[i] = "abcdefgh \n"[x.r.Intn(10)]
			if x.r.Intn(50) == 0 {
				b[i] = byte(x.r.Intn(256))
			}
		}
		return string(b)
	}
	return []string{"", "a", "foo.bar", "x\ny", "\"", "\\", "'", "\x00", "\xff\xfe", "ü", "日本", "\t\r\n", "\x7f", "a\\n", "{}<>:", "#x", "\u2028", "0123456789abcdef", ".a.B", "TYPE_INT32"}[x.r.Intn(20)]
}

func (x *anyFiller) set(v reflect.Value, tag string, depth int, here bool) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		if v.Elem().Kind() == reflect.Struct {
			x.fill(v.Elem(), depth+1)
		} else {
			x.set(v.Elem(), tag, depth, here)
		}
	case reflect.String:
		v.SetString(x.str(here))
	case reflect.Bool:
		v.SetBool(x.r.Intn(2) == 0)
	case reflect.Int32:
		if k := strings.Index(tag, "enum="); k >= 0 {
			var vs []int32
			for _, e := range gogo.EnumValueMap(tag[k+len("enum="):]) {
				vs = append(vs, e)
			}
			// In no particular order: the smallest from a drawn number on.
			lo, best := int32(x.r.Intn(20)), int32(math.MaxInt32)
			for _, e := range vs {
				if e >= lo && e < best {
					best = e
				}
			}
			if best == math.MaxInt32 {
				for _, e := range vs {
					best = min(best, e)
				}
			}
			v.SetInt(int64(best))
			return
		}
		v.SetInt([]int64{0, 1, -1, 127, 128, math.MaxInt32, math.MinInt32, int64(x.r.Intn(10000))}[x.r.Intn(8)])
	case reflect.Int64:
		v.SetInt([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 40}[x.r.Intn(6)])
	case reflect.Uint64:
		v.SetUint([]uint64{0, 1, math.MaxUint64, 1 << 63, 300}[x.r.Intn(5)])
	case reflect.Float64:
		v.SetFloat([]float64{0, 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 0.1}[x.r.Intn(8)])
	default:
		panic("descriptor field of type " + v.Type().String() + " " + strconv.Quote(tag))
	}
}

func (a *AnyReq) bytes() []byte {
	b, err := gogo.Marshal(a.message())
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return b
}
