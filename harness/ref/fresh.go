package ref

import "fmt"

// Fresh are the schemas that code is generated for when a check is built, so
// that the checks of the runtime also run on generated types that are not the
// golden ones. Their names are "fresh0" on.
func Fresh() []*Schema {
	freshMsgs := [][]Msg{
		// A tree: a type that refers to itself in every way.
		{{Name: "Node", F: []Field{
			{N: 1, K: String, Name: "label"}, {N: 2, K: Message, M: 0, Name: "left"}, {N: 3, K: Message, M: 0, Name: "right"},
			{N: 4, K: Message, M: 0, Rep: true, Name: "kids"}, {N: 5, K: Bytes, Name: "data"}, {N: 6, K: Sint64, Name: "rank"},
			{N: 7, K: Bool, Name: "ok"}, {N: 48, K: Message, M: 0, Rep: true, Name: "more"}, {N: 70, K: Message, M: 0, Name: "up"},
			{N: 200, K: Message, M: 0, Rep: true, Name: "far"}, {N: 300, K: Message, M: 0, Name: "root"}}}},
		// Types that refer to each other, numbers at the borders of tag sizes.
		{{Name: "A", F: []Field{
			{N: 2, K: Message, M: 1, Rep: true, Name: "bs"}, {N: 1, K: Message, M: 1, Name: "b"}, {N: 3, K: Fixed64, Name: "x"},
			{N: 15, K: String, Name: "s"}, {N: 16, K: Fixed32, Name: "f"}}},
			{Name: "B", F: []Field{
				{N: 2048, K: Float, Name: "fl"}, {N: 2047, K: Double, Name: "d"}, {N: 17, K: Sint32, Name: "y"},
				{N: 16, K: Message, M: 0, Name: "a"}, {N: 15, K: Message, M: 0, Rep: true, Name: "as"}, {N: 7, K: Message, M: 2, Name: "none"}}},
			{Name: "Nothing"}},
		// All kinds, in no order, with required labels, and several repeated fields
		// of one type.
		{{Name: "Leaf", F: []Field{{N: 1, K: Uint64, Name: "u"}, {N: 2, K: Bytes, Name: "by", Req: true}}},
			{Name: "Kinds", F: []Field{
				{N: 31, K: Bytes, Name: "bytes_"}, {N: 1, K: Message, M: 0, Rep: true, Name: "r1"}, {N: 30, K: String, Name: "string", Req: true},
				{N: 16, K: Message, M: 0, Rep: true, Name: "r2"}, {N: 29, K: Float, Name: "float"}, {N: 127, K: Message, M: 0, Rep: true, Name: "r3"},
				{N: 2, K: Bool, Name: "bool", Req: true}, {N: 4, K: Int32, Name: "int32"}, {N: 6, K: Int64, Name: "int64"}, {N: 8, K: Uint32, Name: "uint32"},
				{N: 10, K: Uint64, Name: "uint64"}, {N: 12, K: Sint32, Name: "sint32", Req: true}, {N: 14, K: Sint64, Name: "sint64"},
				{N: 15, K: Fixed32, Name: "fixed32"}, {N: 128, K: Fixed64, Name: "fixed64"}, {N: 20, K: Sfixed32, Name: "sfixed32"},
				{N: 22, K: Sfixed64, Name: "sfixed64"}, {N: 24, K: Double, Name: "double"}, {N: 25, K: Enum, Name: "enum"},
				{N: 26, K: Message, M: 0, Name: "m1"}, {N: 27, K: Message, M: 0, Name: "m2", Req: true}, {N: 3, K: Message, M: 1, Name: "self"}}}},
		// Names that get in the way of each other.
		{{Name: "Message", F: []Field{
			{N: 1, K: Uint32, Name: "x"}, {N: 2, K: Uint32, Name: "set_x"}, {N: 3, K: String, Name: "encode"}, {N: 4, K: Bytes, Name: "Decode"},
			{N: 5, K: Bool, Name: "reset"}, {N: 6, K: Message, M: 1, Rep: true, Name: "kids"}, {N: 7, K: Int64, Name: "append_to_kids"},
			{N: 8, K: Uint64, Name: "buf"}, {N: 9, K: Fixed32, Name: "offsets"}, {N: 10, K: Message, M: 2, Name: "m"}, {N: 11, K: Double, Name: "SetX"},
			{N: 12, K: String, Name: "type"}, {N: 13, K: Sint32, Name: "_y"}, {N: 14, K: Bytes, Name: "y_"}, {N: 15, K: Message, M: 2, Rep: true, Name: "range"}}},
			{Name: "Message_Kids", F: []Field{{N: 1, K: String, Name: "next"}, {N: 2, K: Uint64, Name: "v"}}},
			{Name: "MessageKidsIterator", F: []Field{{N: 1, K: Bytes, Name: "next"}, {N: 2, K: Sint64, Name: "buf"}}}},
		// Many fields.
		nil,
		// Few fields, far apart.
		{{Name: "Sparse", F: []Field{
			{N: 5000, K: Uint64, Name: "last"}, {N: 1, K: String, Name: "first"}, {N: 127, K: Sint32, Name: "a"}, {N: 128, K: Bytes, Name: "b"},
			{N: 255, K: Bool, Name: "c"}, {N: 256, K: Fixed64, Name: "d"}, {N: 1023, K: Message, M: 1, Name: "e"}, {N: 1024, K: Message, M: 1, Rep: true, Name: "f"},
			{N: 2047, K: Int32, Name: "g"}, {N: 2048, K: Enum, Name: "h"}, {N: 4095, K: Sfixed32, Name: "i"}, {N: 4096, K: String, Name: "j"},
			{N: 3000, K: Message, M: 0, Rep: true, Name: "k"}, {N: 3100, K: Message, M: 0, Name: "l"}}},
			{Name: "One", F: []Field{{N: 600, K: Uint32, Name: "one"}, {N: 601, K: Message, M: 1, Rep: true, Name: "ones"}}}},
		// Types of one field or none.
		{{Name: "OnlyRep", F: []Field{{N: 1, K: Message, M: 1, Rep: true, Name: "rs"}}},
			{Name: "OnlyMsg", F: []Field{{N: 3, K: Message, M: 2, Name: "m"}}},
			{Name: "OnlyBool", F: []Field{{N: 1, K: Bool, Name: "b"}}},
			{Name: "Empty"},
			{Name: "Empties", F: []Field{{N: 1, K: Message, M: 3, Rep: true, Name: "es"}, {N: 2, K: Message, M: 3, Name: "e"}}},
			{Name: "Chain", F: []Field{{N: 2, K: Message, M: 5, Rep: true, Name: "chain"}}}},
		// Repeated fields that have no accessors, among others.
		{{Name: "Mixed", F: []Field{
			{N: 1, K: Uint32, Rep: true, Name: "us"}, {N: 2, K: String, Name: "s"}, {N: 3, K: String, Rep: true, Name: "ss"},
			{N: 4, K: Message, M: 1, Rep: true, Name: "ms"}, {N: 5, K: Bytes, Rep: true, Name: "bs"}, {N: 6, K: Enum, Rep: true, Name: "es"},
			{N: 7, K: Fixed64, Rep: true, Name: "fs"}, {N: 8, K: Int64, Name: "i"}, {N: 9, K: Message, M: 0, Name: "m"}}},
			{Name: "Scalars", F: []Field{{N: 1, K: Double, Rep: true, Name: "ds"}, {N: 2, K: Bool, Rep: true, Name: "bs"}, {N: 3, K: Enum, Name: "e"}}}},
	}
	wide := Msg{Name: "Wide"}
	for n := 1; n <= 300; n++ {
		f := Field{N: n, K: Kind((n * 7) % int(NumKinds)), Name: fmt.Sprintf("w_%d", n)}
		if f.K == Message {
			f.M, f.Rep = 1, n%3 != 0
		}
		wide.F = append(wide.F, f)
	}
	freshMsgs[4] = []Msg{wide, {Name: "Part", F: []Field{{N: 1, K: Uint64, Name: "u"}, {N: 2, K: String, Name: "s"}, {N: 3, K: Message, M: 1, Rep: true, Name: "p"}}}}
	for seed := uint64(1); seed <= 8; seed++ {
		freshMsgs = append(freshMsgs, drawn(seed))
	}
	var out []*Schema
	for i, ms := range freshMsgs {
		out = append(out, &Schema{Name: fmt.Sprintf("fresh%d", i), Msgs: ms})
	}
	return out
}

var fresh = func() map[string]*Schema {
	out := map[string]*Schema{}
	for _, s := range Fresh() {
		out[s.Name] = s
	}
	return out
}()

// NumFresh is the number of fresh schemas.
var NumFresh = len(fresh)

// drawn is a schema drawn by the seed, always the same.
func drawn(seed uint64) []Msg {
	x := seed * 0x9e3779b97f4a7c15
	rnd := func(n int) int {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x>>33) % n
	}
	words := []string{"id", "user_name", "payload", "Value", "isSet", "x", "next", "item_2", "go", "len", "a_b_c", "Data", "sub_msg", "time_ns", "k", "kind", "URL", "f"}
	var ms []Msg
	for i, n := 0, 1+rnd(5); i < n; i++ {
		ms = append(ms, Msg{Name: fmt.Sprintf("%sT%d", []string{"", "Msg_", "Big"}[rnd(3)], i)})
	}
	for i := range ms {
		used := map[int]bool{}
		for k, n := 0, rnd(16); k < n; k++ {
			f := Field{N: 1 + rnd(20), K: Kind(rnd(int(NumKinds))), Req: rnd(5) == 0}
			switch rnd(8) {
			case 0:
				f.N = 1 + rnd(300)
			case 1:
				f.N = []int{15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 1500, 2047, 2048}[rnd(14)]
			case 2:
				f.K = Message
			}
			if used[f.N] {
				continue
			}
			used[f.N] = true
			f.Rep = f.K == Message && rnd(2) == 0 || rnd(10) == 0
			f.Req = f.Req && !f.Rep
			if f.K == Message {
				f.M = rnd(len(ms))
			}
			f.Name = fmt.Sprintf("%s_%d", words[rnd(len(words))], k)
			if rnd(3) == 0 {
				f.Name = fmt.Sprintf("%s%d", words[rnd(len(words))], k)
			}
			ms[i].F = append(ms[i].F, f)
		}
	}
	return ms
}
