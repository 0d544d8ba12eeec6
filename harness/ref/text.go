package ref

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Text is the protobuf text form of a well-formed encoding, fields in the order
// of their numbers. enumName names enum values. Fields that the message doesn't
// have are left out.
func Text(s *Schema, mi int, enc []byte, enumName func(u uint64) string) string {
	var b strings.Builder
	text(&b, s, mi, enc, enumName, "")
	return b.String()
}

func text(b *strings.Builder, s *Schema, mi int, enc []byte, enumName func(u uint64) string, ind string) {
	spans, err := Parse(enc)
	if err != nil {
		fmt.Fprintf(b, "%s# malformed: %v\n", ind, err)
		return
	}
	sort.SliceStable(spans, func(i, j int) bool { return spans[i].BigN < spans[j].BigN })
	for _, sp := range spans {
		f := fieldOf(&s.Msgs[mi], sp.BigN)
		if f == nil {
			continue
		}
		if f.K == Message {
			fmt.Fprintf(b, "%s%s {\n", ind, f.Name)
			text(b, s, f.M, sp.Payload, enumName, ind+"  ")
			fmt.Fprintf(b, "%s}\n", ind)
			continue
		}
		fmt.Fprintf(b, "%s%s: ", ind, f.Name)
		if f.K == String || f.K == Bytes {
			b.WriteByte('"')
			for _, c := range sp.Payload {
				fmt.Fprintf(b, "\\%03o", c)
			}
			b.WriteString("\"\n")
			continue
		}
		u := FromWire(f.K, sp.U)
		var v string
		switch f.K {
		case Bool:
			v = strconv.FormatBool(u != 0)
		case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
			v = strconv.FormatInt(int64(u), 10)
		case Double:
			v = float(math.Float64frombits(u))
		case Float:
			v = float(float64(math.Float32frombits(uint32(u))))
		case Enum:
			v = enumName(u)
		default:
			v = strconv.FormatUint(u, 10)
		}
		b.WriteString(v + "\n")
	}
}

func float(x float64) string {
	switch {
	case math.IsInf(x, 1):
		return "inf"
	case math.IsInf(x, -1):
		return "-inf"
	case math.IsNaN(x):
		return "nan"
	}
	return strconv.FormatFloat(x, 'e', 17, 64)
}
