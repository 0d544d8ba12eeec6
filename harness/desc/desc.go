// Package desc describes proto files, and turns the descriptions into
// descriptors (gogo/protobuf's types, independent of the code under test) and
// .proto text.
package desc

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	plugin "github.com/gogo/protobuf/protoc-gen-gogo/plugin"
	"verif/harness/ref"
)

// File is a proto file.
type File struct {
	Name string `json:"name"`
	// Pkg is the package; HasPkg is false if there is no package statement.
	Pkg    string    `json:"pkg,omitempty"`
	HasPkg bool      `json:"haspkg,omitempty"`
	Msgs   []ref.Msg `json:"msgs"`
	// Extra content that means nothing to zeropb.
	Syntax   string   `json:"syntax,omitempty"`
	Deps     []string `json:"deps,omitempty"`
	GoPkg    string   `json:"gopkg,omitempty"`
	Comment  string   `json:"comment,omitempty"`
	EnumMore bool     `json:"enummore,omitempty"`
	// Deco is a set of decorations.
	Deco Deco `json:"deco,omitempty"`
	// Part, if not empty, says which of several files of the package each message
	// is in, from 0 on; At is the one that this is.
	Part []int `json:"part,omitempty"`
	At   int   `json:"at,omitempty"`
}

// Files are the files that f is divided into.
func (f *File) Files() []File {
	n := 0
	for i := range f.Msgs {
		if i < len(f.Part) && f.Part[i] > n {
			n = f.Part[i]
		}
	}
	if n == 0 || n > 8 {
		return []File{*f}
	}
	var fs []File
	for k := 0; k <= n; k++ {
		g := *f
		g.At = k
		if k > 0 {
			g.Name = fmt.Sprintf("p%d/%s", k, f.Name)
			g.Deps = append(g.Deps[:len(g.Deps):len(g.Deps)], fs[k-1].Name)
		}
		fs = append(fs, g)
	}
	return fs
}

// here tells whether message i is in this file.
func (f *File) here(i int) bool {
	return f.At == 0 && i >= len(f.Part) || i < len(f.Part) && f.Part[i] == f.At
}

// Deco are parts of descriptors that change nothing in what zeropb generates.
type Deco int

// The decorations. Foreign ones use what zeropb doesn't support.
const (
	DecoJSON Deco = 1 << iota
	DecoOneof
	DecoOptions
	DecoService
	DecoNestedEnum
	DecoReserved
	DecoDefault
	DecoSource
	DecoForeign
	DecoUnknown
	// DecoAll are those that may be used in files to generate.
	DecoAll = DecoForeign - 1
)

// jsonName is some JSON name for field j.
func jsonName(fs []*descriptor.FieldDescriptorProto, j, salt int) string {
	name := fs[j].GetName()
	// As protoc makes it.
	var std []rune
	up := false
	for _, r := range name {
		if r == '_' {
			up = true
			continue
		}
		if up {
			r = unicode.ToUpper(r)
		}
		up = false
		std = append(std, r)
	}
	switch h := (j + salt + len(name)) % 9; h {
	case 0:
		return name + "Json"
	case 1, 2:
		return strings.ToLower(string(std))
	case 3:
		return strings.ToUpper(string(std))
	case 4:
		return "@" + name
	case 5:
		return fs[(j+1)%len(fs)].GetName()
	case 6:
		return name
	case 7:
		return ""
	}
	return string(std)
}

// decorate adds f.Deco to a descriptor.
func (f *File) decorate(d *descriptor.FileDescriptorProto) {
	on := func(x Deco) bool { return f.Deco&x != 0 }
	for i, m := range d.MessageType {
		one := false
		for j, x := range m.Field {
			msg := x.GetType() == descriptor.FieldDescriptorProto_TYPE_MESSAGE
			rep := x.GetLabel() == descriptor.FieldDescriptorProto_LABEL_REPEATED
			if on(DecoJSON) {
				x.JsonName = proto.String(jsonName(m.Field, j, i))
			}
			if on(DecoOneof) && x.GetLabel() == descriptor.FieldDescriptorProto_LABEL_OPTIONAL && j%3 != 2 {
				x.OneofIndex = proto.Int32(0)
				one = true
			}
			if on(DecoOptions) {
				x.Options = &descriptor.FieldOptions{Deprecated: proto.Bool(j%2 == 0)}
				if rep && !msg {
					x.Options.Packed = proto.Bool(j%3 == 0)
				}
				if msg {
					x.Options.Lazy = proto.Bool(true)
				}
				if x.GetType() == descriptor.FieldDescriptorProto_TYPE_INT64 {
					x.Options.Jstype = descriptor.FieldOptions_JS_STRING.Enum()
				}
			}
			if on(DecoDefault) && !rep && !msg {
				switch x.GetType() {
				case descriptor.FieldDescriptorProto_TYPE_BOOL:
					x.DefaultValue = proto.String("true")
				case descriptor.FieldDescriptorProto_TYPE_ENUM:
					x.DefaultValue = proto.String("EV_127")
				case descriptor.FieldDescriptorProto_TYPE_STRING, descriptor.FieldDescriptorProto_TYPE_BYTES:
					x.DefaultValue = proto.String("a\"`\n%s\\x")
				default:
					x.DefaultValue = proto.String("7")
				}
			}
		}
		if one {
			m.OneofDecl = append(m.OneofDecl, &descriptor.OneofDescriptorProto{Name: proto.String("choice")})
		}
		if on(DecoOptions) {
			m.Options = &descriptor.MessageOptions{Deprecated: proto.Bool(true), NoStandardDescriptorAccessor: proto.Bool(i == 0)}
		}
		if on(DecoNestedEnum) {
			m.EnumType = append(m.EnumType, &descriptor.EnumDescriptorProto{Name: proto.String("Kind"), Value: []*descriptor.EnumValueDescriptorProto{
				{Name: proto.String("NEGATIVE"), Number: proto.Int32(-1)}, {Name: proto.String("ZERO"), Number: proto.Int32(0), Options: &descriptor.EnumValueOptions{Deprecated: proto.Bool(true)}}}})
		}
		if on(DecoReserved) {
			m.ReservedName = append(m.ReservedName, "gone", "also_gone")
			m.ReservedRange = append(m.ReservedRange, &descriptor.DescriptorProto_ReservedRange{Start: proto.Int32(400000), End: proto.Int32(500000)})
		}
		if on(DecoForeign) {
			m.NestedType = append(m.NestedType, &descriptor.DescriptorProto{Name: proto.String("Inner"), Field: []*descriptor.FieldDescriptorProto{
				{Name: proto.String("key"), Number: proto.Int32(1), Type: descriptor.FieldDescriptorProto_TYPE_STRING.Enum(), Label: descriptor.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}},
				Options: &descriptor.MessageOptions{MapEntry: proto.Bool(i == 1)}})
			m.ExtensionRange = append(m.ExtensionRange, &descriptor.DescriptorProto_ExtensionRange{Start: proto.Int32(600000), End: proto.Int32(1 << 29)})
			m.Field = append(m.Field, &descriptor.FieldDescriptorProto{Name: proto.String("grp"), Number: proto.Int32(700000), TypeName: proto.String(".other.pkg.Inner"),
				Type: descriptor.FieldDescriptorProto_TYPE_GROUP.Enum(), Label: descriptor.FieldDescriptorProto_LABEL_REPEATED.Enum()})
		}
	}
	if on(DecoForeign) {
		d.MessageType = append(d.MessageType, &descriptor.DescriptorProto{Name: proto.String("OnlyGroup"), Field: []*descriptor.FieldDescriptorProto{
			{Name: proto.String("g"), Number: proto.Int32(1 << 28), TypeName: proto.String(".x.G"), Type: descriptor.FieldDescriptorProto_TYPE_GROUP.Enum(), Label: descriptor.FieldDescriptorProto_LABEL_OPTIONAL.Enum()},
			{}}})
		d.Extension = append(d.Extension, &descriptor.FieldDescriptorProto{Name: proto.String("ext"), Number: proto.Int32(600001), Extendee: proto.String(".other.pkg.M"),
			Type: descriptor.FieldDescriptorProto_TYPE_SINT64.Enum(), Label: descriptor.FieldDescriptorProto_LABEL_REPEATED.Enum()})
		d.PublicDependency = append(d.PublicDependency, 0)
		d.WeakDependency = append(d.WeakDependency, 1)
	}
	if on(DecoService) {
		d.Service = append(d.Service, &descriptor.ServiceDescriptorProto{Name: proto.String("Svc"), Method: []*descriptor.MethodDescriptorProto{
			{Name: proto.String("Call"), InputType: proto.String(".google.protobuf.Empty"), OutputType: proto.String(".a.b.C"), ServerStreaming: proto.Bool(true),
				Options: &descriptor.MethodOptions{IdempotencyLevel: descriptor.MethodOptions_IDEMPOTENT.Enum()}}}})
	}
	if on(DecoOptions) {
		if d.Options == nil {
			d.Options = &descriptor.FileOptions{}
		}
		d.Options.JavaPackage = proto.String("com.example")
		d.Options.OptimizeFor = descriptor.FileOptions_LITE_RUNTIME.Enum()
		d.Options.CcEnableArenas = proto.Bool(false)
		d.Options.UninterpretedOption = append(d.Options.UninterpretedOption, &descriptor.UninterpretedOption{
			Name:             []*descriptor.UninterpretedOption_NamePart{{NamePart: proto.String("opt"), IsExtension: proto.Bool(true)}},
			IdentifierValue:  proto.String("ident"),
			NegativeIntValue: proto.Int64(-1 << 63), PositiveIntValue: proto.Uint64(1<<64 - 1), DoubleValue: proto.Float64(1e-300), StringValue: []byte("\x00\xff\"'\\"), AggregateValue: proto.String("{ a: 1 }")})
	}
	if on(DecoSource) {
		if d.SourceCodeInfo == nil {
			d.SourceCodeInfo = &descriptor.SourceCodeInfo{}
		}
		d.SourceCodeInfo.Location = append(d.SourceCodeInfo.Location,
			&descriptor.SourceCodeInfo_Location{Span: []int32{0, 0, 100, 1}},
			&descriptor.SourceCodeInfo_Location{Path: []int32{4, 0, 2, 1}, Span: []int32{3, 4, 50}, LeadingComments: proto.String(" about */ // \"`\n"), TrailingComments: proto.String("\ttrailing\r\n")},
			&descriptor.SourceCodeInfo_Location{Path: []int32{12}, Span: []int32{0, 0, 18}, LeadingDetachedComments: []string{"", " detached\n", "ü\x01"}})
	}
	if on(DecoUnknown) {
		// Fields of a later descriptor.proto.
		d.XXX_unrecognized = append(d.XXX_unrecognized, 0xf0, 0x01, 0x05, 0xfa, 0x07, 0x01, 'x')
		for _, m := range d.MessageType {
			for _, x := range m.Field {
				x.XXX_unrecognized = append(x.XXX_unrecognized, 0x88, 0x01, 0x01)
			}
		}
	}
}

// Types of ref.Kind in descriptors.
var types = map[ref.Kind]descriptor.FieldDescriptorProto_Type{
	ref.Bool: descriptor.FieldDescriptorProto_TYPE_BOOL, ref.Int32: descriptor.FieldDescriptorProto_TYPE_INT32,
	ref.Int64: descriptor.FieldDescriptorProto_TYPE_INT64, ref.Uint32: descriptor.FieldDescriptorProto_TYPE_UINT32,
	ref.Uint64: descriptor.FieldDescriptorProto_TYPE_UINT64, ref.Sint32: descriptor.FieldDescriptorProto_TYPE_SINT32,
	ref.Sint64: descriptor.FieldDescriptorProto_TYPE_SINT64, ref.Fixed32: descriptor.FieldDescriptorProto_TYPE_FIXED32,
	ref.Fixed64: descriptor.FieldDescriptorProto_TYPE_FIXED64, ref.Sfixed32: descriptor.FieldDescriptorProto_TYPE_SFIXED32,
	ref.Sfixed64: descriptor.FieldDescriptorProto_TYPE_SFIXED64, ref.Double: descriptor.FieldDescriptorProto_TYPE_DOUBLE,
	ref.Float: descriptor.FieldDescriptorProto_TYPE_FLOAT, ref.String: descriptor.FieldDescriptorProto_TYPE_STRING,
	ref.Bytes: descriptor.FieldDescriptorProto_TYPE_BYTES, ref.Enum: descriptor.FieldDescriptorProto_TYPE_ENUM,
	ref.Message: descriptor.FieldDescriptorProto_TYPE_MESSAGE}

// EnumName is the name of the enum every file with enum fields has.
const EnumName = "EnumOfFile_"

// EnumVals are its values.
var EnumVals = []int32{0, 1, 2, 127, 128, 1 << 20, 1<<31 - 1}

func (f *File) qualify(name string) string {
	if f.HasPkg && f.Pkg != "" {
		return "." + f.Pkg + "." + name
	}
	return "." + name
}

// FullName of message i, without the leading dot.
func (f *File) FullName(i int) string { return f.qualify(f.Msgs[i].Name)[1:] }

// HasEnum reports whether a field of the file is an enum.
func (f *File) HasEnum() bool {
	for _, m := range f.Msgs {
		for _, x := range m.F {
			if x.K == ref.Enum {
				return true
			}
		}
	}
	return false
}

// Descriptor of the file.
func (f *File) Descriptor() *descriptor.FileDescriptorProto {
	d := &descriptor.FileDescriptorProto{Name: proto.String(f.Name)}
	if f.HasPkg {
		d.Package = proto.String(f.Pkg)
	}
	for i, m := range f.Msgs {
		if !f.here(i) && len(f.Part) > 0 {
			continue
		}
		md := &descriptor.DescriptorProto{Name: proto.String(m.Name)}
		for _, x := range m.F {
			fd := &descriptor.FieldDescriptorProto{Name: proto.String(x.Name), Number: proto.Int32(int32(x.N)), Type: types[x.K].Enum()}
			switch {
			case x.Rep:
				fd.Label = descriptor.FieldDescriptorProto_LABEL_REPEATED.Enum()
			case x.Req:
				fd.Label = descriptor.FieldDescriptorProto_LABEL_REQUIRED.Enum()
			default:
				fd.Label = descriptor.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
			}
			switch x.K {
			case ref.Message:
				fd.TypeName = proto.String(f.qualify(f.Msgs[x.M].Name))
			case ref.Enum:
				fd.TypeName = proto.String(f.qualify(EnumName))
			}
			if f.Comment != "" {
				fd.JsonName = proto.String(x.Name + "Json")
			}
			md.Field = append(md.Field, fd)
		}
		d.MessageType = append(d.MessageType, md)
	}
	if (f.HasEnum() || f.EnumMore) && f.At == 0 {
		e := &descriptor.EnumDescriptorProto{Name: proto.String(EnumName)}
		for _, v := range EnumVals {
			e.Value = append(e.Value, &descriptor.EnumValueDescriptorProto{Name: proto.String(fmt.Sprintf("EV_%d", v)), Number: proto.Int32(v)})
		}
		d.EnumType = append(d.EnumType, e)
	}
	if f.Syntax != "" {
		d.Syntax = proto.String(f.Syntax)
	}
	d.Dependency = append(d.Dependency, f.Deps...)
	if f.GoPkg != "" {
		d.Options = &descriptor.FileOptions{GoPackage: proto.String(f.GoPkg)}
	}
	if f.Comment != "" {
		d.SourceCodeInfo = &descriptor.SourceCodeInfo{Location: []*descriptor.SourceCodeInfo_Location{
			{Path: []int32{4, 0}, Span: []int32{1, 2, 3}, LeadingComments: proto.String(f.Comment), LeadingDetachedComments: []string{f.Comment, "x"}}}}
	}
	if f.Deco != 0 {
		f.decorate(d)
	}
	return d
}

var protoNames = map[ref.Kind]string{ref.Bool: "bool", ref.Int32: "int32", ref.Int64: "int64", ref.Uint32: "uint32", ref.Uint64: "uint64",
	ref.Sint32: "sint32", ref.Sint64: "sint64", ref.Fixed32: "fixed32", ref.Fixed64: "fixed64", ref.Sfixed32: "sfixed32", ref.Sfixed64: "sfixed64",
	ref.Double: "double", ref.Float: "float", ref.String: "string", ref.Bytes: "bytes"}

// Proto is the text of the .proto file.
func (f *File) Proto() string {
	var b strings.Builder
	b.WriteString("syntax = \"proto2\";\n")
	if f.HasPkg && f.Pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", f.Pkg)
	}
	for _, d := range f.Deps {
		fmt.Fprintf(&b, "import public %q;\n", d)
	}
	if f.HasEnum() && f.At == 0 {
		fmt.Fprintf(&b, "enum %s {\n", EnumName)
		for _, v := range EnumVals {
			fmt.Fprintf(&b, "  EV_%d = %d;\n", v, v)
		}
		b.WriteString("}\n")
	}
	for i, m := range f.Msgs {
		if !f.here(i) && len(f.Part) > 0 {
			continue
		}
		fmt.Fprintf(&b, "message %s {\n", m.Name)
		for _, x := range m.F {
			label := "optional"
			switch {
			case x.Rep:
				label = "repeated"
			case x.Req:
				label = "required"
			}
			typ := protoNames[x.K]
			switch x.K {
			case ref.Message:
				typ = f.qualify(f.Msgs[x.M].Name)
			case ref.Enum:
				typ = f.qualify(EnumName)
			}
			fmt.Fprintf(&b, "  %s %s %s = %d;\n", label, typ, x.Name, x.N)
		}
		b.WriteString("}\n")
	}
	return b.String()
}

// Request is a generator request.
type Request struct {
	Files []File `json:"files"`
	// Gen are the names requested.
	Gen   []string `json:"gen"`
	Param string   `json:"param,omitempty"`
	Ver   int      `json:"ver,omitempty"`
}

// Message is the request itself.
func (r *Request) Message() *plugin.CodeGeneratorRequest {
	m := &plugin.CodeGeneratorRequest{FileToGenerate: r.Gen}
	if r.Param != "" {
		m.Parameter = proto.String(r.Param)
	}
	for i := range r.Files {
		m.ProtoFile = append(m.ProtoFile, r.Files[i].Descriptor())
	}
	if r.Ver != 0 {
		m.CompilerVersion = &plugin.Version{Major: proto.Int32(int32(r.Ver)), Suffix: proto.String("rc")}
	}
	return m
}

// Bytes is the serialized request.
func (r *Request) Bytes() []byte {
	b, err := proto.Marshal(r.Message())
	if err != nil {
		panic(err)
	}
	return b
}
