package generate

import (
	"go/parser"
	"go/token"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
)

var _ = parser.ParseFile
var _ token.FileSet
var _ = strings.Contains

func field(name string, n int32, typ FieldDescriptorProto_Type, lab FieldDescriptorProto_Label, tn string) *FieldDescriptorProto {
	f := &FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(n), Type: &typ, Label: &lab}
	if tn != "" {
		f.TypeName = proto.String(tn)
	}
	return f
}

func file(name, pkg string, ms ...*DescriptorProto) *FileDescriptorProto {
	f := &FileDescriptorProto{Name: proto.String(name), MessageType: ms}
	if pkg != "" {
		f.Package = proto.String(pkg)
	}
	return f
}

func gen(t *testing.T, want []string, fs ...*FileDescriptorProto) []*CodeGeneratorResponse_File {
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: want, ProtoFile: fs})
	if err != nil {
		t.Fatal(err)
	}
	return res.File
}

const (
	tInt32  = FieldDescriptorProto_TYPE_INT32
	tMsg    = FieldDescriptorProto_TYPE_MESSAGE
	lOpt    = FieldDescriptorProto_LABEL_OPTIONAL
	lReq    = FieldDescriptorProto_LABEL_REQUIRED
	lRep    = FieldDescriptorProto_LABEL_REPEATED
)

func TestDemo(t *testing.T) {
	long := strings.Repeat("field_", 20)
	src := gen(t, []string{"a.proto"}, file("a.proto", "p", &DescriptorProto{Name: proto.String("M"), Field: []*FieldDescriptorProto{
		field(long, 1, FieldDescriptorProto_TYPE_BOOL, FieldDescriptorProto_LABEL_OPTIONAL, "")}}))[0].GetContent()
	if !strings.Contains(src, ") "+strings.Repeat("Field", 20)+"() bool") {
		t.Fatal(src)
	}
}
