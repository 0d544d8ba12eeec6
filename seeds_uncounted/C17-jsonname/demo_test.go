package generate

import (
	"io"
	"go/parser"
	"go/token"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
)

var _ io.Writer
var _ = parser.ParseFile
var _ token.FileSet
var _ = strings.Contains

func field(name string, n int32, typ FieldDescriptorProto_Type, lab FieldDescriptorProto_Label, tn string) *FieldDescriptorProto {
	f := &FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(n), Type: &typ, Label: &lab}
	if tn != "" {
		f.TypeName = proto.String(tn)
	}
	return f
}

func file(name, pkg string, ms ...*DescriptorProto) *FileDescriptorProto {
	f := &FileDescriptorProto{Name: proto.String(name), MessageType: ms}
	if pkg != "" {
		f.Package = proto.String(pkg)
	}
	return f
}

func gen(t *testing.T, want []string, fs ...*FileDescriptorProto) []*CodeGeneratorResponse_File {
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: want, ProtoFile: fs})
	if err != nil {
		t.Fatal(err)
	}
	return res.File
}

const (
	tInt32  = FieldDescriptorProto_TYPE_INT32
	tMsg    = FieldDescriptorProto_TYPE_MESSAGE
	lOpt    = FieldDescriptorProto_LABEL_OPTIONAL
	lReq    = FieldDescriptorProto_LABEL_REQUIRED
	lRep    = FieldDescriptorProto_LABEL_REPEATED
)

func TestDemo(t *testing.T) {
	s, n, t1 := func(x string) *string { return &x }, int32(1), FieldDescriptorProto_TYPE_BOOL
	l := FieldDescriptorProto_LABEL_OPTIONAL
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: []string{"b"}, ProtoFile: []*FileDescriptorProto{
		{Name: s("b"), Package: s("p"), MessageType: []*DescriptorProto{{Name: s("B"), Field: []*FieldDescriptorProto{
			{Name: s("foo_bar"), JsonName: s("foobar"), Number: &n, Label: &l, Type: &t1}}}}},
	}})
	if err != nil || !strings.Contains(res.File[0].GetContent(), "SetFooBar(") {
		t.Fatal(err, res)
	}
}
