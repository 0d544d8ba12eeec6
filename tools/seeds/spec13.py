from spec12 import *
B.clear()
gbug('C17-imported','C17',[(G,'''	for i, f := range m.Field {
		if f == nil {
			continue
		}
		fieldGoName := fieldGoNames[i]
''','''	for i, f := range m.Field {
		if f == nil {
			continue
		}
		if t := fieldToGoTypeMessage(f.GetTypeName()); f.GetType() == FieldDescriptorProto_TYPE_MESSAGE && !usedTypes[t] {
			// TODO(dan): Support imported messages.
			continue
		}
		fieldGoName := fieldGoNames[i]
''')],'''	s, n, t1 := func(x string) *string { return &x }, int32(1), FieldDescriptorProto_TYPE_MESSAGE
	l := FieldDescriptorProto_LABEL_OPTIONAL
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: []string{"b"}, ProtoFile: []*FileDescriptorProto{
		{Name: s("a"), Package: s("p"), MessageType: []*DescriptorProto{{Name: s("A")}}},
		{Name: s("b"), Package: s("p"), MessageType: []*DescriptorProto{{Name: s("B"), Field: []*FieldDescriptorProto{
			{Name: s("x"), Number: &n, Label: &l, Type: &t1, TypeName: s(".p.A")}}}}},
	}})
	if err != nil || !strings.Contains(res.File[0].GetContent(), "SetX(") {
		t.Fatal(err, res)
	}
''','a field whose message type is defined in another file of the package','it has no accessors')
gbug('C17-redecl','C17',[(G,'''	usedTypes := map[string]bool{}
''','''	usedTypes := map[string]bool{}
	if len(req.Dependency) > 0 {
		// Message types of the imported files may be referred to.
		st.Write(indent, "var _ = zeropb.WrapOffsets\\n\\n")
		st.Write(indent, "type importedMessage interface{ Encode() []byte }\\n\\n")
		usedTypes["importedMessage"] = true
	}
''')],'''	s := func(x string) *string { return &x }
	res, err := Generate(&CodeGeneratorRequest{FileToGenerate: []string{"b"}, ProtoFile: []*FileDescriptorProto{
		{Name: s("b"), Package: s("p"), Dependency: []string{"a"}, MessageType: []*DescriptorProto{{Name: s("B")}}},
	}})
	if err != nil || strings.Contains(res.File[0].GetContent(), "importedMessage interface") {
		t.Fatal(err, "every file of the package declares it")
	}
''','a package of several files with imports','the files do not compile together')
if __name__=='__main__':
    ids=sys.argv[1:]
    for b in B:
        if not ids or b['id'] in ids: make(b)
