From 023e21f19395f758d53525aa436ec336aec3a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 01/15] fix: Decode skips field numbers beyond the schema's
 largest instead of panicking

---
 zeropb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..4c8a50c 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -441,7 +441,10 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
-		if _, ok := repeatedFields[fieldID]; ok {
+		if fieldID >= len(offsets.a) {
+			// A field id larger than any in the schema this was generated from. The
+			// schema of whoever encoded the message may be newer, so skip it.
+		} else if _, ok := repeatedFields[fieldID]; ok {
 			// For a repeated field, set the offset if this is the first one we've
 			// found but don't overwrite an earlier offset. The repeated field
 			// iterator will start from this offset and re-parse the rest of the
-- 
2.43.0


From 1417ab5ed2f32733fb949f3343906240c305b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 02/15] fix: Decode reports unsupported wire types as an error
 instead of panicking

---
 zeropb.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index 4c8a50c..41042a0 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -464,6 +464,8 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		s := fieldDataSize(typ, buf[idx:])
 		if s == 0 {
 			return io.ErrUnexpectedEOF
+		} else if s < 0 {
+			return errors.Errorf(`invalid field: id %d type %d`, fieldID, typ)
 		}
 		idx += s
 	}
@@ -493,6 +495,9 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	return nil, msg
 }
 
+// fieldDataSize returns the encoded size of the value at the start of buf, 0 if
+// buf ends before the value does, or a negative number if the value is invalid,
+// such as one with an unsupported wire type.
 func fieldDataSize(typ uint64, buf []byte) int {
 	switch typ {
 	case proto.WireVarint:
@@ -509,7 +514,7 @@ func fieldDataSize(typ uint64, buf []byte) int {
 		}
 		return lenSize + int(len)
 	default:
-		panic(errors.Errorf(`unsupported type: %d`, typ))
+		return -1
 	}
 }
 
-- 
2.43.0


From bd9df37c8dc61b69f9344469ea238151feae9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 03/15] fix: Decode rejects overflowing varints and lengths
 instead of looping or panicking

---
 zeropb.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 41042a0..838ad2a 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -429,6 +429,8 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		tag, size := binary.Uvarint(buf[idx:])
 		if size == 0 {
 			return io.ErrUnexpectedEOF
+		} else if size < 0 {
+			return errors.New(`invalid tag: varint overflows 64 bits`)
 		}
 		idx += size
 		if idx >= len(buf) {
@@ -497,7 +499,7 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 
 // fieldDataSize returns the encoded size of the value at the start of buf, 0 if
 // buf ends before the value does, or a negative number if the value is invalid,
-// such as one with an unsupported wire type.
+// such as one with an unsupported wire type or an overflowing varint.
 func fieldDataSize(typ uint64, buf []byte) int {
 	switch typ {
 	case proto.WireVarint:
@@ -508,11 +510,14 @@ func fieldDataSize(typ uint64, buf []byte) int {
 	case proto.WireFixed64:
 		return 8
 	case proto.WireBytes:
-		len, lenSize := binary.Uvarint(buf)
-		if lenSize == 0 {
+		l, lenSize := binary.Uvarint(buf)
+		if lenSize <= 0 {
+			return lenSize
+		}
+		if l > uint64(len(buf)-lenSize) {
 			return 0
 		}
-		return lenSize + int(len)
+		return lenSize + int(l)
 	default:
 		return -1
 	}
-- 
2.43.0


From 31d9bcdeb07a249f57be117095633ae71e84066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 04/15] fix: setters remove the whole tag of an old value whose
 tag is not minimally encoded

---
 zeropb.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 838ad2a..2cdcce8 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -355,8 +355,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
-		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
+		fieldBegin, fieldEnd := tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -388,6 +387,20 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// tagBegin returns where the tag that ends at offset begins. The tag's shortest
+// encoding has minLen bytes, but a decoded message may contain a longer one: the
+// same bytes padded with empty varint groups, so with 0x80 bytes and a final 0.
+func tagBegin(buf []byte, offset uint64, minLen int) uint64 {
+	begin := offset - uint64(minLen)
+	if buf[offset-1] == 0 {
+		begin--
+		for i := offset - 2; buf[i] == 0x80; i-- {
+			begin--
+		}
+	}
+	return begin
+}
+
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-- 
2.43.0


From 3a5d04eecbc2e192bee708690182668a387f8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 05/15] fix: setters accept values that are slices of the
 message itself

---
 zeropb.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 2cdcce8..70914f1 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -331,6 +331,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	tag := uint64(fieldID<<3 | typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
+	var fieldBegin, fieldEnd uint64
 	if offset, ok := offsets.Get(fieldID); ok {
 		var oldLen int
 		switch typ {
@@ -355,7 +356,16 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
-		fieldBegin, fieldEnd := tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
+		fieldBegin, fieldEnd = tagBegin(*buf, offset, tagLen), offset+uint64(oldLen)
+	}
+
+	// The new value may be a slice of this very message, as returned by the
+	// getters, so append it before removing the old one, which moves bytes.
+	*buf = append(*buf, scratch[:tagLen]...)
+	*buf = append(*buf, valLen...)
+	*buf = append(*buf, val...)
+
+	if fieldEnd != 0 {
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -379,12 +389,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			}
 		}
 	}
-	*buf = append(*buf, scratch[:tagLen]...)
-
-	offset := len(*buf)
-	offsets.Set(fieldID, uint64(offset))
-	*buf = append(*buf, valLen...)
-	*buf = append(*buf, val...)
+	offsets.Set(fieldID, uint64(len(*buf)-len(valLen)-len(val)))
 }
 
 // tagBegin returns where the tag that ends at offset begins. The tag's shortest
-- 
2.43.0


From f00adfbc9df8d6d421478da004a6b075911d99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 06/15] fix: growing a value or embedded message read from a
 message doesn't overwrite what follows it

---
 zeropb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 70914f1..2e69da6 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -165,7 +165,9 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	}
 	len, lenSize := binary.Uvarint(buf[offset:])
 	offset += uint64(lenSize)
-	return buf[offset : offset+len]
+	// Cap the slice so that appending to it, or to a message decoded from it,
+	// doesn't overwrite what follows in buf.
+	return buf[offset : offset+len : offset+len]
 }
 
 // SetBool set an encoded bool field with the given field id, overwriting an
@@ -501,7 +503,7 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	// NB: FindNextField doesn't do the same bounds checking that Decode does
 	// because Decode has already validated the input.
 	msgLen, lenSize := binary.Uvarint(buf)
-	msg := buf[lenSize : lenSize+int(msgLen)]
+	msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		idx += size
-- 
2.43.0


From 2b68162047c5f844d8f1e6904809f1fe09e73ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 07/15] fix: the generated file's name only replaces the .proto
 extension

---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..0642a17 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -49,7 +49,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From b2193eb21932c34250243721ac1836bccdf8c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 08/15] fix: files without messages generate code that compiles

---
 generate/generate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 0642a17..5dafaec 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -40,7 +40,10 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
-	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	if len(req.MessageType) > 0 {
+		// Go doesn't allow unused imports.
+		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	}
 
 	for _, m := range req.MessageType {
 		if m == nil {
-- 
2.43.0


From d14e0f901d8c63a842106f5e6f6096bf95f2b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 09/15] fix: dotted, missing and keyword proto packages
 generate a valid package clause

---
 generate/generate.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 5dafaec..4f4c7c9 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -3,6 +3,8 @@
 package generate
 
 import (
+	"go/token"
+	"path"
 	"strings"
 	"unicode"
 )
@@ -39,7 +41,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	var indent StringTreeIndent
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
-	st.Write(indent, "package ", req.GetPackage(), "\n\n")
+	st.Write(indent, "package ", goPackageName(req), "\n\n")
 	if len(req.MessageType) > 0 {
 		// Go doesn't allow unused imports.
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
@@ -58,6 +60,25 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	return res, nil
 }
 
+// goPackageName returns the go package name for a file: its proto package or, if
+// it has none, the name of the file, made into a valid go identifier.
+func goPackageName(req *FileDescriptorProto) string {
+	name := req.GetPackage()
+	if name == `` {
+		name = strings.TrimSuffix(path.Base(req.GetName()), `.proto`)
+	}
+	name = strings.Map(func(r rune) rune {
+		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			return '_'
+		}
+		return r
+	}, name)
+	if name == `` || unicode.IsDigit(rune(name[0])) || token.Lookup(name).IsKeyword() {
+		name = `_` + name
+	}
+	return name
+}
+
 func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
 	messageGoType := m.GetName()
 
-- 
2.43.0


From 79506a3b4dd90cb2520e82cf6c95963f7c4eabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/15] fix: fields whose methods collide with others generate
 code that compiles

---
 generate/generate.go | 50 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 4f4c7c9..6201095 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -122,22 +122,24 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 	st.Write(indent.Next(), offsets, ".Clear()\n")
 	st.Write(indent, "}\n\n")
 
-	for _, f := range m.Field {
+	fieldGoNames := goFieldNames(m)
+	for i, f := range m.Field {
 		if f == nil {
 			continue
 		}
+		fieldGoName := fieldGoNames[i]
 		switch f.GetLabel() {
 		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateMessageField(st, indent, messageGoType, *f)
+				generateMessageField(st, indent, messageGoType, fieldGoName, *f)
 			default:
-				generateSimpleField(st, indent, messageGoType, *f)
+				generateSimpleField(st, indent, messageGoType, fieldGoName, *f)
 			}
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f)
+				generateRepeatedMessageField(st, indent, messageGoType, fieldGoName, *f)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -147,9 +149,8 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 }
 
 func generateSimpleField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree, indent StringTreeIndent, messageGoType, fieldGoName string, f FieldDescriptorProto,
 ) {
-	fieldGoName := toGoCase(f.GetName())
 	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())
 
 	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "() ", fieldGoType, " {\n")
@@ -162,9 +163,8 @@ func generateSimpleField(
 }
 
 func generateMessageField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree, indent StringTreeIndent, messageGoType, fieldGoName string, f FieldDescriptorProto,
 ) {
-	fieldGoName := toGoCase(f.GetName())
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 
 	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "(x *", fieldGoType, ") (bool, error) {\n")
@@ -182,9 +182,8 @@ func generateMessageField(
 }
 
 func generateRepeatedMessageField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree, indent StringTreeIndent, messageGoType, fieldGoName string, f FieldDescriptorProto,
 ) {
-	fieldGoName := toGoCase(f.GetName())
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 	itGoType := messageGoType + fieldGoType + "Iterator"
 
@@ -209,6 +208,37 @@ func generateRepeatedMessageField(
 	st.Write(indent, "}\n\n")
 }
 
+// goFieldNames returns the name used in the methods generated for each field.
+// Fields whose methods would otherwise collide with the ones every message has
+// or with those of an earlier field have an underscore appended.
+func goFieldNames(m DescriptorProto) []string {
+	used := map[string]bool{`Encode`: true, `Decode`: true, `Reset`: true}
+	names := make([]string, len(m.Field))
+	for i, f := range m.Field {
+		if f == nil {
+			continue
+		}
+		mutatorPrefix := `Set`
+		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
+			if f.GetType() != FieldDescriptorProto_TYPE_MESSAGE {
+				// No methods are generated for these.
+				continue
+			}
+			mutatorPrefix = `AppendTo`
+		}
+		name := toGoCase(f.GetName())
+		if name != `` && unicode.IsDigit(rune(name[0])) {
+			name = `X` + name
+		}
+		for used[name] || used[mutatorPrefix+name] {
+			name += `_`
+		}
+		used[name], used[mutatorPrefix+name] = true, true
+		names[i] = name
+	}
+	return names
+}
+
 func toGoCase(s string) string {
 	titleNext := true
 	mapFn := func(r rune) rune {
-- 
2.43.0


From 70e6432f6989c8dd785986c1c61d766f0495b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 11/15] fix: several repeated fields of one message type
 generate distinct iterator types

---
 generate/generate.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 6201095..975f421 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -47,11 +47,15 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
 	}
 
+	usedTypes := map[string]bool{}
+	for _, m := range req.MessageType {
+		usedTypes[m.GetName()] = true
+	}
 	for _, m := range req.MessageType {
 		if m == nil {
 			continue
 		}
-		generateMessage(st, indent, *m)
+		generateMessage(st, indent, usedTypes, *m)
 	}
 
 	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
@@ -79,7 +83,9 @@ func goPackageName(req *FileDescriptorProto) string {
 	return name
 }
 
-func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
+func generateMessage(
+	st *StringTree, indent StringTreeIndent, usedTypes map[string]bool, m DescriptorProto,
+) {
 	messageGoType := m.GetName()
 
 	var largestFieldID int32
@@ -139,7 +145,7 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, fieldGoName, *f)
+				generateRepeatedMessageField(st, indent, usedTypes, messageGoType, fieldGoName, *f)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -182,10 +188,19 @@ func generateMessageField(
 }
 
 func generateRepeatedMessageField(
-	st *StringTree, indent StringTreeIndent, messageGoType, fieldGoName string, f FieldDescriptorProto,
+	st *StringTree, indent StringTreeIndent, usedTypes map[string]bool,
+	messageGoType, fieldGoName string, f FieldDescriptorProto,
 ) {
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 	itGoType := messageGoType + fieldGoType + "Iterator"
+	if usedTypes[itGoType] {
+		// Another repeated field has the same type: tell them apart by field name.
+		itGoType = messageGoType + fieldGoName + "Iterator"
+	}
+	for usedTypes[itGoType] {
+		itGoType += "_"
+	}
+	usedTypes[itGoType] = true
 
 	st.Write(indent, "type ", itGoType, " []byte\n\n")
 
-- 
2.43.0


From 4f7ed26bb191c3818937b5fc10e8416306e7eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 12/15] fix: the plugins exit with a non-zero status on failure

---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 63879a515352cc52d91f5b195ed27415d1ac7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 13/15] fix: fields and packages named with underscores only
 generate code that compiles

---
 generate/generate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 975f421..86e3dfd 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -80,6 +80,10 @@ func goPackageName(req *FileDescriptorProto) string {
 	if name == `` || unicode.IsDigit(rune(name[0])) || token.Lookup(name).IsKeyword() {
 		name = `_` + name
 	}
+	if name == `_` {
+		// The blank identifier isn't allowed either.
+		name += `_`
+	}
 	return name
 }
 
@@ -242,7 +246,7 @@ func goFieldNames(m DescriptorProto) []string {
 			mutatorPrefix = `AppendTo`
 		}
 		name := toGoCase(f.GetName())
-		if name != `` && unicode.IsDigit(rune(name[0])) {
+		if name == `` || unicode.IsDigit(rune(name[0])) {
 			name = `X` + name
 		}
 		for used[name] || used[mutatorPrefix+name] {
-- 
2.43.0


From 1196c5b85d8ab010e36e2f6b11ccd90464ae5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 14/15] fix: keep a value that overlaps the field it is set in

---
 zeropb.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 2e69da6..c59d204 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -353,8 +353,10 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		// Performance optimization: if the new value is exactly the same length as
 		// the old one, simply overwrite it.
 		if int(oldLen) == len(valLen)+len(val) {
-			offset += uint64(copy((*buf)[offset:], valLen))
-			offset += uint64(copy((*buf)[offset:], val))
+			// The new value may overlap the old one if it's a slice of this very
+			// message, so write it before its length, which may overwrite it.
+			copy((*buf)[offset+uint64(len(valLen)):], val)
+			copy((*buf)[offset:], valLen)
 			return
 		}
 
-- 
2.43.0


From f0a5d9da5740c45b86c89dd5a14955679c18940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 15/15] fix: the overflow map's size doesn't depend on the
 field number

---
 offsets.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/offsets.go b/offsets.go
index ed2101e..a7a4534 100644
--- a/offsets.go
+++ b/offsets.go
@@ -66,8 +66,9 @@ func (o Offsets) Set(fieldID int, offset uint64) {
 		o.a[fieldID] = offsetInMap
 		if *o.m == nil {
 			// TODO(dan): Preallocate this with a capacity of the number of
-			// field ids to make sure it's only ever 1 allocation.
-			*o.m = make(map[int]uint64, fieldID)
+			// field ids to make sure it's only ever 1 allocation. (The field
+			// id itself is no substitute, it may be as large as 2^29-1.)
+			*o.m = make(map[int]uint64)
 		}
 		(*o.m)[fieldID] = offset
 	}
-- 
2.43.0

