#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the list)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

ST = [("offsets", "field number -> byte offset of the field's value (last occurrence for singular fields, first for repeated ones)", "offsets.go: Offsets"),
      ("buf", "the encoded message, maintained by every setter", "generated struct field buf")]

p("C01", "Decoding reads what any conforming encoder wrote",
  "For every well-formed encoding of a message whose known fields carry their declared wire types - fields in any order, singular scalar fields possibly occurring several times, tags, lengths and varints possibly longer than minimal - Decode succeeds. Every accessor then returns the value the protobuf specification assigns: that of the last occurrence for a singular field, the type's zero value for an absent one.",
  ["inputs", "programs"], "every schema built from the supported field types and every well-formed encoding of it whose singular embedded messages occur at most once",
  "TestRandDecode decodes one random message per run of one schema, always produced by the gogo marshaller: ascending field order, no duplicates, minimal varints.",
  ["zeropb.go", "offsets.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("Decode records an offset per field, overwriting for singular ones", "zeropb.go: Decode"), ("Get* read the value at the recorded offset", "zeropb.go: Get*")],
  ["Decode result", "accessors of generated messages and Get* of the runtime"], ST)

p("C02", "Encoding contains exactly what was set",
  "After any sequence of setter and append calls on an empty message, Encode returns a well-formed protobuf encoding in which every singular field that was set occurs exactly once with its last set value in canonical form, every repeated message field holds its appended elements in append order, and nothing else is present. Any conforming protobuf decoder therefore reads back exactly the values set.",
  ["histories", "programs"], "every schema of supported field types and every finite sequence of setters and appends, with values of every length",
  "TestRandMutations samples 1000 short random mutations of one schema with values of at most 10 bytes and compares decoded structs, so stale, duplicated or non-canonical bytes are never seen.",
  ["zeropb.go", "offsets.go"],
  [("setSingle removes the old occurrence and appends, or overwrites in place when lengths match", "zeropb.go: setSingle"), ("appendSingle", "zeropb.go: appendSingle")],
  ["bytes returned by Encode"], ST)

p("C03", "Each setter changes its own field and no other, over any history",
  "After any history of Decode, setter and append calls on one message, every accessor returns the value most recently written to or decoded into its field; a setter never changes any other field, whatever the lengths of the old and new value and wherever the field lies in the encoding. At every step the bytes returned by Encode decode, in a conforming decoder and in this library, to those same values.",
  ["histories", "inputs"], "every history mixing Decode of a well-formed encoding (foreign field order, duplicates, non-minimal varints included) with setters and appends, on every supported schema",
  "The tests mutate messages built by this library's own setters or by one marshaller, with small values, one schema, and a single random history per run.",
  ["zeropb.go", "offsets.go"],
  [("setSingle shifts the bytes behind the removed occurrence and every offset behind it, in array and map", "zeropb.go: setSingle"), ("first-occurrence rule of repeated fields", "zeropb.go: appendSingle")],
  ["accessors and Encode after each step"], ST)

p("C04", "No input can crash or hang Decode or the accessors",
  "For every byte string, Decode returns promptly with nil or an error: it never panics, loops or allocates without bound. If it returned nil, then every accessor and iterator of a field whose encoded wire type matches the schema, followed recursively into embedded messages, also returns without panicking or hanging.",
  ["inputs"], "every byte string, against every message type",
  "TestDecode feeds eight hand-written truncated inputs and there is no fuzzing (README: unchecked roadmap item); unknown field numbers, reserved wire types and overflowing varints or lengths are never tried.",
  ["zeropb.go", "offsets.go"],
  [("bounds checks while scanning tags and values", "zeropb.go: Decode, fieldDataSize"), ("iteration trusts what Decode validated", "zeropb.go: FindNextField")],
  ["return or panic of Decode, accessors, iterator Next"], ST)

p("C05", "Malformed encodings are rejected and well-formed ones accepted",
  "Decode returns an error whenever the message's top-level structure is malformed - a truncated tag, length or value, a length reaching past the end, a varint that does not end within ten bytes or overflows 64 bits, or a group or reserved wire type - and returns nil for every well-formed sequence of fields with the supported wire types. In particular, cutting a valid encoding anywhere but between two fields is always an error.",
  ["inputs"], "every byte string whose field numbers are in the legal range, and every cut point of every valid encoding",
  "TestDecode has eight truncations of one-field messages; acceptance of valid inputs is only sampled on marshaller output.",
  ["zeropb.go"],
  [("size checks return io.ErrUnexpectedEOF", "zeropb.go: Decode"), ("value sizes per wire type", "zeropb.go: fieldDataSize")],
  ["error result of Decode"], ST)

p("C06", "Iterating a repeated message field yields each element once, in order",
  "For every message, decoded or built, iterating a repeated message field yields exactly its elements - empty ones included, each once, in encoding order - whatever other fields are interleaved before, between and after them, and then reports the end on that and every later call. Iterators are independent of each other and of earlier iterations, and one started before an append still yields the elements present at its start.",
  ["inputs", "histories"], "every number of elements, every interleaving with other fields of every wire type (several repeated fields included), every history of appends and setters before the iteration",
  "Tests iterate at most 4 contiguous elements produced by a marshaller plus appended ones; no foreign interleavings, no two iterators, no empty or exhausted ones.",
  ["zeropb.go", "generate/generate.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("iteration re-parses the message from the first occurrence", "zeropb.go: GetRepeatedNonPacked, FindNextField"), ("iterator type", "generate/generate.go: generateRepeatedMessageField")],
  ["iterator Next"], ST)

p("C07", "Fields unknown to the schema do not disturb known ones",
  "Inserting fields that the schema does not define - any other legal field number, supported wire type and content - between the fields of a well-formed encoding changes neither the success of Decode nor the result of any accessor or iterator, at any nesting level. Setters and appends called after decoding such a message behave as they do without the unknown fields.",
  ["inputs", "programs"], "every schema, every well-formed encoding, every set of unknown fields (numbers below, between and above the known ones) at every position, every following history of setters",
  "No test contains an unknown field, although evolving schemas is the stated purpose of the format.",
  ["zeropb.go", "offsets.go"],
  [("Decode skips by wire type", "zeropb.go: Decode"), ("iteration skips by wire type", "zeropb.go: FindNextField")],
  ["Decode result, accessors"], ST)

p("C08", "Behaviour does not depend on message size (64 KiB boundary)",
  "Reading, setting, appending, iterating and encoding give the same results for messages whose fields lie below, at, across or beyond the 64 KiB mark as for small ones. This holds also while a history of setters moves fields across that mark in either direction.",
  ["histories", "inputs"], "every message size up to several times 64 KiB, with field positions concentrated on 65533..65538, and every history that grows or shrinks the message across it",
  "TestEncode walks one scripted sequence over the boundary; the source says of the random test 'TODO: Test offsets edge cases in this. I tried but the require.Equal calls started taking forever.'",
  ["offsets.go", "zeropb.go"],
  [("offsets from 65535 up live in an overflow map", "offsets.go: Offsets.Set/Get"), ("offset adjustment after removal moves entries between map and array", "zeropb.go: setSingle")],
  ["accessors, iterators, Encode"], ST)

p("C09", "A reused message behaves like a fresh one",
  "After Reset with an empty buffer, or after Decode of a new encoding, a message behaves exactly as a newly created one given the same calls, whatever was done with it before: earlier contents, overflow state, a failed Decode. Reset refuses a non-empty buffer by panicking, and a reset message reads as empty and encodes to no bytes.",
  ["histories"], "every history before the Reset/Decode (large messages, failed decodes of arbitrary bytes, partial iteration) and every history after it",
  "No test reuses a message struct across Decode/Reset except the submessage variable of one loop; failed decodes are never followed by anything.",
  ["offsets.go", "zeropb.go", "generate/generate.go"],
  [("Clear at the start of Decode and in Reset", "offsets.go: Offsets.Clear"), ("generated Reset", "generate/generate.go: generateMessage")],
  ["accessors and Encode after reuse"], ST)

p("C10", "Embedded messages: presence, laziness, and errors stay local",
  "The accessor of an embedded message reports absence exactly when the field is absent, presence even when the embedded message is empty, and fills the given struct with exactly the embedded content at any nesting depth. A malformed embedded message or repeated element does not make the outer Decode fail or disturb other fields: it is reported as an error by the accessor or by the iteration step that reaches it, and iteration can continue with the next element.",
  ["inputs", "programs"], "every nesting depth and shape, embedded contents that are absent, empty, valid or arbitrary malformed bytes, singular and repeated",
  "Random tests nest valid messages at most 3 deep; malformed embedded messages and present-but-empty ones are never tried.",
  ["generate/generate.go", "zeropb.go", "golden/testzeropb/test.zeropb.go", "golden/raftzeropb/raft.zeropb.go"],
  [("nil means absent", "zeropb.go: GetBytes"), ("lazy decode in the accessor", "generate/generate.go: generateMessageField"), ("iterator Next returns the element's decode error", "generate/generate.go: generateRepeatedMessageField")],
  ["message accessors, iterator Next"], ST)

p("C11", "No heap allocation when decoding, reading or writing small messages",
  "For messages whose encoding stays below 64 KiB, successful Decode, every accessor, iteration over repeated messages, Reset, Encode, and every setter and append into a buffer with enough spare capacity perform no heap allocation.",
  ["inputs", "histories"], "every encoding and every setter history with the total length below 65535 bytes and a buffer with spare capacity for the operation",
  "Zero allocation is only reported by benchmarks on fixed messages; no test asserts it.",
  ["zeropb.go", "offsets.go"],
  [("scratch arrays on the stack, offsets array in the struct, map only beyond 64 KiB", "zeropb.go, offsets.go")],
  ["allocation count of the process"], ST)

p("C12", "Reading never modifies anything; writing copies its argument",
  "Decode, Encode, accessors and iterators never change the encoded bytes or the outcome of later reads, so reads may be repeated and reordered freely and a decoded, unmodified message encodes to the very bytes given. Setters and appends copy their argument: they never modify it, and changing the argument or its backing memory afterwards does not change the message.",
  ["inputs", "histories"], "every message, every order and repetition of reads, every argument and later modification of it",
  "No test compares the input buffer after reading or changes an argument after passing it.",
  ["zeropb.go", "generate/generate.go"],
  [("accessors slice the buffer", "zeropb.go: Get*"), ("setters append copies to the buffer", "zeropb.go: setSingle, appendSingle")],
  ["input buffer, argument, Encode, accessors"], ST)

p("C13", "Values read from a message can be modified and written back safely",
  "A bytes, string or embedded value obtained from a message may be passed, whole or sliced, to a setter or append of that same message: the target field then holds exactly the value the argument had at the call and all other fields keep theirs. Slices of what Encode returns, and the message itself where its type has a field of that type, may be passed just the same. An embedded message read out of a message may be changed with setters and set back, leaving every other field of the outer message intact throughout, and appending to a slice returned by an accessor never alters the message.",
  ["histories"], "every message layout, every pair of source and target fields, every old/new length relation, every history of changes to the extracted embedded message",
  "No test passes a value obtained from a message back into it, or mutates an extracted embedded message.",
  ["zeropb.go", "generate/generate.go"],
  [("setSingle moves bytes that the argument may point to", "zeropb.go: setSingle"), ("accessors return views of the buffer", "zeropb.go: GetBytes, GetString, FindNextField")],
  ["accessors and Encode after the write"], ST)

p("C14", "Every scalar value round-trips bit for bit in canonical encoding",
  "For each scalar field type and enums, every value of the type - extremes, negatives, NaN payloads, signed zero, arbitrary bytes - that is set is returned bit-identically by the accessor, and its encoding is byte-for-byte the canonical protobuf one. Conversely every protobuf encoding of a value, including over-wide varints for the narrower integer and bool types, reads as the value the specification assigns.",
  ["inputs"], "all values of all 16 field types (exhaustive for bool, boundary-biased random for 32/64-bit types and lengths)",
  "Random tests draw uniform values (never extremes, NaN, -0; floats only in [0,1)) and compare decoded values, not encodings; over-wide varints are never read.",
  ["zeropb.go"],
  [("per-type Get*/Set* pairs", "zeropb.go: Get*, Set*")],
  ["accessors, Encode bytes"], ST)

p("C15", "Any field number of a schema works, whatever its tag length",
  "Reading, setting, appending and iterating behave identically for every field number a schema may use, independent of how many bytes its tag needs and of which other numbers are present; tags written are canonical. Beside the offset table that the message struct declares, the memory used depends on what a message holds, not on the numbers of its fields.",
  ["programs", "histories"], "field numbers from 1 up to beyond the 1-, 2-, 3- and 4-byte tag limits (15/16, 2047/2048, 262143/262144), in any combination, over histories of setters, appends and decodes",
  "The golden schemas stop at field number 34, so three-byte and longer tags never occur.",
  ["zeropb.go", "offsets.go"],
  [("removal computes the tag's length", "zeropb.go: setSingle"), ("tag parsing", "zeropb.go: Decode, FindNextField")],
  ["accessors, Encode bytes"], ST)

p("C16", "The offset table is a faithful map for offsets of any size",
  "Over any history of storing, looking up and clearing, the offset table shared by generated code and runtime returns for each field number exactly the last stored offset, or nothing if none was stored since the last clear, for offsets below, at and above the 16-bit limit. Storing one field never affects another, a field's offset is held in the overflow map exactly when it does not fit the array, and no overflow map is allocated while all offsets fit.",
  ["histories"], "every history of set/get/clear over any number of fields with offsets 1 .. 2^48, concentrated on 65533..65537",
  "Offsets are only exercised indirectly, through one scripted crossing of the limit.",
  ["offsets.go"],
  [("array with sentinel plus lazily allocated map", "offsets.go: Offsets.Get/Set/Clear")],
  ["Offsets.Get, the wrapped array and map"], [("offsets", "array slot 0 = unset, 65535 = see map, else the offset", "offsets.go: Offsets")])

p("C17", "The generator emits compilable code with the full accessor set",
  "For every supported schema - any number of messages and fields, any supported types and labels, several repeated fields of one message type, self- and mutually recursive messages, any legal field names, number order, dotted or missing package, files without messages - the generated file is valid Go that compiles against the runtime, together with the other generated files of its package where messages of several proto files refer to each other. It defines for each message Encode, Decode and Reset, a typed getter and setter for each singular field, and an iterator accessor and an append method for each repeated message field.",
  ["programs"], "every proto file within the documented restrictions whose message names are usable Go type names",
  "TestGolden compares output for two fixed schemas; it never compiles anything.",
  ["generate/generate.go", "generate/stringtree.go"],
  [("text generation per message and field", "generate/generate.go"), ("indentation and writing", "generate/stringtree.go")],
  ["generated file, type-checked"], None)

p("C18", "Generated accessors are bound to the right field, type and label",
  "For every supported schema, the compiled generated code reads and writes, for each field of each message, the declared field number with the encoding of the declared type, treating fields as repeated exactly when declared so. Messages exchanged between generated code and a conforming protobuf implementation of the same schema carry the same values in both directions.",
  ["programs", "inputs"], "random supported schemas, compiled, each against random encodings and setter histories",
  "Only two checked-in generated packages are ever executed.",
  ["generate/generate.go", "zeropb.go"],
  [("field number, type function and iterator are templated per field", "generate/generate.go: generateSimpleField, generateMessageField, generateRepeatedMessageField, fieldToGoTypeSimple")],
  ["behaviour of the compiled generated package"], None)

p("C19", "Exactly the requested files are generated, once, deterministically",
  "For every generator request, the response holds exactly one output file for each requested proto file present in the request and none for the merely imported ones, in the order in which the request lists the file definitions, named as the proto file with its .proto extension replaced by .zeropb.go and nothing else in the path changed. A file's output depends only on that file's own definition, is identical in every run, and generating leaves the request unmodified.",
  ["inputs", "programs"], "every set and order of proto files (directories, dots and '.proto' inside names included), every subset requested",
  "TestGolden has one file per request and a flat name.",
  ["generate/generate.go"],
  [("filter on file_to_generate", "generate/generate.go: Generate"), ("output name", "generate/generate.go: generateFile")],
  ["CodeGeneratorResponse"], None)

p("C20", "The plugin binary honours the protoc plugin protocol",
  "Given any serialized generator request on standard input, the plugin writes to standard output exactly one serialized response equal to what the generator produces for that request, and exits 0. Given input that is not a valid request it writes no response, reports the problem on standard error and exits with a non-zero status, so that protoc fails instead of silently generating nothing. The status is non-zero, too, if the input cannot be read to its end or the response cannot be written.",
  ["inputs"], "every request for supported schemas (as protoc or any other producer serializes it, unknown fields included), and truncated or corrupted ones",
  "The command packages have no tests; the golden test bypasses the binary wire format of the request.",
  ["cmd/protoc-gen-zeropb/main.go", "generate/generate.go", "generate/plugin.pb.go", "generate/descriptor.pb.go"],
  [("stdin/stdout protocol", "cmd/protoc-gen-zeropb/main.go: run, main"), ("request types", "generate/plugin.pb.go, generate/descriptor.pb.go")],
  ["stdout, stderr, exit status of the built binary"], None)

p("C21", "The request dumper prints the request faithfully",
  "Given any serialized generator request, the text dumper prints a protobuf text form that parses back to the same request, with every known field's value preserved; given input that is not a valid request it reports an error and exits with a non-zero status. The status is non-zero, too, if the input cannot be read to its end or the text cannot be written.",
  ["inputs"], "every request, with all descriptor features (options, enums, services, nested types, extensions, source info, special characters in strings), and corrupted ones",
  "No test runs it, although the golden inputs were made with it.",
  ["cmd/protoc-gen-text/main.go", "generate/descriptor.pb.go", "generate/plugin.pb.go"],
  [("text marshalling", "cmd/protoc-gen-text/main.go: run")],
  ["stderr and exit status of the built binary"], None)

p("C22", "Distinct messages are independent, and reads may run concurrently",
  "Operations on one message never affect the contents or results of another that does not share its buffer, however calls on them are interleaved; values already returned for one are not changed by calls on the other. Goroutines may use distinct messages, and read one shared decoded message, at the same time without data races and with the same results as running alone.",
  ["schedules", "histories"], "every interleaving of call histories on several messages, sequential and from several goroutines",
  "Tests use one goroutine and compare messages only with themselves.",
  ["zeropb.go", "offsets.go", "generate/generate.go"],
  [("no package-level mutable state; scratch space is per call", "zeropb.go"), ("accessors are read-only", "zeropb.go: Get*")],
  ["accessors and Encode of each message; race detector"], ST)

p("C23", "Messages survive schema evolution in both directions",
  "A message written with one schema is read correctly with any compatible older or newer one: fields only the writer knows are ignored, fields only the reader knows read as absent, and fields declared with another type of the same wire-compatible group (int32, uint32, int64, uint64, bool, enum; fixed32, sfixed32; fixed64, sfixed64; string, bytes; bytes, embedded message; singular or repeated embedded message) read as the protobuf specification converts them. The reader may then set and append its own fields, after which the writer's schema reads exactly those values back.",
  ["programs", "histories", "inputs"], "every pair of compatible schemas (fields removed, added, reordered, retyped) and every history of writing with one, then reading and writing with the other",
  "All tests read a message with the very schema it was written with.",
  ["zeropb.go", "offsets.go"],
  [("fields beyond the schema's largest number are skipped", "zeropb.go: Decode"), ("conversion of the wire value to the declared type", "zeropb.go: Get*")],
  ["accessors and Encode under both schemas"], ST)

p("C24", "Decoding is lazy: contents are read only when their field is accessed",
  "Decode reads the tags, lengths and numeric values of a message's own fields but never the contents of its strings, bytes, embedded messages, repeated elements or unknown length-delimited fields. Accessors of one field, iterators and Encode never read the contents of other fields either, reading a string or bytes field only refers to its contents, and taking out an embedded message or element reads only that message's own top-level structure. The cost of reading one field is thus independent of the contents of others.",
  ["inputs", "programs"], "every schema of supported types and every well-formed encoding, with contents of any length at any nesting level",
  "Tests compare results, which are the same if contents are read needlessly; benchmarks are not checked.",
  ["zeropb.go", "generate/generate.go"],
  [("contents are skipped by their length", "zeropb.go: Decode, FindNextField, fieldDataSize"), ("accessors slice the buffer", "zeropb.go: GetString, GetBytes, GetRepeatedNonPacked")],
  ["memory accesses during Decode, accessors and iterators (pages made inaccessible)"], ST)

p("C25", "Costs stay proportional as messages grow",
  "Decode takes time proportional to the number of the message's own fields, valid or not, and iterating a repeated field from beginning to end takes time proportional to the number of fields from its first element on, however many there are and however deeply the contents are nested. Reading a singular field, starting an iteration and Encode take constant time wherever the field lies, and building a message by appending elements takes time proportional to the bytes appended.",
  ["inputs", "histories"], "every number of fields and elements (up to hundreds of thousands), every mixture of them, every depth of nesting, every sequence of appends",
  "Tests and benchmarks use messages of a few dozen fields, where a cost of a higher order does not show, and benchmark results are not checked.",
  ["zeropb.go", "generate/generate.go"],
  [("one pass over the fields", "zeropb.go: Decode"), ("each step of an iteration goes on where the last one ended", "zeropb.go: FindNextField"), ("one offset per field", "offsets.go: Offsets"), ("appends into spare capacity", "zeropb.go: appendSingle")],
  ["CPU time of Decode, accessors, complete iterations, series of appends"], ST)

p("C26", "The generator's text writer passes on everything up to the first error",
  "After any series of StringTree.Write calls, the underlying writer has received exactly the concatenation of the arguments' texts, in order: strings and bytes unchanged, Stringers' strings, int32 values in decimal, and for an indentation as many copies of the indentation string as it has steps. Once the writer has failed, at whatever byte, nothing more is written to it and Error returns that first error from then on; before, it returns nil. Arguments are neither changed nor referred to later.",
  ["inputs", "fault_sequences"], "every series of calls with arguments of the supported types, every indentation string, every byte at which the writer may fail",
  "The only test that reaches it is the golden one, which writes a fixed text to a writer that cannot fail.",
  ["generate/stringtree.go"],
  [("type switch over the arguments", "generate/stringtree.go: Write"), ("sticky error", "generate/stringtree.go: Write, Error")],
  ["bytes the underlying writer receives, Error"], None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
