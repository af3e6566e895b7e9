import json
B="binread/src/"; D="binread_derive/src/"
S=D+"codegen/read_options/struct.rs"; E=D+"codegen/read_options/enum.rs"; R=D+"codegen/read_options.rs"
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None,hook=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
pos=("reader position","the stream offset the caller sees before and after a read","the caller's Read + Seek value")
p("C01","Primitive values, arrays and tuples decode exactly, in the requested byte order",
"Reading any integer, float or char consumes exactly its width from the current position and yields exactly the value those bytes encode in the requested byte order (big, little, or the host's for native; char is one byte). Arrays, tuples, Box, Option, PhantomData and () decode as the concatenation of their parts, in order, and consume exactly the sum of the parts.",
["inputs"],"every byte content, every stream length and start position within the bound, every byte order, every primitive width",
"tests decode a few fixed byte strings; a byte swapped, sign-extended or skipped only for one width/order/position is invisible to them",
[B+"binread_impls.rs",B+"endian.rs",B+"lib.rs"],[("binread_impl!, array, tuple, Box, Option impls",B+"binread_impls.rs")],["value returned by read_options","reader position after the read"],[pos])
p("C02","A failed primitive read restores the position and reports the I/O error",
"If a primitive cannot be read, because the stream is too short or the stream's read fails, the read returns the I/O error of the stream (kind unchanged; UnexpectedEof for a short stream) and the reader is back at the position it had before. It never panics and never returns a value made from fewer bytes than its width.",
["inputs","fault_sequences"],"every stream length and position (including past the end), partial consumption by the failing read, every error kind injected into the read",
"tests only hit a short Cursor, which std's Cursor handles; a reader that consumes bytes before failing is never used",
[B+"binread_impls.rs"],[("position saved before read_exact and restored on error",B+"binread_impls.rs")],["Error::Io kind","reader position after the error"],[pos])
p("C03","A failed parse of a derived type restores the starting position",
"When parsing a derived struct or enum fails for any reason (short data, bad magic, failed assertion, no matching variant, failed conversion, failing nested value or pointer target, or an I/O error), the reader is back at the position where that parse started, provided the stream can still seek there. This holds at every nesting depth and for every start position.",
["inputs","fault_sequences"],"every byte content, length, start position, and every single I/O fault at any point of the parse",
"tests assert the position after one or two failures at offset 0; failures after seeks, padding, pointer following or inside later variants are not sampled",
[R,S,E],[("or_else(seek(Start(saved)))",R)],["reader position after Err"],[pos])
p("C04","Byte order directives obey the documented precedence",
"The byte order used for a value is, in decreasing priority: the directive on the field (fixed or conditional), on the enum variant, on the struct or enum, then the order passed by the caller, then the host's. Conditional byte order (is_big / is_little) picks the named order exactly when its condition is true and the opposite order otherwise, and a directive never leaks to sibling fields or to the caller.",
["inputs","configurations"],"every byte content, caller byte order, and condition value, over derive shapes combining field, variant and type level directives with nested types, collections and pointers",
"tests fix the data and the caller's order, so a wrong precedence that agrees on palindromic or single-order data passes",
[R,D+"parser/types/cond_endian.rs",S],[("ReadOptionsGenerator::endian",R)],["decoded field values"])
p("C05","Magic values gate parsing exactly",
"A struct, field or variant with a magic parses only if the bytes at its position equal that magic in the effective byte order, and then parsing continues with the first byte after the magic. Otherwise the result is a BadMagic error carrying the position of the magic and the value found there (an I/O error if the stream is too short).",
["inputs"],"every byte content and length, every start position and byte order, for byte, integer, signed, float, char and byte-string magics",
"tests try the matching magic and one mismatch; near-misses in any single byte or order are not enumerated",
[B+"error.rs",R,D+"parser/types/magic.rs"],[("magic()",B+"error.rs"),("get_magic",R)],["Error::BadMagic pos/found","reader position"])
p("C06","Data enums yield the first variant that parses, and only that one",
"Parsing an enum tries its variants in declaration order, each from the position where the enum starts, and returns the first variant whose magic, pre-assertions, fields and assertions all succeed; no earlier failed attempt influences the value or the final position. If all fail the error is EnumErrors listing every variant once, in order, with that variant's own error, or NoVariantMatch under return_unexpected_error; both carry the enum's start position.",
["inputs","fault_sequences"],"every byte content and length, start position and byte order, over enums with magic, asserted, nested and overlapping variants in both error modes",
"tests check a couple of variants with disjoint magics; overlapping variants with partially consumed input are not covered",
[E],[("generate_data_enum: try each variant, seek back, error basket",E)],["variant chosen","variant_errors","reader position"])
p("C07","Unit-only enums match by representation value or by magic, exactly",
"A unit-like enum with repr reads one value of the repr type and yields the variant whose discriminant equals it; one without repr reads one magic-sized value and yields the first variant whose magic equals it and whose pre-assertions hold. Every other value gives NoVariantMatch at the start position with the position restored, and a magic on the enum itself must match first.",
["inputs"],"every value of the repr/magic type (8 to 32 bits, signed and unsigned, byte strings), byte order, position and length",
"tests sample one matching and one non-matching value",
[E],[("generate_unit_enum_repr / generate_unit_enum_magic",E)],["variant returned","Error::NoVariantMatch pos"])
p("C08","Assertions hold on every value that is returned",
"A value is returned only if every assert and pre_assert on the type, the enum, the variant and the fields held; the first failing one, in order, decides the error: AssertFail for a message or no second argument, Custom with exactly the given value for an expression. pre_asserts are evaluated before any field is read, a top-level enum assert applies to every variant, and error expressions are evaluated only on failure.",
["inputs"],"every byte content and argument value over derive shapes with single, multiple, field-level, type-level and enum-level assertions",
"tests check one passing and one failing input per form; ordering between several assertions and boundary values are not explored",
[R,B+"private.rs",S,E],[("get_assertions",R),("private::assert",B+"private.rs")],["Ok values","Error::AssertFail / Custom payload and pos"])
p("C09","Padding, alignment and seek directives place the reader exactly",
"pad_before/pad_after move by exactly the given amount, align_before/align_after move to the smallest multiple of the alignment that is not behind the current position, pad_size_to moves to at least the given distance from where the field's data started, and seek_before goes where the SeekFrom says; restore_position leaves the reader where the field began. Before-directives apply in the order seek, pad, align, after-directives in the order pad_size_to, pad, align, and a seek that cannot be done is an I/O error, never a panic.",
["inputs"],"every start position, pad, alignment and size value taken from the data, stream lengths within the bound",
"tests use fixed small pads at position 0, where wrong modular arithmetic or order of directives coincides with the right one",
[S],[("map_align, map_pad, pad_size_to, generate_seek_before/after, wrap_save_restore",S)],["reader position after each field","field values"],[pos])
p("C10","File pointers resolve to offset + pointer and do not disturb sequential reading",
"A FilePtr reads its pointer at the current position and its target at (offset + pointer) for every signed or unsigned pointer width, with the byte order, count and arguments of the field, after the rest of the parent by default (offset_after may then use later fields), immediately with deref_now, and eagerly with FilePtr::parse. The position after the parent is just past its inline bytes, nested pointers included, and an unreachable target is an error.",
["inputs"],"every pointer value (in and out of range, negative), offset, start position and content within the bound",
"tests dereference one valid pointer; negative pointers, pointers with non-zero start position, offset combinations and out-of-range targets are not enumerated",
[B+"file_ptr.rs",S],[("FilePtr::after_parse / parse",B+"file_ptr.rs"),("generate_after_parse",S)],["target value","reader position"],[pos])
p("C11","Post-processing reaches values inside containers and runs once per value",
"Wrapping a value in Option, Box, Vec, an array, a tuple, PosValue, try or a nested derived type does not change its post-processing: each contained value's after_parse runs exactly once, in order, with the field's options and arguments, so pointers inside any wrapper are dereferenced whenever the bare value's would be.",
["inputs"],"every pointer value and content, container length within the bound, over all wrappers and nestings of two",
"tests cover FilePtr bare and in Vec/Option; other wrappers panic only when the caller dereferences",
[B+"binread_impls.rs",B+"pos_value.rs",B+"private.rs",S],[("after_parse impls of wrappers",B+"binread_impls.rs"),("try_after_parse",B+"private.rs")],["contained FilePtr values","number and order of after_parse calls"])
p("C12","Counted collections hold exactly count elements, or fail cleanly",
"A Vec field with count = n yields exactly the n values that n successive reads of the element type would yield, consuming the same bytes, and fails with the first element's error otherwise; the count is not inherited by the elements. For any count, including absurdly large ones taken from the input, the outcome on a short stream is an error, not a panic or an allocation of the claimed size.",
["inputs"],"every count (full width of the count type) and content; stream lengths within the bound",
"tests read matching counts; truncated data with a huge claimed count is not tried",
[B+"binread_impls.rs",B+"helpers.rs",B+"punctuated.rs"],[("Vec::read_options",B+"binread_impls.rs"),("helpers::count, read_bytes",B+"helpers.rs")],["length and elements","error kind","allocation requests"])
p("C13","until, until_exclusive, until_eof and count stop exactly where specified",
"until returns every element up to and including the first that satisfies the predicate and until_exclusive the same without it (consumed but not returned); neither reads past it, and end of stream before it is an error. until_eof returns every whole element up to end of stream and fails on any other error, count(n) reads exactly n, and all of them give their elements the caller's byte order and arguments and post-process them.",
["inputs"],"every byte content and length, terminator position, element type width and byte order within the bound",
"tests use one terminator position and exact-length data",
[B+"helpers.rs"],[("until, until_exclusive, until_eof, count",B+"helpers.rs")],["collected elements","reader position"])
p("C14","Punctuated keeps items and separators in step",
"Punctuated::separated with count n reads item, separator, item, ..., item and holds n items and n-1 separators (none for n = 0 or 1); separated_trailing holds n items and n separators. Items and separators are exactly the values at those positions in the field's byte order, nothing more is consumed, and any failing element is an error.",
["inputs"],"every content and count within the bound, item and separator of different widths",
"tests use one count and constant items; n = 0, n = 1 and truncated data are not covered",
[B+"punctuated.rs"],[("separated, separated_trailing",B+"punctuated.rs")],["items, seperators, reader position"])
p("C15","Null-terminated strings end at the first terminator",
"Reading a NullString (bytes) or NullWideString (16-bit units in the effective byte order) yields exactly the units before the first zero unit and leaves the reader just past that zero unit. No unit is lost, added or zero; a wide string without terminator is an error, and a byte string without terminator is what remains of the stream.",
["inputs"],"every content and length, terminator position, start position and byte order within the bound",
"tests read a few terminated ASCII strings",
[B+"strings.rs"],[("Vec<NonZeroU8>, Vec<NonZeroU16> readers",B+"strings.rs")],["string units","reader position"])
p("C16","String conversions are total and faithful",
"into_string and to_string never panic on any string content: valid text converts to exactly that text and invalid sequences are replaced lossily; into_string_lossless succeeds exactly on valid UTF-8/UTF-16 and then gives the same units back. Conversions between strings and unit vectors preserve every unit.",
["inputs"],"every unit sequence up to the length bound, including invalid UTF-8/UTF-16",
"tests convert ASCII only",
[B+"strings.rs"],[("into_string, into_string_lossless, ToString, From impls",B+"strings.rs")],["returned String / Result"])
p("C17","if, calc, default and temp fields follow their expressions exactly",
"A field under if is read exactly when its condition holds, and otherwise takes the alternate (or default) value without consuming input or moving the reader, the alternate being evaluated only then; calc and default fields take the computed or default value and consume nothing; temp fields are read and usable but absent from the result. Conditions and expressions see the values of earlier fields.",
["inputs"],"every byte content and condition value over derive shapes combining the directives",
"tests take each branch once",
[S],[("wrap_condition, read_value, iter_permanent_idents",S)],["field values","reader position"])
p("C18","map and try_map apply exactly once, and failures become errors",
"A mapped field or type is the result of applying the function once to the value read with the function's parameter type in the effective byte order, consuming exactly that value's bytes. try_map errors become Io errors when the function returns an I/O error and Custom errors holding exactly the function's error otherwise, with the starting position restored.",
["inputs"],"every byte content and length, byte order and start position, over field and type level map and try_map",
"tests map one value; error payload, position and byte order of type-level maps are not covered",
[R,S],[("Map handling in generate(), map_value, get_map_err",R)],["mapped value","Error::Custom / Io payload","reader position"])
p("C19","try turns any failure of its field into None, with the position restored",
"A try field is Some(value) exactly when the field parses on its own, and None otherwise; after None the reader is where the field began and the following fields parse from there. The failure of a try field never fails the parent and never leaks into later fields.",
["inputs","fault_sequences"],"every content and length over try fields of primitive, array, tuple, Vec, string, struct, enum and custom-parser type",
"tests use a primitive at end of file, where nothing was consumed",
[S,B+"private.rs"],[("try_conversion",S)],["field value","position of the next field"],[pos])
p("C20","Arguments and options reach exactly the values they are meant for",
"The arguments given with args/args_tuple arrive unchanged and in order at the import/import_tuple of the nested value, for every element of a collection, for pointer targets and for custom parsers; count and offset reach the field they are on and no sibling. Expressions may use earlier fields and imports.",
["inputs"],"every argument, count and offset value, over derive shapes passing arguments through structs, enums, collections and pointers",
"tests pass constants that coincide across positions",
[S,R,D+"parser/types/imports.rs",D+"parser/types/passed_args.rs"],[("get_passed_args, add_imports, ReadOptionsGenerator",S)],["values computed from the arguments"])
p("C21","The no_std Cursor behaves like std::io::Cursor",
"For every buffer, position and argument, each operation of the no_std Cursor (read, seek from start, end and current, position, set_position, stream_position, get_ref, into_inner) returns the same result and leaves the same position and output bytes as std::io::Cursor's. No operation panics.",
["inputs","histories"],"every buffer up to the length bound, every 64-bit position and offset, one step from an arbitrary state (any history reaches only such states)",
"tests compare five calls on one buffer",
[B+"io/cursor.rs"],[("Cursor::read / seek",B+"io/cursor.rs")],["return values, position, buffer"],[("pos","current position, any u64",B+"io/cursor.rs")])
p("C22","no_std read_exact and bytes behave like std's under short reads and errors",
"The no_std Read::read_exact fills the buffer with the stream's bytes in order across any split into short reads, retries Interrupted, stops at the first other error and reports it unchanged, and reports UnexpectedEof when the stream ends early; bytes() yields each byte once in order with the same treatment of Interrupted and errors, then None. By-reference readers behave as the reader itself.",
["inputs","fault_sequences"],"every sequence of short reads, Interrupted and errors up to the bound, every content and buffer length within the bound",
"tests interrupt once and use full reads",
[B+"io/no_std.rs"],[("Read::read_exact, Bytes::next",B+"io/no_std.rs")],["buffer content, error kind, calls made"])
p("C23","Results do not depend on how the stream chunks its reads",
"Parsing the same bytes through a reader that returns fewer bytes than asked, or is interrupted, at any point gives the same value or the same kind of error, and the same final position, as through a reader that always fills the buffer.",
["inputs","fault_sequences"],"every content and every split into short reads and interruptions within the bound",
"tests always read from a Cursor, which never returns short",
[B+"binread_impls.rs",B+"strings.rs",B+"helpers.rs"],[("read_exact / bytes used for every read",B+"binread_impls.rs")],["value/error and position"])
p("C24","I/O errors are never swallowed",
"If one stream operation (read, seek or position query) performed during a parse fails with an error other than Interrupted, the parse fails with Io of the same kind, and no value is ever returned that missed the failed operation. Two contexts handle it instead: a try field becomes None, and an enum goes on to its next variant or reports that variant's error. until_eof alone treats UnexpectedEof as the end.",
["inputs","fault_sequences"],"every operation index at which the fault is injected, every error kind of a representative set, every content within the bound",
"tests do not inject I/O faults",
[R,S,B+"binread_impls.rs",B+"file_ptr.rs",B+"helpers.rs",B+"strings.rs"],[("? on every stream operation",S)],["result of the parse"])
p("C25","PosValue records where its value began and is otherwise transparent",
"PosValue<T> holds exactly the value T alone would have given, consumes the same bytes, passes arguments, options and post-processing through, and its pos is the absolute stream position at which T's parse began, in any context (after padding, behind a pointer, in a collection). Its equality, clone and dereference are those of the value.",
["inputs"],"every content, start position and context within the bound",
"tests read one PosValue at offset 2",
[B+"pos_value.rs"],[("PosValue::read_options / after_parse",B+"pos_value.rs")],["pos, val, reader position"],[pos])
p("C26","Arbitrary bytes never make parsing panic",
"For a derived type whose own expressions do not panic, parsing any byte sequence returns Ok or Err: no panic, arithmetic overflow, out-of-bounds access or abort, whatever lengths, pointers, counts, paddings or discriminants the bytes claim.",
["inputs"],"every byte content and length within the bound, over formats that combine the directives (chunked files, pointer tables, strings, enums)",
"tests feed well-formed files; there is no fuzzing in the suite",
[B+"binread_impls.rs",B+"file_ptr.rs",B+"strings.rs",S,E],[("every read path",B+"binread_impls.rs")],["absence of panics"])
p("C27","Feature configurations agree on results",
"Reading the same bytes with the same type gives the same value or error kind and the same final position whether the crate is built with std, without std, with const_generics or with debug_template. Arrays of every supported length decode alike in all of them.",
["inputs","configurations"],"every content, length, position and byte order within the bound, in each feature configuration",
"each test run fixes one configuration and compares with constants",
[B+"binread_impls.rs",B+"strings.rs",B+"file_ptr.rs",B+"io/no_std.rs",B+"binary_template.rs"],[("cfg(feature) blocks",B+"binread_impls.rs")],["value/error and position per configuration"])
p("C28","Debug templates record the positions and orders actually used",
"With debug_template enabled, each primitive, magic, vector, array, pointer, pointer target and string that is read writes one template entry, in reading order, giving the position where that read starts, its byte order, type and field name (and count); structs open and close a block; primitive and string elements of vectors and arrays write none. The text of an entry seeks to that position under that order. Writing the template never changes what is parsed.",
["inputs"],"every content and start position within the bound over a format with primitives, magic, vectors, pointers and strings",
"tests compare one generated template file",
[B+"binary_template.rs",B+"binread_impls.rs",B+"file_ptr.rs",D+"codegen/read_options/debug_template.rs"],[("binary_template::write* calls",B+"binread_impls.rs")],["calls recorded at the template writer"])
p("C29","All reading entry points agree",
"read_type, read_be, read_le, read_ne and their _args forms give the same value, error kind and position as read_options with the named byte order (and otherwise default options) followed by one after_parse with the same options and arguments; BinRead::read and read_args are read_options with default options, without that last step. Default options mean native order, no count and offset zero.",
["inputs"],"every content, length, start position and byte order within the bound over representative types",
"tests use each entry point on one input",
[B+"lib.rs",B+"error.rs",B+"options.rs"],[("BinReaderExt, BinRead provided methods",B+"lib.rs")],["values, errors, position"])
p("C30","A parse depends only on the bytes it covers",
"Two streams that agree on the bytes a successful parse consumed (and on pointer targets) give the same value and consumption, whatever follows; and for types without absolute positions the result is the same at every start position. Parsing twice from the same state gives the same result.",
["inputs","histories"],"every pair of contents that agree on the consumed part, every start position within the bound",
"a two-run relation over all contents cannot be sampled by fixed inputs",
[B+"binread_impls.rs",S,E],[("sequential reads from the current position only",S)],["pairs of results"])
p("C31","Invalid directive combinations are rejected at compile time",
"The derive macro accepts exactly the documented directives and combinations, and reports an error, rather than generating code that ignores a directive, for the others.",
["programs"],"every annotated type definition",
"UI tests list a handful of malformed definitions",
[D+"parser/mod.rs",D+"parser/macros.rs"],[("attribute parser",D+"parser/mod.rs")],["compile errors"])
p("C32","Debug template output is well-formed under concurrent readers",
"With debug_template enabled, parses running on several threads never interleave inside one template entry or dead-lock.",
["schedules"],"every interleaving of parses on two or more threads",
"tests parse on one thread",
[B+"binary_template.rs"],[("global Mutex around the writer",B+"binary_template.rs")],["template file"])
MORE = {
"C05": " An enum's own magic is the one of every variant that has none (a variant's magic replaces it).",
"C06": " A variant without a magic takes the enum's.",
"C08": " (Assertions of a type with a top-level map are evaluated by the generated code of that form and are not part of this.)",
"C09": " An alignment of 0 means no alignment, and restore_position returns to where the field began after its own magic.",
"C10": " Pointers are displacements of type i64, as IntoSeekFrom documents.",
"C13": " The helpers pass on the byte order and arguments, not the offset and count.",
"C17": " A field's magic is checked whether or not its if condition holds.",
"C19": " The failures meant are those of reading the field's value, after its padding and magic; a failing post-processing (the target of a pointer) is still an error.",
"C20": " The helper parsers (until, until_eof, count) pass on byte order and arguments only.",
}
for d in P:
    d["statement"] += MORE.get(d["id"], "")
for d in P:
    if len(d["title"])>80 or d["statement"].count(". ")>2: print(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
