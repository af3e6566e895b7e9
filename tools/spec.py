COMMON_ASSUMPTIONS = [
    "Kani 0.68 models the dev profile of x86_64-unknown-linux-gnu; counterexamples are replayed in the dev and release profiles of the stable toolchain.",
    "Dropping a binread::Error, io::Error or boxed Any payload is replaced by a no-op (its recursive drop glue makes symbolic execution diverge).",
    "alloc::fmt::format returns an empty string (the text of formatted messages is never compared).",
    "Memory allocation does not fail.",
    "The stream is a byte array with symbolic content, length and position; its read_exact either fills the buffer or fails (its retry loop is std's, or decided by C22).",
    "One harness per concrete instantiation: derive shapes and type arguments are those of the harness files.",
]
D = dict(configs=["std"])
SPEC = {
    "C01": dict(D, bounds="streams of up to 24 bytes, every position, arrays up to 32 elements, tuples up to 3.", outside="longer streams"),
}
SPEC["C03"] = dict(D, mir=2, heavy=["counted", "data", "deep", "ptr", "ptr_off", "moves"], bounds="24 derived shapes (structs, tuples, enums of every kind, nesting depth 3, pointers, padding, custom parsers, maps, conditions, temp), streams of up to 16 bytes, start positions up to 4, one failing operation anywhere, counts up to 1.", outside="other shapes, longer streams, several failing operations, streams that cannot seek back")
SPEC["C12"] = dict(D, alloc_limit=1 << 20, heavy=["claims", "count3", "count2"], bounds="every 64-bit count for Vec<u8>, helpers::count and Punctuated on streams of up to 2 bytes; every 64-bit count field; Vec of a failing element type with counts 0..3 from any position; read_bytes with counts 0..3, 2^16, 2^24, 2^32, 2^63-1 and 2^64-1 on streams of up to 3 bytes; requests above 1 MiB are violations.", outside="longer streams (the second chunk of read_bytes), other element types")
SPEC["C13"] = dict(D, heavy=["fields", "pointers", "count2", "count3"], bounds="up to 3 sixteen-bit elements (and up to 5 bytes) from positions 0 and 1, every terminator value and position, any one failing operation", outside="longer sequences, other containers than Vec")
SPEC["C14"] = dict(D, heavy=["field", "field_trailing"], bounds="counts 0 to 3, 16-bit items and 8-bit separators, streams of up to 11 bytes, positions 0 and 1, one failing operation", outside="longer lists, other item types")
SPEC["C15"] = dict(D, heavy=["mixed", "pair", "sequence", "fault"], bounds="byte strings of up to 5 bytes and wide strings of up to 3 units, positions 0 and 1, every content, one failing operation", outside="longer strings")
SPEC["C16"] = dict(D, heavy=["into4", "to4", "lossless4"], bounds="every byte string of up to 4 bytes and every wide string of up to 3 units", outside="longer strings; the code of std's String::from_utf8_lossy, from_utf16_lossy and from_utf16, which is executed for one unit and replaced by a model (written from the Unicode rules) for more")
SPEC["C21"] = dict(D, configs=["nostd"], bounds="buffers of up to 8 bytes, every 64-bit position and offset, reads of 0, 1, 3 and 5 bytes, and histories of up to 4 operations; std::io::Cursor is executed symbolically alongside.", outside="longer buffers and histories (one step from an arbitrary state is covered)")
SPEC["C22"] = dict(D, configs=["nostd"], hints=False, bounds="buffers of 0 to 4 bytes, streams of up to 5 bytes, every schedule of 3 steps (interruption, error, end of stream, 1 to 3 bytes) followed by full reads; std's default read_exact and Bytes are executed symbolically over the same schedule.", outside="longer buffers and schedules")
SPEC["C23"] = dict(D, configs=["std"], loop_hints=[("inlined_slow_read_byte", 4), ("default_read_exact", 5), ("Rd<16>.*read_exact", 9)], heavy=["vec", "en", "str", "tail", "wide", "until"], bounds="16 types (primitives, magic, lists, arrays, strings, enums, try, padding, pointers, until, until_eof), streams of up to 9 bytes, two consecutive odd reads (1, 2 or 3 bytes, or an interruption) from any read on, against the same parse from a stream that always fills the buffer", outside="longer streams and schedules")
SPEC["C24"] = dict(D, heavy=["strs", "lists", "entry", "now", "untils", "primitives"], bounds="every operation index, six error kinds (UnexpectedEof among them), every content of streams of up to 15 bytes after the start, over 22 types covering every directive that moves or reads, and one failing operation per parse", outside="several failing operations, other kinds, longer streams")
SPEC["C25"] = dict(D, heavy=["list", "en", "places"], bounds="primitives, structs, enums, arrays, boxes, lists, pointers and an argument probe inside PosValue, against the same type alone, on streams of up to 8 bytes from positions up to 3, with every offset and count option; contexts (padding, alignment, restore_position, magic, lists, tuples, until, count, Punctuated, pointers, try, nesting) on streams of 16 bytes", outside="longer streams, other types")
SPEC["C26"] = dict(D, alloc_limit=1 << 20, loop_hints=[("Rd<16>.*read_exact", 9)], heavy=["file", "table", "counts3", "counts4", "nest", "conv"], bounds="", outside="")
SPEC["C27"] = dict(assumptions=["In the debug_template configuration the functions of binread::binary_template are replaced by functions that do nothing."], configs=["std", "nostd", "cg", "dt"], mir_dt=0, heavy=["strings", "lists", "data_enum", "wides", "record", "pointers"], bounds="", outside="")
SPEC["C28"] = dict(configs=["dt"], mir=0, heavy=["lists", "strings"], assumptions=["In the parsing harnesses the functions of binread::binary_template are replaced by recorders (their text is decided by the text_ harnesses); in those, std::env::var, Once::call_once and the fetch_add of the counters are replaced."], bounds="", outside="")
for k, (b, o) in {
    'C02': ('every primitive type, streams of up to 24 bytes, every position from 0 past the end, every consumption and kind of one failing read or seek', 'readers that fail several operations'),
    'C04': ('11 families of shapes (field, type, variant, conditional, nested, through wrappers, helpers, pointers, maps), streams of up to 14 bytes, all three caller orders', 'deeper nesting than 3'),
    'C05': ('magics of every primitive type and byte strings of 2 and 4 bytes on structs, fields, enums, variants, mapped types and behind pointers; streams of up to 16 bytes, positions 0 to 2', 'longer byte-string magics'),
    'C06': ('enums of 2 to 4 variants (magic, pre_assert, assert, movement, nesting, late pointer failure) in both error modes; streams of up to 8 bytes, positions 0 to 2, one failing operation', 'enums of more variants'),
    'C07': ('repr 8 to 64 bits signed and unsigned, magics 8 to 32 bits and byte strings, pre_asserts, magic on the enum, every value of the type, positions 0 to 3', '128-bit repr'),
    'C08': ('assert and pre_assert on fields, structs, enums, variants, unit structs, temp fields, nested types and pointer targets, with messages, errors and neither; streams of up to 6 bytes', 'more than three assertions in a row'),
    'C09': ('every 64-bit position and amount for pad and seek; alignments 0 to 8, 10, 12, 64, 100, 255 and a 16-bit symbolic position for those; pad_size_to below 2^62', 'alignments by other constants at positions above 2^16; positions above 2^63 for pad_size_to'),
    'C10': ('pointer widths 8 to 128 bits signed and unsigned, every offset, nested, counted, conditional, offset_after, deref_now, parse; streams of up to 16 bytes', 'chains of more than two pointers'),
    'C11': ('every wrapper (Option, Box, Vec, arrays, tuples, PosValue, try, temp, nested and generic types, enums) with up to 7 probes recording their calls', 'larger collections'),
    'C17': ('if with and without alternate, calc, default, ignore, temp, on named, tuple and enum types; streams of up to 8 bytes', 'conditions with side effects on other fields'),
    'C18': ('map, try_map on fields, types, enums, variants; conversions failing with custom, io, binread and std errors; streams of up to 8 bytes', 'conversion functions that panic'),
    'C19': ('22 shapes of try field (primitives, lists, nested types, magic, enums, custom parsers, pointers, conditions), streams of up to 9 bytes, one failing operation', 'a restoring seek that itself fails'),
    'C20': ('args, import, import_tuple, count, offset and offset_after over nesting depth 3, lists, pointers, custom parsers, enums and siblings; every argument value', 'more than three arguments'),
    'C26': ('22 formats combining the directives, streams of up to 16 bytes of any content, lengths, counts and pointers of any 64-bit value; memory requests above 1 MiB count as violations', 'longer streams; elements of size zero with astronomical counts'),
    'C27': ('18 harnesses in each of the configurations std, no std, const_generics and debug_template, against one reference: all primitives, byte arrays of lengths 0, 1, 2, 8, 16, 32 (all lengths in the thorough tier), records, enums, lists, pointers, strings, moves, maps', 'configurations combining const_generics with debug_template'),
    'C28': ('8 formats with every content (streams of up to 16 bytes from position 1), entries compared in order; the text functions for every two-digit position and one 16-digit one, every counter value of three digits', 'lists of pointers, whose entries the documentation does not settle; braces after a failed struct-level assertion; the text of generated names under Kani (format! is cut)'),
    'C29': ('12 types (two of them recording every option and argument), streams of up to 6 bytes from positions 0 and 1, one failing operation', '-'),
    'C30': ('11 types, every pair of streams of up to 10 covered bytes and 16 in all, shifts of 1 to 4 bytes; two parses in a row of 4 of them', 'longer streams'),
}.items():
    SPEC.setdefault(k, dict(D))
    SPEC[k].update(bounds=b, outside=o)
for i in range(1, 31):
    SPEC.setdefault(f"C{i:02d}", dict(D, bounds="", outside=""))
