//! C26: arbitrary bytes never make parsing panic. Kani checks every arithmetic operation, index,
//! unwrap and explicit panic on the way; memory requests above the limit are violations too.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, helpers, io::{Read, Seek, SeekFrom}, punctuated::Punctuated, FilePtr, FilePtr128, FilePtr16, FilePtr32, FilePtr64, FilePtr8, NullString, NullWideString, PosValue};

macro_rules! any_bytes {
    ($t:ty, $n:literal) => { any_bytes!($t, $n, ()) };
    ($t:ty, $n:literal, $args:expr) => { any_bytes!($t, $n, $args, |r| true) };
    ($t:ty, $n:literal, $args:expr, |$r:ident| $ok:expr) => {{
        let mut $r = Rd::<16>::over(sym::bytes(), 0, 0);
        $r.len = sym::upto($n);
        $r.pos = sym::upto(1);
        sym::assume($ok);
        let o = opts(some_endian());
        let got = binread::error::read_options_then_after_parse::<_, $t, _>(&mut $r, &o, $args);
        reach!(got.is_ok(), "accepted");
        reach!(got.is_err(), "rejected");
        core::mem::forget(got);
    }};
}

// A file of tagged chunks.
#[derive(BinRead)]
#[br(magic = b"CF", big)]
struct File { flags: u8, #[br(is_little = flags & 1 == 1, if(flags > 127))] chunk: Option<Chunk> }
#[derive(BinRead)]
struct Chunk { tag: Tag, len: u16, #[br(args(tag, len))] body: Body }
#[derive(BinRead, Clone, Copy, PartialEq)]
#[br(repr = u8)]
enum Tag { Raw = 0, Num = 1, Ptr = 0xff }
#[derive(BinRead)]
#[br(import(tag: Tag, len: u16), return_unexpected_error)]
enum Body {
    #[br(pre_assert(tag == Tag::Raw))] Raw { #[br(count = len, align_after = 2)] data: Vec<u8> },
    #[br(pre_assert(tag == Tag::Num), assert(self_0 < 1000 || self_1 < 0))] Num(#[br(pad_size_to = len)] u32, i8),
    #[br(pre_assert(tag == Tag::Ptr))] Ptr(#[br(offset = len as u64)] FilePtr<i16, u8>),
}
// A table of pointers.
#[derive(BinRead)]
struct Table { base: u8, #[br(offset = base as u64, count = 1)] entries: Vec<FilePtr16<Entry>>, #[br(offset_after = last)] tail: FilePtr<i32, PosValue<u8>>, last: u64 }
#[derive(BinRead)]
struct Entry { kind: i8, #[br(if(kind < 0), deref_now)] next: Option<FilePtr8<u8>>, #[br(if(kind > 3, 1))] x: u16 }
// Every width of pointer, relative to any 64-bit offset.
#[derive(BinRead)]
struct P64 { off: u64, #[br(offset = off)] p: FilePtr64<u8> }
#[derive(BinRead)]
struct PI64 { off: u64, #[br(offset = off)] q: FilePtr<i64, ()> }
#[derive(BinRead)]
struct P128 { p: FilePtr128<()> }
#[derive(BinRead)]
struct PI128 { #[br(offset = 1 << 63, parse_with = FilePtr::<i128, ()>::parse)] q: () }
// Movements by amounts out of the data.
#[derive(BinRead)]
struct Pads { n: i64, #[br(pad_before = n, pad_after = n)] a: (), #[br(align_before = n as u64)] b: () }
#[derive(BinRead)]
struct Seeks { n: i64, #[br(seek_before = SeekFrom::Current(n))] a: (), #[br(seek_before = SeekFrom::End(n), restore_position)] b: (), #[br(align_after = n)] c: () }
#[derive(BinRead)]
struct Starts { n: u64, #[br(seek_before = SeekFrom::Start(n), align_before = 16, pad_after = 1)] a: (), #[br(align_after = 0xffff_ffff_ffffu64)] b: () }
#[derive(BinRead)]
struct Sizes { n: u64, m: i8, #[br(pad_size_to = n, seek_before = SeekFrom::Current(m as i64))] a: Back }
#[derive(BinRead)]
struct Back { k: i8, #[br(pad_before = k as i64)] x: () }
// Counts of any size.
#[derive(BinRead)]
struct Counts { n: u64, #[br(count = n)] a: Vec<u8> }
#[derive(BinRead)]
struct Counts2 { n: u64, #[br(count = n, parse_with = Punctuated::separated)] a: Punctuated<u8, u8> }
#[derive(BinRead)]
struct Counts3 { n: i64, #[br(count = n, parse_with = helpers::read_bytes)] a: Vec<u8> }
#[derive(BinRead)]
struct Counts4 { n: u64, #[br(parse_with = helpers::count(n as usize))] a: Vec<u16> }
#[derive(BinRead)]
struct Counts5 { n: i8, #[br(count = n, parse_with = Punctuated::separated_trailing)] a: Punctuated<u16, u8> }
// Strings and lists without an end.
#[derive(BinRead)]
struct Strs { a: NullString, z: u8 }
#[derive(BinRead)]
struct Wides { a: NullWideString }
#[derive(BinRead)]
struct Ends { #[br(parse_with = helpers::until(|x: &u8| *x & 3 == 3))] a: Vec<u8>, #[br(parse_with = helpers::until_eof)] b: Vec<u16> }
// Discriminants.
#[derive(BinRead)]
#[br(repr = i64)]
enum Wide { A = i64::MIN as isize, B = -1, C = i64::MAX as isize }
#[derive(BinRead)]
#[br(repr = u16, magic = 0xff00u16, little)]
enum Narrow { A = 0, B = 0xffff }
#[derive(BinRead)]
enum Magics { #[br(magic = 0u32)] A, #[br(magic = 0xffff_ffffu32)] B }
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum Nest { #[br(magic = 0x80u8)] W(Wide), #[br(magic = -1i8)] N { n: Narrow, m: Magics }, #[br(magic = 'x')] X(#[br(try)] Option<Narrow>, char) }
// Conversions.
fn parse(x: (u8, i16)) -> Result<i16, String> { x.1.checked_div(x.0 as i16).ok_or_else(String::new) }
#[derive_binread]
#[br(import(k: u8), assert(c != 7, k))]
struct Conv {
    #[br(temp, assert(n < 0xf0, "too many"))] n: u8,
    #[br(try_map = parse)] a: i16,
    #[br(map = |b: [u8; 2]| b[0] ^ b[1])] b: u8,
    #[br(calc = n ^ k)] c: u8,
    #[br(try, count = n & 1)] d: Option<Vec<u16>>,
    #[br(if(c & 1 == 0, 2.0))] e: f32,
    #[br(ignore)] f: u8,
    #[br(if(n > 9))] g: Option<Box<u8>>,
}
#[derive(BinRead)]
#[br(try_map = whole)]
struct Whole { a: u8 }
fn whole(b: (u8, u8)) -> Result<Whole, u8> { b.0.checked_sub(b.1).map(|a| Whole { a }).ok_or(b.0) }

harnesses! {
    file [6] { any_bytes!(File, 9, (), |r| r.pos == 0); }
    table [6] { any_bytes!(Table, 16, ()); }
    p64 [10] { any_bytes!(P64, 16, (), |r| r.pos == 0); any_bytes!(PI64, 16, (), |r| r.pos == 0); }
    p128 [18] { any_bytes!(P128, 16, ()); any_bytes!(PI128, 16, ()); }
    pads [10] { any_bytes!(Pads, 10, ()); }
    seeks [10] { any_bytes!(Seeks, 10, ()); }
    starts [10] { any_bytes!(Starts, 10, ()); }
    sizes [10] { any_bytes!(Sizes, 12, ()); }
    counts [10] { any_bytes!(Counts, 10, (), |r| r.pos == 0); }
    counts2 [10] { any_bytes!(Counts2, 11, (), |r| r.pos == 0); }
    counts3 [10, alloc::vec::Vec::resize => crate::stubs::resize] { any_bytes!(Counts3, 11, (), |r| r.pos == 0); }
    counts4 [10] { any_bytes!(Counts4, 10, (), |r| r.pos == 0); }
    counts5 [5] { any_bytes!(Counts5, 7, (), |r| r.pos == 0); }
    strs [5] { any_bytes!(Strs, 4, (), |r| r.pos == 1); }
    wides [5] { any_bytes!(Wides, 6, (), |r| r.pos == 0); }
    ends [5] { any_bytes!(Ends, 4, (), |r| r.pos == 0); }
    wide [10] { any_bytes!(Wide, 9, ()); }
    nest [10] { any_bytes!(Nest, 10, ()); }
    conv [6] { any_bytes!(Conv, 14, (sym::sym_u8(),)); }
    whole_map [6] { any_bytes!(Whole, 3, ()); }
}
