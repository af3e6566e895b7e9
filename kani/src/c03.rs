//! C03: a failed parse of a derived type restores the starting position.
use crate::{harnesses, reach, rd::*, sym};
use binread::{io::{Read, Seek, SeekFrom}, derive_binread, FilePtr, PosValue};

/// Parses `$t` from an arbitrary position of an arbitrary stream, any one operation of which may
/// fail, and checks the position after an error.
macro_rules! atomic {
    ($t:ty, $n:literal, $at:literal, $args:expr) => {{
        let mut r = Rd::<$n>::any_at($at).faulty();
        r.eat = sym::upto(2);
        let (start, e) = (r.pos, some_endian());
        let got = <$t>::read_options(&mut r, &opts(e), $args);
        let ok = got.is_ok();
        core::mem::forget(got);
        assert!(ok || r.pos == start || r.restore_refused(start), "position after a failed parse");
        reach!(ok, "parses");
        reach!(!ok && r.high > start + 1 && start > 0, "fails after consuming");
        reach!(!ok && r.hit == Hit::Read && r.high > start, "I/O error half way");
    }};
}

#[derive(BinRead)]
struct Plain { a: u8, b: u16, c: u8 }
#[derive(BinRead)]
struct Tup(u8, u16);
#[derive(BinRead)]
#[br(magic = 0x4d5au16, assert(a != b))]
struct Checked { #[br(assert(a < 0x80, "too big"))] a: u8, #[br(magic = 7u8)] b: u8 }
#[derive(BinRead)]
#[br(import(lim: u8), pre_assert(lim != 3, Custom(lim)))]
struct Imports { a: u8, #[br(assert(a <= lim, Custom(a)))] b: u8 }
struct Custom(#[allow(dead_code)] u8);
#[derive(BinRead)]
struct Leaf { x: u8, #[br(assert(y > x))] y: u8 }
#[derive(BinRead)]
struct Outer { a: u8, leaf: Leaf, #[br(assert(b != a))] b: u8 }
#[derive(BinRead)]
struct Deep { a: u8, outer: Outer2, z: u8 }
#[derive(BinRead)]
struct Outer2 { l: Leaf, m: [u8; 2] }
#[derive(BinRead)]
struct Counted { n: u8, #[br(count = n & 1)] v: Vec<Leaf>, c: u8 }
#[derive(BinRead)]
struct Ptr { a: u8, p: FilePtr<u8, Leaf>, b: u8 }
#[derive(BinRead)]
struct PtrNow { a: u8, #[br(deref_now)] p: FilePtr<i8, u16>, #[br(assert(*p != 0))] b: u8 }
#[derive(BinRead)]
struct PtrParse { a: u8, #[br(parse_with = FilePtr::<u8, u16>::parse)] v: u16, b: u8 }
#[derive(BinRead)]
struct PtrOff { p: FilePtr<u8, FilePtr<u8, u8>>, #[br(offset_after = b as u64)] q: FilePtr<u8, u16>, b: u8 }
#[derive(BinRead)]
struct Moves {
    #[br(pad_before = 1, align_after = 4)] a: u8,
    #[br(seek_before = SeekFrom::Current(a as i8 as i64), pad_size_to = 2)] b: u8,
    #[br(restore_position)] c: u16,
    #[br(align_before = 2, pad_after = 1)] d: u8,
}
fn greedy<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<u8> {
    let a = u8::read_options(r, o, ())?;
    r.seek(SeekFrom::Current(2))?;
    let b = u8::read_options(r, o, ())?;
    if a == b { Ok(a) } else { Err(BErr::NoVariantMatch { pos: 99 }) }
}
#[derive(BinRead)]
struct Parser { a: u8, #[br(parse_with = greedy)] b: u8, c: u8 }
#[derive(BinRead)]
struct Maps { #[br(map = |x: u16| x as u8)] a: u8, #[br(try_map = pick)] b: u8, c: u8 }
fn pick(x: u16) -> Result<u8, Custom> { if x > 9 { Err(Custom(1)) } else { Ok(x as u8) } }
#[derive(BinRead)]
#[br(try_map = Whole::make)]
struct Whole { #[allow(dead_code)] a: u8 }
impl Whole { fn make(b: [u8; 3]) -> Result<Self, Custom> { if b[2] == 1 { Ok(Whole { a: b[0] }) } else { Err(Custom(b[1])) } } }
#[derive(BinRead)]
#[br(map = Mapped::make)]
struct Mapped { #[allow(dead_code)] a: u8 }
impl Mapped { fn make(b: (u8, u16)) -> Self { Mapped { a: b.0 } } }
#[derive(BinRead)]
struct Cond { k: u8, #[br(if(k & 1 == 1))] a: u16, #[br(try)] t: Option<u16>, #[br(calc = k)] c: u8, #[br(assert(d != c))] d: u8 }
#[derive_binread]
struct Temp { #[br(temp, assert(k < 9))] k: u8, #[br(calc = k)] c: u8, d: u16 }
#[derive(BinRead)]
struct Gen<T: BinRead<Args = ()>> { a: u8, t: T, pv: PosValue<T> }
#[derive(BinRead)]
#[br(magic = 3u8)]
enum Data {
    #[br(magic = 1u8)] One { a: u8, #[br(assert(b == a))] b: u8 },
    #[br(magic = 2u8)] Two(u16),
    #[br(assert(self_0 > 4))] Three(u8, u8),
}
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum Quiet { #[br(magic = 1u16)] One(u8), Two(Leaf), #[br(magic = 2u8)] Unit }
#[derive(BinRead)]
#[br(repr = u16)]
enum Repr { A = 1, B = 0x200 }
#[derive(BinRead)]
enum Magics { #[br(magic = b"ab")] A, #[br(magic = b"ac")] B }
#[derive(BinRead)]
struct HasEnum { a: u8, k: Magics, r: Repr, z: u8 }
#[derive(BinRead)]
#[br(magic = b"xyz")]
struct Unit;

harnesses! {
    plain [6] { atomic!(Plain, 6, 4, ()); atomic!(Tup, 6, 4, ()) }
    checked [6] { atomic!(Checked, 6, 4, ()) }
    imports [6] { atomic!(Imports, 6, 4, (sym::sym_u8(),)) }
    nested [6] { atomic!(Outer, 6, 4, ()) }
    deep [6] { atomic!(Deep, 8, 3, ()) }
    counted [3] { atomic!(Counted, 6, 3, ()) }
    ptr [6] { atomic!(Ptr, 8, 3, ()) }
    ptr_now [6] { atomic!(PtrNow, 8, 3, ()) }
    ptr_parse [6] { atomic!(PtrParse, 8, 3, ()) }
    ptr_off [6] { atomic!(PtrOff, 8, 3, ()) }
    moves [6] { atomic!(Moves, 16, 4, ()) }
    parser [6] { atomic!(Parser, 8, 3, ()) }
    maps [6] { atomic!(Maps, 8, 3, ()) }
    whole [6] { atomic!(Whole, 6, 4, ()); atomic!(Mapped, 6, 4, ()) }
    cond [6] { atomic!(Cond, 8, 3, ()) }
    temp [6] { atomic!(Temp, 6, 3, ()) }
    generic [6] { atomic!(Gen<u16>, 8, 3, ()) }
    data [6] { atomic!(Data, 6, 3, ()) }
    quiet [6] { atomic!(Quiet, 6, 3, ()) }
    unit_enums [6] { atomic!(HasEnum, 8, 3, ()) }
    unit_struct [6] { atomic!(Unit, 6, 3, ()) }
}
