//! C24: I/O errors are never swallowed.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, helpers, io::{ErrorKind, Read, Seek, SeekFrom}, punctuated::Punctuated, FilePtr, FilePtr8, NullString, NullWideString, PosValue};

/// An error kind; among them the one that means the end of the stream.
fn kinds() -> ErrorKind {
    if sym::flag() { ErrorKind::UnexpectedEof } else { some_kind() }
}
fn stream(len: u64) -> Rd<16> {
    let mut r = Rd::<16>::over(sym::bytes(), len, 1).faulty();
    r.kind = kinds();
    r.eat = sym::upto(1);
    r
}
/// Parses `$t` from a stream one operation of which may fail, with any content.
macro_rules! whole {
    ($t:ty) => { whole!($t, 12, ()) };
    ($t:ty, $len:expr, $args:expr) => {{
        let mut r = stream($len);
        let o = opts(some_endian());
        let got = <$t>::read_options(&mut r, &o, $args);
        report(&r, &got);
        core::mem::forget(got);
    }};
}
fn report<T>(r: &Rd<16>, got: &BinResult<T>) {
    match r.hit {
        Hit::No => {}
        _ => { assert!(got.is_err(), "no value misses a failed operation"); assert!(is_io(got, r.kind), "the error of the stream"); }
    }
    reach!(r.hit == Hit::Read && r.high > 1, "a read after the first");
    reach!(r.hit == Hit::Other || matches!(r.hit, Hit::Start(_)), "a seek or a position query");
    reach!(got.is_ok(), "no fault");
}

#[derive(BinRead)]
#[br(magic = 0x0102u16)]
struct Plain { a: u8, b: [u16; 2], c: (u8, u32), #[br(magic = 3u8)] d: Option<u8> }
#[derive(BinRead)]
#[br(little, assert(a != 9))]
struct Moves {
    #[br(pad_before = 1, align_after = 4)] a: u8,
    #[br(seek_before = SeekFrom::Current(1), pad_size_to = 2)] b: u8,
    #[br(restore_position)] c: u16,
    #[br(align_before = 2, pad_after = -1)] d: u8,
}
#[derive(BinRead)]
struct Lists {
    #[br(count = 2)] v: Vec<u16>,
    #[br(parse_with = helpers::read_bytes, count = 2)] w: Vec<u8>,
    #[br(parse_with = helpers::count(2))] x: Vec<i8>,
}
#[derive(BinRead)]
struct Untils {
    #[br(parse_with = helpers::until(|b: &u8| *b != 5))] a: Vec<u8>,
    #[br(parse_with = helpers::until_exclusive(|b: &u16| *b != 5))] b: Vec<u16>,
}
#[derive(BinRead)]
struct Puncts {
    #[br(count = 2, parse_with = Punctuated::separated)] a: Punctuated<u16, u8>,
    #[br(count = 1, parse_with = Punctuated::separated_trailing)] b: Punctuated<u8, u8>,
}
#[derive(BinRead)]
struct Strs { a: NullString, z: u8 }
#[derive(BinRead)]
struct Wides { a: NullWideString, z: u8 }
#[derive(BinRead)]
struct Ptrs { p: FilePtr8<u16>, #[br(offset_after = 2)] q: FilePtr<i8, FilePtr8<u8>>, z: u8 }
#[derive(BinRead)]
struct Now { #[br(deref_now)] p: FilePtr8<u8>, #[br(parse_with = FilePtr8::<u8>::parse)] q: u8, #[br(count = 1)] v: Vec<FilePtr8<u8>> }
#[derive(BinRead)]
struct Wrapped { a: PosValue<u16>, b: Box<u8>, c: Option<FilePtr8<u8>>, d: (u8, PosValue<u8>) }
fn small(x: u16) -> Result<u8, u16> { if x < 9 { Ok(x as u8) } else { Err(x) } }
#[derive(BinRead)]
struct Maps { #[br(map = |x: u16| x as u8)] a: u8, #[br(try_map = small)] b: u8, #[br(if(a > 3))] c: u8, #[br(default)] d: u8 }
#[derive(BinRead)]
#[br(map = |(a, b): (u8, u16)| Whole { a, b }, magic = 7u8)]
struct Whole { a: u8, b: u16 }
fn whole_try(x: [u8; 2]) -> Result<TryWhole, u8> { if x[0] < x[1] { Ok(TryWhole { a: x[0] }) } else { Err(x[0]) } }
#[derive(BinRead)]
#[br(try_map = whole_try)]
struct TryWhole { a: u8 }
#[derive(BinRead)]
#[br(repr = u16, magic = 1u8)]
enum Code { A = 1, B = 2 }
#[derive(BinRead)]
enum Magic { #[br(magic = b"ab")] A, #[br(magic = b"ac")] B }
#[derive(BinRead)]
struct Units { c: Code, m: Magic }
#[derive_binread]
#[br(import(n: u8), pre_assert(n != 1))]
struct Nested { #[br(temp)] t: u8, #[br(calc = t)] c: u8, i: Inner, #[br(args(n))] j: Arg }
#[derive(BinRead)]
struct Inner { #[br(assert(a != 1))] a: u8, b: Leaf }
#[derive(BinRead)]
struct Leaf { x: u16 }
#[derive(BinRead)]
#[br(import(n: u8))]
struct Arg { #[br(calc = n)] n: u8, x: u8 }

#[derive(BinRead)]
struct Tail { h: u8, #[br(parse_with = helpers::until_eof)] t: Vec<u16> }
#[derive(BinRead)]
struct Tried { a: u8, #[br(try)] t: Option<[u16; 2]>, z: u8 }
#[derive(BinRead)]
#[br(magic = 3u8)]
enum Data { #[br(magic = 3u8)] A { a: u8, #[br(assert(b != 7))] b: u16 }, B(u16), C }

harnesses! {
    plain [10] { whole!(Plain, 16, ()); }
    primitives [10] {
        let mut r = stream(16);
        let o = opts(some_endian());
        macro_rules! one { ($t:ty, $w:literal) => { if sym::flag() {
            r.pos = 1;
            let got = <$t>::read_options(&mut r, &o, ());
            match r.hit { Hit::No => assert!(got.is_ok()), _ => assert!(is_io(&got, r.kind), "the error of the stream") }
            let hit = r.hit;
            core::mem::forget(got);
            reach!(hit == Hit::Read, "read");
            reach!(hit == Hit::Other, "position");
            if hit != Hit::No { return; }
        } } }
        one!(u8, 1); one!(i16, 2); one!(u32, 4); one!(f32, 4); one!(u64, 8); one!(char, 1); one!([u8; 3], 3);
    }
    moves [6] { whole!(Moves, 16, ()); }
    lists [6] { whole!(Lists); }
    untils [5] { let mut r = stream(8); sym::assume(r.b(3) != 5); sym::assume(r.b(6) != 5 && r.b(7) != 5);
        let o = opts(some_endian()); let got = Untils::read_options(&mut r, &o, ()); report(&r, &got); core::mem::forget(got); }
    puncts [6] { whole!(Puncts); }
    strs [6] { let mut r = stream(5); let o = opts(some_endian()); let got = Strs::read_options(&mut r, &o, ()); report(&r, &got); core::mem::forget(got); }
    wides [6] { let mut r = stream(8); sym::assume(r.b(5) == 0 && r.b(6) == 0);
        let o = opts(some_endian()); let got = Wides::read_options(&mut r, &o, ()); report(&r, &got); core::mem::forget(got); }
    ptrs [6] { whole!(Ptrs); }
    now [6] { whole!(Now); }
    wrapped [6] { whole!(Wrapped); }
    maps [6] { whole!(Maps); }
    map_types [6] { whole!(Whole); }
    try_map_types [6] { whole!(TryWhole); }
    units [6] { whole!(Units); }
    nested [6] { let n = sym::sym_u8(); whole!(Nested, 12, (n,)); }
    // Through the entry points, which also post-process.
    entry [6] {
        let mut r = stream(8);
        let got = r.read_be::<Vec1>();
        report(&r, &got);
        core::mem::forget(got);
    }
    // until_eof alone takes UnexpectedEof for the end.
    tail [6] {
        let mut r = stream(6);
        let got = Tail::read_options(&mut r, &opts(Endian::Big), ());
        if r.hit != Hit::No {
            match &got {
                Ok(v) => { assert!(r.kind == ErrorKind::UnexpectedEof && v.t.len() <= 2, "only the end of the stream ends the list"); reach!(v.t.len() == 1, "end"); }
                Err(_) => { assert!(is_io(&got, r.kind)); reach!(r.kind == ErrorKind::Other && r.high > 3, "another error"); }
            }
        }
        core::mem::forget(got);
    }
    // A failure inside a try field is None, and only there.
    tried [6] {
        let mut r = stream(8);
        let (e, fault) = (opts(some_endian()), r.fault_at);
        let got = Tried::read_options(&mut r, &e, ());
        match (&got, r.hit) {
            (Ok(v), Hit::No) => { assert!(v.t.is_some() && v.z == r.b(6)); reach!(true, "no fault"); }
            (Ok(v), h) => { assert!(h == Hit::Read || h == Hit::Other); assert!(v.t.is_none() && v.a == r.b(1) && v.z == r.b(2), "None, and the next field from where it began"); reach!(r.high == 4, "second element fails"); }
            (Err(_), Hit::No) => panic!("nothing failed"),
            (Err(_), _) => { assert!(is_io(&got, r.kind), "the error of the stream"); reach!(r.hit == Hit::Read && r.high == 6, "field after it"); reach!(r.high == 0, "field before it"); }
        }
        let _ = fault;
        core::mem::forget(got);
    }
    // A failure inside an attempt is that attempt's error.
    data [6] {
        let mut r = stream(8);
        let e = some_endian();
        let got = Data::read_options(&mut r, &opts(e), ());
        match (&got, r.hit) {
            (Ok(Data::A { a, b }), h) => { assert!(h == Hit::No && r.b(1) == 3 && *a == r.b(2) && *b == u16e(r.at(3), e) && r.pos == 5); reach!(true, "first"); }
            (Ok(Data::B(x)), h) => { assert!(r.b(1) == 3 && (h != Hit::No || u16e(r.at(3), e) == 7)); assert!(*x == u16e(r.at(2), e) && r.pos == 4); reach!(h != Hit::No, "second, after a fault in the first"); }
            (Ok(Data::C), h) => { assert!(h != Hit::No && r.b(1) == 3 && r.pos == 2); reach!(true, "third, after a fault in the second"); }
            (Err(BErr::EnumErrors { .. }), h) => { assert!(r.pos == 1); let _ = h; }
            (Err(BErr::Io(x)), h) => { assert!(h != Hit::No && x.kind() == r.kind); reach!(true, "outside the attempts"); }
            (Err(_), _) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
}
#[derive(BinRead)]
struct Vec1 { #[br(count = 2)] v: Vec<FilePtr8<u8>>, p: Box<FilePtr8<u8>> }
