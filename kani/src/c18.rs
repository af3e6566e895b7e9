//! C18: map and try_map apply exactly once, and failures become errors.
use crate::{harnesses, reach, rd::*, sym};
use binread::{io, io::{Read, Seek}, PosValue};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

static CALLS: sym::Static<u8> = sym::Static::new(0xc18, 0);
fn called() { CALLS.set(CALLS.get() + 1) }
fn calls() -> u8 { let n = CALLS.get(); CALLS.set(0); n }
#[derive(Clone, Copy, PartialEq, Eq)]
struct Oops(u16);

fn triple(x: u16) -> u32 { called(); x as u32 * 3 }
fn shift(by: u8) -> impl Fn(u8) -> u16 { move |x| { called(); (x as u16) << by } }
fn odd(x: u16) -> Result<u8, Oops> { called(); if x & 1 == 1 { Ok((x >> 8) as u8) } else { Err(Oops(x)) } }
fn io_odd(x: u16) -> Result<u8, io::Error> { called(); if x & 1 == 1 { Ok((x >> 8) as u8) } else { Err(io_err(io::ErrorKind::BrokenPipe)) } }
fn bin_odd(x: u16) -> Result<u8, BErr> { called(); if x & 1 == 1 { Ok((x >> 8) as u8) } else { Err(BErr::NoVariantMatch { pos: x as u64 }) } }

/// One byte and its arguments.
struct Arg { v: u8, a: u8 }
impl BinRead for Arg {
    type Args = (u8,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<Self> { Ok(Arg { v: u8::read_options(r, o, ())?, a: a.0 }) }
}

#[derive(BinRead)]
struct Fields {
    k: u8,
    #[br(map = triple)] a: u32,
    #[br(little, map = |x: u16| { called(); x ^ k as u16 })] b: u16,
    #[br(map = shift(k & 7))] c: u16,
    #[br(args(k), map = |x: Arg| { called(); (x.v, x.a) })] d: (u8, u8),
    #[br(count = 2, map = |v: Vec<u8>| { called(); v[0] as u16 + v[1] as u16 })] e: u16,
    #[br(pad_after = 1, map = |x: [i8; 2]| { called(); x[1] as i16 - x[0] as i16 })] f: i16,
    z: u8,
}
#[derive(BinRead)]
struct TryField { h: u8, #[br(try_map = odd)] a: u8, z: u8 }
#[derive(BinRead)]
struct TryIo { h: u8, #[br(little, try_map = io_odd)] a: u8, z: u8 }
#[derive(BinRead)]
struct TryBin { h: u8, #[br(try_map = bin_odd)] a: u8, z: u8 }
#[derive(BinRead)]
struct TryStd { #[br(try_map = |x: i8| { called(); core::convert::TryInto::try_into(x) })] a: u8, z: u8 }

#[derive(BinRead)]
#[br(map = |x: u16| { called(); Self { a: x.wrapping_add(1) } })]
struct Whole { a: u16 }
#[derive(BinRead)]
#[br(big, map = Self::of)]
struct WholeBig { a: u8, b: u8 }
impl WholeBig { fn of(x: u16) -> Self { called(); WholeBig { a: (x >> 8) as u8, b: x as u8 } } }
#[derive(BinRead)]
#[br(little, magic = 0x1234u16, try_map = Self::of)]
struct WholeTry { a: u16 }
impl WholeTry { fn of(x: u16) -> Result<Self, Oops> { called(); if x > 0x7F { Ok(WholeTry { a: x }) } else { Err(Oops(x)) } } }
#[derive(BinRead)]
#[br(try_map = whole_io_of)]
struct WholeIo(u16);
fn whole_io_of(x: (u8, u16)) -> Result<WholeIo, io::Error> { called(); if x.0 != 0 { Ok(WholeIo(x.1)) } else { Err(io_err(io::ErrorKind::InvalidData)) } }
#[derive(BinRead)]
#[br(import(k: u8), map = |x: Arg| { called(); Self { v: x.v ^ k, a: x.a } })]
struct WholeArgs { v: u8, a: u8 }
#[derive(BinRead, PartialEq)]
#[br(map = |x: u8| { called(); if x == 0 { Self::None } else { Self::Some(x) } })]
enum Choice { None, Some(u8) }
#[derive(BinRead, PartialEq)]
#[br(big, try_map = Self::of)]
enum Unit { A, B(u8) }
impl Unit { fn of(x: u16) -> Result<Self, Oops> { called(); match x { 1 => Ok(Unit::A), 2 => Ok(Unit::B(2)), n => Err(Oops(n)) } } }
#[derive(BinRead)]
struct Outer { h: u8, #[br(little)] w: Whole, t: WholeBig, #[br(args(h))] g: WholeArgs, c: Choice, #[br(count = 2)] v: Vec<Whole>, p: PosValue<Choice>, z: u8 }
#[derive(BinRead)]
enum En { #[br(magic = 1u8)] A(#[br(try_map = odd)] u8), B(#[br(map = triple)] u32, u8) }

macro_rules! at { ($n:literal, $max:literal) => {{ let mut r = Rd::<$n>::over(sym::bytes(), 0, 0); r.len = sym::upto($max); r.pos = sym::upto(1); calls(); let e = some_endian(); (r, e) }}; }

/// A field `u16` at 1 that is mapped, between two bytes.
macro_rules! failing {
    ($t:ty, $e:expr, |$x:ident| $err:pat => $cond:expr) => {{
        let (mut r, e) = at!(8, 5);
        let s = r.pos;
        let got = <$t>::read_options(&mut r, &opts(e), ());
        let $x = u16e(r.at(s + 1), if let Some(e) = $e { e } else { e });
        let n = calls();
        match &got {
            Ok(v) => { assert!(r.has(s, 4) && $x & 1 == 1 && v.h == r.b(s) && v.a == ($x >> 8) as u8 && v.z == r.b(s + 3) && r.pos == s + 4 && n == 1); reach!(s == 1, "mapped"); }
            Err(BErr::Io(err)) if err.kind() == io::ErrorKind::UnexpectedEof => { assert!(!r.has(s, 4) && (!r.has(s, 3) || $x & 1 == 1) && n == r.has(s, 3) as u8); reach!(n == 0, "short"); reach!(n == 1, "short after"); }
            Err($err) => { assert!(r.has(s, 3) && $x & 1 == 0 && $cond && n == 1, "the function's own error"); reach!(s == 1, "refused"); }
            Err(_) => panic!("wrong error"),
        }
        if got.is_err() { assert!(r.pos == s, "position restored"); }
        core::mem::forget(got);
    }};
}

harnesses! {
    fields [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(14);
        let e = some_endian();
        calls();
        let got = Fields::read_options(&mut r, &opts(e), ());
        let k = r.b(0);
        match &got {
            Ok(v) => {
                assert!(r.len >= 13 && v.k == k && v.a == u16e(r.at(1), e) as u32 * 3 && v.b == u16e(r.at(3), L) ^ k as u16);
                assert!(v.c == (r.b(5) as u16) << (k & 7) && v.d == (r.b(6), k) && v.e == r.b(7) as u16 + r.b(8) as u16);
                assert!(v.f == r.b(10) as i8 as i16 - r.b(9) as i8 as i16 && v.z == r.b(12) && r.pos == 13 && calls() == 6, "applied once each");
                reach!(true, "mapped");
            }
            Err(_) => { assert!(r.len < 13 && is_eof(&got) && r.pos == 0); reach!(r.len == 12, "short"); }
        }
        core::mem::forget(got);
    }
    custom [6] { failing!(TryField, None::<Endian>, |x| BErr::Custom { err, .. } => matches!(err.downcast_ref::<Oops>(), Some(o) if o.0 == x)) }
    io_error [6] { failing!(TryIo, Some(L), |x| BErr::Io(e) => e.kind() == io::ErrorKind::BrokenPipe) }
    bin_error [6] { failing!(TryBin, None::<Endian>, |x| BErr::Custom { err, .. } => matches!(err.downcast_ref::<BErr>(), Some(BErr::NoVariantMatch { pos }) if *pos == x as u64)) }
    std_error [6] {
        let (mut r, e) = at!(8, 3);
        let s = r.pos;
        let got = TryStd::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => { assert!(r.b(s) < 0x80 && v.a == r.b(s) && v.z == r.b(s + 1) && r.pos == s + 2); reach!(true, "converted"); }
            Err(BErr::Custom { err, .. }) => { assert!(r.has(s, 1) && r.b(s) >= 0x80 && err.downcast_ref::<core::num::TryFromIntError>().is_some() && r.pos == s); reach!(true, "refused"); }
            Err(_) => assert!(is_eof(&got) && !r.has(s, 2) && r.pos == s),
        }
        core::mem::forget(got);
    }
    whole [6] {
        let (mut r, e) = at!(4, 4);
        let s = r.pos;
        let got = Whole::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => { assert!(v.a == u16e(r.at(s), e).wrapping_add(1) && r.pos == s + 2 && calls() == 1); reach!(s == 1, "mapped"); }
            Err(_) => { assert!(!r.has(s, 2) && is_eof(&got) && r.pos == s && calls() == 0); reach!(true, "short"); }
        }
        core::mem::forget(got);
        r.pos = s;
        let got = WholeBig::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => { assert!(v.a == r.b(s) && v.b == r.b(s + 1) && r.pos == s + 2 && calls() == 1, "its own byte order"); reach!(!is_be(e), "big under little"); }
            Err(_) => assert!(!r.has(s, 2) && is_eof(&got) && r.pos == s),
        }
        core::mem::forget(got);
        r.pos = s;
        let k = sym::sym_u8();
        let got = WholeArgs::read_options(&mut r, &opts(e), (k,));
        match &got {
            Ok(v) => { assert!(v.v == r.b(s) ^ k && v.a == k && r.pos == s + 1 && calls() == 1, "imports, and arguments for the value read"); reach!(k > 0, "arguments"); }
            Err(_) => assert!(!r.has(s, 1) && is_eof(&got) && r.pos == s),
        }
        core::mem::forget(got);
    }
    whole_try [6] {
        let (mut r, e) = at!(8, 5);
        let s = r.pos;
        let got = WholeTry::read_options(&mut r, &opts(e), ());
        let x = u16e(r.at(s + 2), L);
        let m = r.has(s, 2) && u16e(r.at(s), L) == 0x1234;
        let n = calls();
        match &got {
            Ok(v) => { assert!(m && r.has(s, 4) && x > 0x7F && v.a == x && r.pos == s + 4 && n == 1); reach!(s == 1, "mapped"); }
            Err(BErr::Custom { err, .. }) => { assert!(m && r.has(s, 4) && x <= 0x7F && matches!(err.downcast_ref::<Oops>(), Some(o) if o.0 == x) && n == 1); reach!(s == 1, "refused"); }
            Err(BErr::BadMagic { .. }) => assert!(r.has(s, 2) && !m && n == 0),
            Err(_) => { assert!(is_eof(&got) && !r.has(s, 4) && n == 0); reach!(m, "short"); }
        }
        if got.is_err() { assert!(r.pos == s, "position restored"); }
        core::mem::forget(got);
    }
    whole_io [6] {
        let (mut r, e) = at!(8, 4);
        let s = r.pos;
        let got = WholeIo::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => { assert!(r.has(s, 3) && r.b(s) != 0 && v.0 == u16e(r.at(s + 1), e) && r.pos == s + 3); reach!(s == 1, "mapped"); }
            Err(BErr::Io(x)) => {
                if r.has(s, 3) { assert!(r.b(s) == 0 && x.kind() == io::ErrorKind::InvalidData, "the function's kind"); } else { assert!(x.kind() == io::ErrorKind::UnexpectedEof); }
                assert!(r.pos == s, "position restored");
                reach!(r.has(s, 3) && s == 1, "refused");
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    enums [6] {
        let (mut r, e) = at!(4, 4);
        let s = r.pos;
        let got = Choice::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => { assert!(*v == if r.b(s) == 0 { Choice::None } else { Choice::Some(r.b(s)) } && r.pos == s + 1 && calls() == 1); reach!(s == 1, "mapped"); }
            Err(_) => assert!(!r.has(s, 1) && is_eof(&got) && r.pos == s),
        }
        core::mem::forget(got);
        r.pos = s;
        let got = Unit::read_options(&mut r, &opts(e), ());
        let x = u16e(r.at(s), B);
        match &got {
            Ok(v) => { assert!(x == if *v == Unit::A { 1 } else { 2 } && r.pos == s + 2 && calls() == 1); reach!(*v == Unit::B(2), "second"); }
            Err(BErr::Custom { err, .. }) => { assert!(r.has(s, 2) && x != 1 && x != 2 && matches!(err.downcast_ref::<Oops>(), Some(o) if o.0 == x) && r.pos == s); reach!(true, "refused"); }
            Err(_) => assert!(!r.has(s, 2) && is_eof(&got) && r.pos == s),
        }
        core::mem::forget(got);
    }
    nested [4] {
        let mut r = Rd::<16>::over(sym::bytes(), 14, 1);
        let e = some_endian();
        calls();
        let got = Outer::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => {
                let ch = |c: &Choice, b: u8| *c == if b == 0 { Choice::None } else { Choice::Some(b) };
                assert!(v.h == r.b(1) && v.w.a == u16e(r.at(2), L).wrapping_add(1) && v.t.a == r.b(4) && v.t.b == r.b(5) && v.g.v == r.b(6) ^ v.h && v.g.a == v.h && ch(&v.c, r.b(7)));
                assert!(v.v.len() == 2 && v.v[0].a == u16e(r.at(8), e).wrapping_add(1) && v.v[1].a == u16e(r.at(10), e).wrapping_add(1) && ch(&v.p.val, r.b(12)) && v.p.pos == 12 && v.z == r.b(13) && r.pos == 14);
                assert!(calls() == 7, "once each");
                reach!(true, "mapped");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    variants [6] {
        let (mut r, e) = at!(8, 4);
        let s = r.pos;
        let got = En::read_options(&mut r, &opts(e), ());
        let x = u16e(r.at(s + 1), e);
        let first = r.has(s, 3) && r.b(s) == 1 && x & 1 == 1;
        match &got {
            Ok(En::A(a)) => { assert!(first && *a == (x >> 8) as u8 && r.pos == s + 3); reach!(s == 1, "first"); }
            Ok(En::B(b, c)) => { assert!(!first && r.has(s, 3) && *b == u16e(r.at(s), e) as u32 * 3 && *c == r.b(s + 2) && r.pos == s + 3); reach!(r.b(s) == 1, "refused by the first"); }
            Err(BErr::EnumErrors { variant_errors, .. }) => {
                assert!(!first && !r.has(s, 3) && r.pos == s && variant_errors.len() == 2);
                reach!(s == 1, "neither");
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
}
