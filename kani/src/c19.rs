//! C19: try turns any failure of its field into None, with the position restored.
use crate::{harnesses, reach, rd::*, sym};
use binread::{helpers, io, io::{Read, Seek}, FilePtr8, NullWideString, PosValue};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

/// A struct with `$x` as a try field between a byte and a 16-bit value, against `$x` read alone.
macro_rules! tried {
    ($t:ident, $x:ty, $n:literal, $alone:expr, |$o:ident| $set:block, $args:expr) => {{
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto($n);
        r.pos = sym::upto(1);
        let s = r.pos;
        let e = some_endian();
        let mut q = Rd::<16>::over(r.data, r.len, s + 1);
        let mut $o = opts(e);
        $set
        let h = r.b(s);
        let alone: BinResult<$x> = ($alone)(&mut q, &$o, ($args)(h));
        let p = if alone.is_ok() { q.pos } else { s + 1 };
        let got = $t::read_options(&mut r, &opts(e), ());
        match (&got, &alone) {
            (Ok(v), alone) => {
                assert!(r.has(s, 1) && r.has(p, 2), "the parent fails only for its own reasons");
                match (&v.a, alone) {
                    (Some(x), Ok(y)) => { assert!(*x == *y, "its value"); reach!(s == 1, "some"); }
                    (None, Err(_)) => { reach!(s == 1, "none"); }
                    _ => panic!("Some exactly when the field parses on its own"),
                }
                assert!(v.h == h && v.z == u16e(r.at(p), e) && r.pos == p + 2, "the next field starts there");
            }
            (Err(_), _) => { assert!(!r.has(s, 1) || !r.has(p, 2)); assert!(is_eof(&got) && r.pos == s); reach!(r.has(s, 1), "too short for the next"); }
        }
        core::mem::forget((got, alone));
    }};
    ($t:ident, $x:ty, $n:literal, |$o:ident| $set:block, $args:expr) => { tried!($t, $x, $n, |r: &mut Rd<16>, o: &ReadOptions, a| <$x>::read_options(r, o, a), |$o| $set, $args) };
    ($t:ident, $x:ty, $n:literal) => { tried!($t, $x, $n, |o| { let _ = &mut o; }, |_: u8| ()) };
}
macro_rules! parent {
    ($t:ident, $x:ty, $($attr:tt)*) => {
        #[derive(BinRead)]
        struct $t { h: u8, #[br(try $($attr)*)] a: Option<$x>, z: u16 }
    };
}

#[derive(BinRead, PartialEq)]
struct Sub { a: u8, #[br(assert(b > a as u16))] b: u16, #[br(big)] c: u16 }
#[derive(BinRead, PartialEq)]
#[br(magic = 0x1234u16, import(lim: u8))]
struct Gated { #[br(assert(a < lim, 3u8))] a: u8 }
#[derive(BinRead, PartialEq)]
enum En { #[br(magic = 1u8)] A(u16, #[br(assert(self_1 != 0))] u8), #[br(magic = 2u8)] B { a: u8 } }
#[derive(BinRead, PartialEq)]
#[br(repr = u16)]
enum Un { X = 1, Y = 0x100 }
#[derive(BinRead, PartialEq)]
struct Moves { a: u8, #[br(pad_before = 2, assert(b != 7))] b: u8, #[br(seek_before = io::SeekFrom::Start(a as u64 & 7))] c: u8 }
fn parser<R: Read + Seek>(r: &mut R, o: &ReadOptions, (k,): (u8,)) -> BinResult<u16> {
    let a = u8::read_options(r, o, ())?;
    let b = u16::read_options(r, o, ())?;
    if a == k { Err(BErr::Custom { pos: 0, err: Box::new(a) }) } else { Ok(b) }
}
#[derive(BinRead, PartialEq)]
struct Twice { #[br(try)] a: Option<u32>, #[br(try)] b: Option<u16>, #[br(try)] c: Option<u8> }

parent!(Prim, u32,);
parent!(Little, u32, , little);
parent!(Arr, [u16; 2],);
parent!(Tup, (u8, u16, u8),);
parent!(Listed, Vec<u16>, , count = 2);
parent!(Subs, Vec<Sub>, , count = 1);
parent!(Wide, NullWideString,);
parent!(Struct, Sub,);
#[derive(BinRead)]
struct Magic { h: u8, #[br(try, args(h))] a: Option<Gated>, z: u16 }
parent!(Enum, En,);
parent!(UnitEnum, Un,);
parent!(Moving, Moves,);
#[derive(BinRead)]
struct Custom { h: u8, #[br(try, args(h), parse_with = parser)] a: Option<u16>, z: u16 }
parent!(Until, Vec<u8>, , parse_with = helpers::until(|b: &u8| *b == 0));
parent!(Nested, Twice,);
parent!(Ch, char,);

#[derive(BinRead)]
struct Placed { h: u8, #[br(try, pad_before = 1, pad_after = 1)] a: Option<u16>, #[br(try, restore_position)] b: Option<u32>, #[br(try, if(h & 1 == 1))] c: Option<u16>, #[br(try, map = |x: Option<u16>| x.map(|x| x ^ 1).unwrap_or(9))] d: u16, z: u8 }
#[derive(BinRead)]
struct Wraps { h: u8, #[br(try)] a: Option<PosValue<Sub>>, #[br(try)] b: Option<Box<Un>>, z: u8 }
#[derive(BinRead)]
struct Ptr { h: u8, #[br(try)] p: Option<FilePtr8<u8>>, z: u8 }
#[derive(BinRead)]
enum Parent { #[br(magic = 1u8)] A(#[br(try)] Option<u16>, u8), B(u8, #[br(try)] Option<u16>) }
#[derive(BinRead)]
struct Faulted { h: u8, #[br(try)] a: Option<Sub>, z: u8 }
#[derive(BinRead)]
struct FaultedPrim { #[br(try)] a: Option<u16>, z: u8 }

harnesses! {
    primitive [6] { tried!(Prim, u32, 8) }
    little [6] { tried!(Little, u32, 8, |o| { o.endian = L; }, |_| ()) }
    array [6] { tried!(Arr, [u16; 2], 8) }
    tuple [6] { tried!(Tup, (u8, u16, u8), 8) }
    list [6] { tried!(Listed, Vec<u16>, 8, |o| { o.count = Some(2); }, |_| ()) }
    structs [4] { tried!(Subs, Vec<Sub>, 9, |o| { o.count = Some(1); }, |_| ()) }
    wide [5] { tried!(Wide, NullWideString, 8) }
    nested_struct [6] { tried!(Struct, Sub, 9) }
    magic [6] { tried!(Magic, Gated, 7, |o| { let _ = &mut o; }, |h| (h,)) }
    data_enum [6] { tried!(Enum, En, 8) }
    unit_enum [6] { tried!(UnitEnum, Un, 6) }
    moving [6] { tried!(Moving, Moves, 9) }
    custom [6] { tried!(Custom, u16, 7, |r: &mut Rd<16>, o: &ReadOptions, a| parser(r, o, a), |o| { let _ = &mut o; }, |h| (h,)) }
    until [6] { tried!(Until, Vec<u8>, 6, |r: &mut Rd<16>, o: &ReadOptions, a| helpers::until::<_, u8, _, _, Vec<u8>>(|b: &u8| *b == 0)(r, o, a), |o| { let _ = &mut o; }, |_| ()) }
    nested_try [6] { tried_always!(Nested) }
    character [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(4);
        let got = Ch::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { assert!(r.len >= 4 && v.a == Some(r.b(1) as char) && v.z == u16e(r.at(2), B)); reach!(true, "some"); }
            Err(_) => { assert!(r.len < 4 && is_eof(&got)); reach!(true, "short"); }
        }
        core::mem::forget(got);
    }
    placed [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(12);
        let e = some_endian();
        let got = Placed::read_options(&mut r, &opts(e), ());
        let h = r.b(0);
        let mut p = 2;
        let a = if r.has(p, 2) { p += 2; Some(u16e(r.at(p - 2), e)) } else { None };
        p += 1;
        let b = if r.has(p, 4) { Some(u32e(r.at(p), e)) } else { None };
        let c = if h & 1 == 1 && r.has(p, 2) { p += 2; Some(u16e(r.at(p - 2), e)) } else { None };
        let d = if r.has(p, 2) { p += 2; u16e(r.at(p - 2), e) ^ 1 } else { 9 };
        match &got {
            Ok(v) => {
                assert!(r.has(p, 1) && v.h == h && v.a == a && v.b == b && v.c == c && v.d == d && v.z == r.b(p) && r.pos == p + 1);
                reach!(b.is_none() && c.is_some(), "some of them"); reach!(d == 9 && r.len == 6, "none at the end");
            }
            Err(_) => { assert!(r.len == 0 || !r.has(p, 1)); assert!(is_eof(&got) && r.pos == 0); reach!(a.is_none() && r.len > 0, "short"); }
        }
        core::mem::forget(got);
    }
    wrapped [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(10);
        let e = some_endian();
        let got = Wraps::read_options(&mut r, &opts(e), ());
        let mut p = 1;
        let sub = r.has(1, 5) && u16e(r.at(2), e) > r.b(1) as u16;
        if sub { p += 5; }
        let x = u16e(r.at(p), e);
        let un = r.has(p, 2) && (x == 1 || x == 0x100);
        if un { p += 2; }
        match &got {
            Ok(v) => {
                assert!(r.has(p, 1) && v.z == r.b(p) && r.pos == p + 1);
                assert!(if sub { matches!(&v.a, Some(s) if s.pos == 1 && s.val.a == r.b(1) && s.val.c == u16e(r.at(4), B)) } else { v.a.is_none() });
                assert!(if un { matches!(&v.b, Some(u) if **u == if x == 1 { Un::X } else { Un::Y }) } else { v.b.is_none() });
                reach!(sub && un, "both"); reach!(!sub && un, "second only"); reach!(!sub && !un && r.len == 10, "neither");
            }
            Err(_) => { assert!(!r.has(p, 1)); assert!(is_eof(&got) && r.pos == 0); reach!(r.len > 0, "short"); }
        }
        core::mem::forget(got);
    }
    pointer [6] {
        // a failing target is the parent's failure: post-processing happens after the field
        let mut r = Rd::<4>::any();
        let got = Ptr::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { let q = r.b(1) as u64; assert!(r.len >= 3 && q < r.len && matches!(&v.p, Some(p) if p.value == Some(r.b(q))) && v.z == r.b(2)); reach!(q == 3, "target"); }
            Err(_) => { assert!(r.len < 3 || r.b(1) as u64 >= r.len); assert!(is_eof(&got) && r.pos == 0); reach!(r.len == 4, "no target"); }
        }
        core::mem::forget(got);
    }
    in_enum [6] {
        let mut r = Rd::<4>::any();
        let got = Parent::read_options(&mut r, &opts(B), ());
        let first = r.len >= 2 && r.b(0) == 1 && r.len != 3;
        match &got {
            Ok(Parent::A(a, z)) => { assert!(r.len >= 2 && r.b(0) == 1 && if r.len >= 4 { *a == Some(u16e(r.at(1), B)) && *z == r.b(3) } else { first && a.is_none() && *z == r.b(1) }); reach!(a.is_none(), "none"); reach!(a.is_some(), "some"); }
            Ok(Parent::B(h, a)) => { assert!(!first && r.len >= 1 && *h == r.b(0) && *a == if r.len >= 3 { Some(u16e(r.at(1), B)) } else { None }); reach!(r.b(0) == 1 && r.len == 3, "second after the first failed"); reach!(a.is_none(), "none in the second"); }
            Err(_) => { assert!(r.len == 0); reach!(true, "empty"); }
        }
        core::mem::forget(got);
    }
    fault [6] {
        // an I/O error inside the field is its failure; only going back may fail the parent
        let mut r = Rd::<8>::over(sym::bytes(), 7, 0).faulty();
        r.kind = some_kind();
        r.eat = sym::upto(2);
        let got = Faulted::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => {
                let sub = r.hit == Hit::No && u16e(r.at(2), B) > r.b(1) as u16;
                assert!(v.a.is_some() == sub && v.z == r.b(if sub { 6 } else { 1 }) && r.pos == if sub { 7 } else { 2 }, "the next field starts where this one began");
                reach!(r.hit == Hit::Read && r.eat == 2, "a failing read"); reach!(r.hit == Hit::No && !sub, "an assertion");
            }
            Err(x) => { assert!(r.hit != Hit::No && matches!(x, BErr::Io(e) if e.kind() == r.kind)); reach!(r.hit == Hit::Start(1), "going back fails"); }
        }
        core::mem::forget(got);
    }
    fault_primitive [6] {
        let mut r = Rd::<4>::over(sym::bytes(), 4, 0).faulty();
        r.kind = some_kind();
        r.eat = sym::upto(2);
        let got = FaultedPrim::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { let some = r.hit == Hit::No; assert!(v.a.is_some() == some && v.z == r.b(if some { 2 } else { 0 })); reach!(!some && r.eat == 1, "none"); }
            Err(x) => { assert!(r.hit != Hit::No && matches!(x, BErr::Io(e) if e.kind() == r.kind)); reach!(true, "fails elsewhere"); }
        }
        core::mem::forget(got);
    }
}
macro_rules! tried_always {
    ($t:ident) => {{
        // a field that cannot fail
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(10);
        let e = some_endian();
        let got = $t::read_options(&mut r, &opts(e), ());
        let mut p = 1;
        let a = if r.has(p, 4) { p += 4; Some(u32e(r.at(p - 4), e)) } else { None };
        let b = if r.has(p, 2) { p += 2; Some(u16e(r.at(p - 2), e)) } else { None };
        let c = if r.has(p, 1) { p += 1; Some(r.b(p - 1)) } else { None };
        match &got {
            Ok(v) => { assert!(r.has(p, 2) && matches!(&v.a, Some(t) if t.a == a && t.b == b && t.c == c) && v.z == u16e(r.at(p), e) && r.pos == p + 2); reach!(true, "all"); }
            Err(_) => { assert!(r.len == 0 || !r.has(p, 2)); assert!(is_eof(&got) && r.pos == 0); reach!(r.len == 9, "short"); }
        }
        core::mem::forget(got);
    }};
}
use tried_always;
