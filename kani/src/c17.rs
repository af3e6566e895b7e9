//! C17: if, calc, default and temp fields follow their expressions exactly.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, io::{Read, Seek}, FilePtr8};

const B: Endian = Endian::Big;

/// How often an expression was evaluated.
static CALLS: sym::Static<u8> = sym::Static::new(0xc17, 0);
fn bump<T>(v: T) -> T { CALLS.set(CALLS.get() + 1); v }
fn calls() -> u8 { let n = CALLS.get(); CALLS.set(0); n }
struct Unreadable(u16);
impl Default for Unreadable { fn default() -> Self { Unreadable(77) } }

/// Refuses zero.
#[derive(Clone, Copy, Default)]
struct Picky(u8);
impl BinRead for Picky {
    type Args = (u8,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<Self> {
        let v = u8::read_options(r, o, ())?;
        if v == a.0 { return Err(BErr::NoVariantMatch { pos: 7 }); }
        Ok(Picky(v))
    }
}

#[derive(BinRead)]
struct Cond {
    c: u8,
    #[br(if(c & 1 != 0))] a: u16,
    #[br(if(c & 2 != 0, bump(c ^ 0x55)))] b: u8,
    #[br(little, if(c & 4 != 0))] d: Option<u16>,
    #[br(if(c & 8 != 0 && a != 0, (a, b)))] e: (u16, u8),
    z: u8,
}
#[derive(BinRead)]
#[br(import(on: bool, alt: u16))]
struct Placed {
    a: u8,
    #[br(if(on, alt), pad_before = 1, pad_after = 2)] b: u16,
    #[br(if(!on), align_before = 4, pad_size_to = 2)] c: u8,
    #[br(if(on), restore_position)] d: u8,
    #[br(if(on), seek_before = binread::io::SeekFrom::Start(1))] e: u8,
    z: u8,
}
#[derive(BinRead)]
struct Kinds {
    c: u8,
    #[br(if(c & 1 != 0), count = 2)] v: Vec<u8>,
    #[br(if(c & 2 != 0), args(c))] p: Picky,
    #[br(if(c & 4 != 0, 9), map = |x: u16| x as u32 + 1)] m: u32,
    #[br(if(c & 8 != 0), try)] t: Option<u16>,
    #[br(if(c & 16 != 0, 3), parse_with = twice)] w: u8,
    #[br(if(c & 32 != 0))] f: Option<FilePtr8<u8>>,
    z: u8,
}
fn twice<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<u8> { Ok(u8::read_options(r, o, ())?.wrapping_mul(2)) }
#[derive(BinRead)]
struct Calc {
    a: u8,
    #[br(calc = bump(a as u16 * 2))] b: u16,
    #[br(default)] u: Unreadable,
    c: u8,
    #[br(calc = b.wrapping_add(c as u16))] d: u16,
    #[br(ignore)] w: Option<u8>,
    #[br(if(a & 1 == 0, 5), calc = d ^ 1)] e: u16,
    #[br(calc = e as u8, assert(e != 0x1234))] f: u8,
    z: u8,
}
#[derive_binread]
struct Temp {
    #[br(temp)] n: u8,
    #[br(temp, little, if(n & 1 != 0))] m: u16,
    #[br(calc = m.wrapping_add(n as u16))] s: u16,
    #[br(temp, calc = s ^ 0xF)] k: u16,
    #[br(count = n & 1)] v: Vec<u8>,
    #[br(calc = k)] last: u16,
    z: u8,
}
#[derive_binread]
struct Tup(#[br(temp)] u8, u8, #[br(temp)] u16, #[br(calc = self_1 as u16 ^ self_2)] u16, u8);
#[derive_binread]
enum En {
    #[br(magic = 1u8)] A { #[br(temp)] t: u8, #[br(if(t != 0, t))] a: u8, b: u8 },
    B(#[br(temp)] u8, #[br(calc = self_0 as u16 + 1)] u16, #[br(default)] u8),
}
#[derive(BinRead)]
struct Flagged { #[br(if(true))] a: u8, #[br(if(false, 4))] b: u8, #[br(if(a != 0))] c: u8, #[br(if(a == 0, 6))] d: u8 }

harnesses! {
    conditions [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(10);
        r.pos = sym::upto(1);
        let s = r.pos;
        let e = some_endian();
        calls();
        let got = Cond::read_options(&mut r, &opts(e), ());
        let c = if r.has(s, 1) { r.b(s) } else { 0 };
        let mut p = s + 1;
        let a = if c & 1 != 0 { p += 2; u16e(r.at(p - 2), e) } else { 0 };
        let b = if c & 2 != 0 { p += 1; r.b(p - 1) } else { c ^ 0x55 };
        let d = if c & 4 != 0 { p += 2; Some(u16e(r.at(p - 2), Endian::Little)) } else { None };
        let x = if c & 8 != 0 && a != 0 { p += 3; (u16e(r.at(p - 3), e), r.b(p - 1)) } else { (a, b) };
        match &got {
            Ok(v) => {
                assert!(r.has(p, 1));
                assert!(v.c == c && v.a == a && v.b == b && v.d == d && v.e == x && v.z == r.b(p), "read exactly when the condition holds");
                assert!(r.pos == p + 1 && r.high == r.pos, "nothing is consumed otherwise");
                assert!(calls() == (c & 2 == 0) as u8, "the alternate is evaluated only then");
                reach!(c & 15 == 15 && a != 0, "all read"); reach!(c == 0, "none read"); reach!(c & 15 == 13 && a == 0, "depends on an earlier field");
            }
            Err(_) => { assert!(!r.has(p, 1) && is_eof(&got) && r.pos == s); reach!(r.len == 9, "short"); }
        }
        core::mem::forget(got);
    }
    placement [6] {
        // a field that is not read does not move the reader either
        let mut r = Rd::<16>::over(sym::bytes(), 16, 0);
        r.pos = sym::upto(2);
        let s = r.pos;
        let e = some_endian();
        let (on, alt) = (sym::flag(), sym::sym_u16());
        let got = Placed::read_options(&mut r, &opts(e), (on, alt));
        match &got {
            Ok(v) => {
                assert!(v.a == r.b(s));
                if on {
                    assert!(v.b == u16e(r.at(s + 2), e) && v.c == 0 && v.d == r.b(s + 6) && v.e == r.b(1) && v.z == r.b(2) && r.pos == 3);
                } else {
                    let q = 4;
                    assert!(v.b == alt && v.c == r.b(q) && v.z == r.b(q + 2) && r.pos == q + 3 && v.e == 0);
                    assert!(v.d == 0);
                }
                reach!(on && s > 0, "read"); reach!(!on && s > 0, "not read");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    kinds [5] {
        let mut r = Rd::<16>::over(sym::bytes(), 16, 0);
        let e = some_endian();
        let c = r.b(0);
        sym::assume(c < 64);
        let got = Kinds::read_options(&mut r, &opts(e), ());
        let mut p = 1;
        let v0 = p;
        if c & 1 != 0 { p += 2; }
        let refused = c & 2 != 0 && r.b(p) == c;
        let k = if c & 2 != 0 { p += 1; r.b(p - 1) } else { 0 };
        let m = if c & 4 != 0 { p += 2; u16e(r.at(p - 2), e) as u32 + 1 } else { 9 };
        let t = if c & 8 != 0 { p += 2; Some(u16e(r.at(p - 2), e)) } else { None };
        let w = if c & 16 != 0 { p += 1; r.b(p - 1).wrapping_mul(2) } else { 3 };
        let f = if c & 32 != 0 { p += 1; Some(r.b(p - 1) as u64) } else { None };
        match &got {
            Ok(v) => {
                assert!(!refused && v.c == c && v.v.len() == if c & 1 != 0 { 2 } else { 0 });
                if c & 1 != 0 { assert!(v.v[0] == r.b(v0) && v.v[1] == r.b(v0 + 1)); }
                assert!(v.p.0 == k && v.m == m && v.t == t && v.w == w && v.z == r.b(p) && r.pos == p + 1);
                match (f, &v.f) { (None, None) => {} (Some(q), Some(x)) => assert!(q < 16 && x.value == Some(r.b(q))), _ => panic!("pointer") };
                reach!(c == 63, "all"); reach!(c == 0, "none"); reach!(c == 42, "some");
            }
            Err(BErr::NoVariantMatch { pos }) => { assert!(refused && *pos == 7); reach!(c == 2, "a read field fails"); }
            Err(_) => { assert!(!refused && is_eof(&got) && matches!(f, Some(q) if q >= 16)); reach!(true, "no target"); }
        }
        core::mem::forget(got);
    }
    calculated [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(4);
        calls();
        let got = Calc::read_options(&mut r, &opts(some_endian()), ());
        let (a, c) = (r.b(0), r.b(1));
        let b = a as u16 * 2;
        let d = b + c as u16;
        let e = if a & 1 == 0 { d ^ 1 } else { 5 };
        match &got {
            Ok(v) => {
                assert!(r.len >= 3 && v.a == a && v.b == b && v.c == c && v.d == d && v.e == e && v.f == e as u8 && v.u.0 == 77 && v.w.is_none() && v.z == r.b(2), "values of the expressions");
                assert!(r.pos == 3 && r.high == 3 && calls() == 1, "nothing is consumed; evaluated once");
                reach!(a & 1 == 0, "calculated"); reach!(a & 1 == 1, "alternate");
            }
            Err(_) => { assert!(r.len < 3 && is_eof(&got)); reach!(r.len == 2, "short"); }
        }
        core::mem::forget(got);
    }
    temporary [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let got = Temp::read_options(&mut r, &opts(some_endian()), ());
        let n = r.b(0);
        let odd = n & 1 != 0;
        let m = if odd { u16e(r.at(1), Endian::Little) } else { 0 };
        let s = m.wrapping_add(n as u16);
        match &got {
            Ok(Temp { s: a, v, last, z }) => {
                let p = if odd { 4 } else { 1 };
                assert!(*a == s && *last == s ^ 0xF && v.len() == odd as usize && (!odd || v[0] == r.b(3)) && *z == r.b(p) && r.pos == p + 1);
                reach!(odd, "odd"); reach!(!odd, "even");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    temporary_tuple [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let e = some_endian();
        let got = Tup::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(Tup(a, b, c)) => assert!(*a == r.b(1) && *b == r.b(1) as u16 ^ u16e(r.at(2), e) && *c == r.b(4) && r.pos == 5),
            Err(_) => panic!("must parse"),
        }
        assert!(core::mem::size_of::<Temp>() < core::mem::size_of::<(Vec<u8>, u16, u16, u8, u64)>(), "temporary fields are not stored");
        reach!(true, "parsed");
        core::mem::forget(got);
    }
    temporary_enum [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(4);
        let got = En::read_options(&mut r, &opts(B), ());
        let t = r.b(1);
        let first = r.b(0) == 1 && (r.len >= 4 || r.len >= 3 && t == 0);
        match &got {
            Ok(En::A { a, b }) => {
                assert!(first);
                if t != 0 { assert!(*a == r.b(2) && *b == r.b(3) && r.pos == 4); } else { assert!(*a == 0 && *b == r.b(2) && r.pos == 3); }
                reach!(t == 0, "not read"); reach!(t != 0, "read");
            }
            Ok(En::B(x, d)) => { assert!(!first && r.len >= 1 && *x == r.b(0) as u16 + 1 && *d == 0 && r.pos == 1); reach!(r.b(0) == 1, "second variant"); }
            Err(_) => { assert!(r.len == 0); reach!(true, "empty"); }
        }
        core::mem::forget(got);
    }
    forms [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let got = Flagged::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => {
                let on = r.b(0) != 0;
                assert!(v.a == r.b(0) && v.b == 4 && v.c == if on { r.b(1) } else { 0 } && v.d == if on { 6 } else { r.b(1) } && r.pos == 2);
                reach!(on, "on"); reach!(!on, "off");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
}
