//! C07: unit-only enums match by representation value or by magic, exactly.
use crate::{harnesses, reach, rd::*, sym};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

/// Reads `$t` (a unit-only enum of width `$w`) anywhere; `$want(raw bytes, order)` is the index of
/// the variant that must be returned, and `$idx(value)` that of the one that was.
macro_rules! unit {
    ($t:ty, $n:literal, $w:literal, $args:expr, $want:expr, $idx:expr) => {{
        let mut r = Rd::<$n>::any_at(2);
        let (s, e) = (r.pos, some_endian());
        let got = <$t>::read_options(&mut r, &opts(e), $args);
        let want: Option<u8> = if r.has(s, $w) { ($want)(r.at::<$w>(s), e) } else { None };
        match &got {
            Ok(v) => {
                assert!(Some(($idx)(v)) == want, "variant");
                assert!(r.pos == s + $w, "consumed width");
                reach!(s > 0, "matches");
            }
            Err(BErr::NoVariantMatch { pos }) => {
                assert!(r.has(s, $w) && want.is_none() && *pos == s, "no variant, at the start");
                assert!(r.pos == s, "position restored");
                reach!(s > 0, "no variant");
            }
            Err(x) => {
                assert!(matches!(x, BErr::Io(x) if x.kind() == binread::io::ErrorKind::UnexpectedEof));
                assert!(!r.has(s, $w) && r.pos == s);
                reach!(s > 0, "short");
            }
        }
        core::mem::forget(got);
    }};
}
fn d16(b: [u8; 2], e: Endian) -> u16 { u16e(b, e) }
fn find<T: PartialEq>(v: T, all: &[T]) -> Option<u8> {
    let mut i = 0;
    while i < all.len() {
        if all[i] == v { return Some(i as u8); }
        i += 1;
    }
    None
}

#[derive(BinRead, Clone, Copy)]
#[br(repr = u8)]
enum U8 { A, B, C = 5, D, E = 255 }
#[derive(BinRead, Clone, Copy)]
#[br(repr = i8)]
enum I8 { A = -1, B, C = -128, D = 127 }
#[derive(BinRead, Clone, Copy)]
#[br(repr = u16)]
enum U16 { A = 0x0102, B = 0x0201, C = 0xff00, D = 0 }
#[derive(BinRead, Clone, Copy)]
#[br(repr = i16, big)]
enum I16 { A = -2, B = 2, C }
#[derive(BinRead, Clone, Copy)]
#[br(repr = u32, little)]
#[repr(u32)]
enum U32 { A = 0x01020304, B = 0xfffffffe, C }
#[derive(BinRead, Clone, Copy)]
#[br(repr = i32)]
enum I32 { A = -1, B = 0x7fffffff, C = 1 }
#[derive(BinRead, Clone, Copy)]
#[br(repr = u64, big)]
#[repr(u64)]
enum U64 { A = 1, B = 0x8000_0000_0000_0000 }
#[derive(BinRead, Clone, Copy)]
#[br(repr = i64)]
#[repr(i64)]
enum I64 { A = -1, B = 0x0102_0304 }
#[derive(BinRead, Clone, Copy)]
#[br(repr = u8, import(on: bool))]
enum PreRepr { A = 1, #[br(pre_assert(on))] B = 2, #[br(pre_assert(on), pre_assert(!on))] C = 3, #[br(pre_assert(!on))] D = 4 }

#[derive(BinRead, Clone, Copy)]
enum M8 { #[br(magic = 1u8)] A, #[br(magic = 0u8)] B, #[br(magic = b'z')] C }
#[derive(BinRead, Clone, Copy)]
enum M16 { #[br(magic = 0x0102u16)] A, #[br(magic = 0x0201u16)] B, #[br(magic = 0xffu16)] C }
#[derive(BinRead, Clone, Copy)]
#[br(little)]
enum MI16 { #[br(magic = -1i16)] A, #[br(magic = 0x100i16)] B }
#[derive(BinRead, Clone, Copy)]
#[br(big)]
enum M32 { #[br(magic = 0x01020304u32)] A, #[br(magic = 0x04030201u32)] B }
#[derive(BinRead, Clone, Copy)]
enum MBytes { #[br(magic = b"abc")] A, #[br(magic = b"abd")] B, #[br(magic = b"\0\0\0")] C }
#[derive(BinRead, Clone, Copy)]
enum MChar { #[br(magic = 'x')] A, #[br(magic = 'y')] B }
// The same magic twice: the first variant whose pre-assertions hold.
#[derive(BinRead, Clone, Copy)]
#[br(import(n: u8))]
enum MPre {
    #[br(magic = 1u16, pre_assert(n == 1))] A,
    #[br(magic = 1u16, pre_assert(n < 5), pre_assert(n > 2))] B,
    #[br(magic = 2u16)] C,
    #[br(magic = 1u16)] D,
}
#[derive(BinRead, Clone, Copy)]
#[br(import(n: u8))]
enum MPreBytes { #[br(magic = b"ab", pre_assert(n > 4))] A, #[br(magic = b"ab")] B, #[br(magic = b"cd", pre_assert(n == 4))] C }

#[derive(BinRead, Clone, Copy)]
#[br(magic = b"T", repr = u16)]
enum TopRepr { A = 0x0102, B = 0x54 }
#[derive(BinRead, Clone, Copy)]
#[br(magic = 0x5455u16, little)]
enum TopMagic { #[br(magic = 0x01u8)] A, #[br(magic = 0x55u8)] B }
#[derive(BinRead)]
struct Seq { a: U8, b: M16, #[br(little)] c: U16, #[br(args(true))] d: PreRepr, e: u8 }

/// Top-level magic of `$w` bytes equal to `$magic`, then a unit enum.
macro_rules! top {
    ($t:ty, $magic:expr, $w:literal, $v:literal, $want:expr, $idx:expr) => {{
        let mut r = Rd::<8>::any_at(2);
        let (s, e) = (r.pos, some_endian());
        let got = <$t>::read_options(&mut r, &opts(e), ());
        let magic: bool = r.has(s, $w) && ($magic)(r.at::<$w>(s), e);
        let want: Option<u8> = if r.has(s, $w + $v) { ($want)(r.at::<$v>(s + $w), e) } else { None };
        match &got {
            Ok(v) => { assert!(magic && Some(($idx)(v)) == want && r.pos == s + $w + $v, "magic and variant match"); reach!(s > 0, "matches"); }
            Err(x) => {
                assert!(r.pos == s, "position restored");
                match x {
                    BErr::BadMagic { pos, .. } => { assert!(*pos == s && r.has(s, $w) && !magic); reach!(want.is_some(), "wrong magic"); }
                    BErr::NoVariantMatch { pos } => { assert!(*pos == s && magic && want.is_none() && r.has(s, $w + $v)); reach!(true, "no variant"); }
                    BErr::Io(_) => assert!(!r.has(s, $w) || (magic && !r.has(s, $w + $v))),
                    _ => panic!("wrong error"),
                }
            }
        }
        core::mem::forget(got);
    }};
}

harnesses! {
    repr8 [7] {
        unit!(U8, 4, 1, (), |b: [u8; 1], _| find(b[0], &[0, 1, 5, 6, 255]), |v: &U8| match v { U8::A => 0, U8::B => 1, U8::C => 2, U8::D => 3, U8::E => 4 });
        unit!(I8, 4, 1, (), |b: [u8; 1], _| find(b[0] as i8, &[-1, 0, -128, 127]), |v: &I8| match v { I8::A => 0, I8::B => 1, I8::C => 2, I8::D => 3 });
    }
    repr16 [7] {
        unit!(U16, 5, 2, (), |b, e| find(d16(b, e), &[0x0102, 0x0201, 0xff00, 0]), |v: &U16| match v { U16::A => 0, U16::B => 1, U16::C => 2, U16::D => 3 });
        unit!(I16, 5, 2, (), |b, _| find(d16(b, B) as i16, &[-2, 2, 3]), |v: &I16| match v { I16::A => 0, I16::B => 1, I16::C => 2 });
    }
    repr32 [7] {
        unit!(U32, 8, 4, (), |b, _| find(u32e(b, L), &[0x01020304, 0xfffffffe, 0xffffffff]), |v: &U32| match v { U32::A => 0, U32::B => 1, U32::C => 2 });
        unit!(I32, 8, 4, (), |b, e| find(u32e(b, e) as i32, &[-1, 0x7fffffff, 1]), |v: &I32| match v { I32::A => 0, I32::B => 1, I32::C => 2 });
    }
    repr64 [10] {
        unit!(U64, 16, 8, (), |b: [u8; 8], _| find(u64::from_be_bytes(b), &[1, 0x8000_0000_0000_0000]), |v: &U64| match v { U64::A => 0, U64::B => 1 });
        unit!(I64, 16, 8, (), |b: [u8; 8], e| find(if is_be(e) { i64::from_be_bytes(b) } else { i64::from_le_bytes(b) }, &[-1, 0x0102_0304]), |v: &I64| match v { I64::A => 0, I64::B => 1 });
    }
    repr_pre [7] {
        let on = sym::flag();
        unit!(PreRepr, 4, 1, (on,), |b: [u8; 1], _| match b[0] { 1 => Some(0), 2 if on => Some(1), 4 if !on => Some(3), _ => None },
            |v: &PreRepr| match v { PreRepr::A => 0, PreRepr::B => 1, PreRepr::C => 2, PreRepr::D => 3 });
        reach!(on, "on"); reach!(!on, "off");
    }
    magic8 [7] {
        unit!(M8, 4, 1, (), |b: [u8; 1], _| find(b[0], &[1, 0, b'z']), |v: &M8| match v { M8::A => 0, M8::B => 1, M8::C => 2 });
        unit!(MChar, 4, 1, (), |b: [u8; 1], _| find(b[0], &[b'x', b'y']), |v: &MChar| match v { MChar::A => 0, MChar::B => 1 });
    }
    magic16 [7] {
        unit!(M16, 5, 2, (), |b, e| find(d16(b, e), &[0x0102, 0x0201, 0xff]), |v: &M16| match v { M16::A => 0, M16::B => 1, M16::C => 2 });
        unit!(MI16, 5, 2, (), |b, _| find(d16(b, L), &[0xffff, 0x100]), |v: &MI16| match v { MI16::A => 0, MI16::B => 1 });
    }
    magic32 [7] { unit!(M32, 8, 4, (), |b, _| find(u32e(b, B), &[0x01020304, 0x04030201]), |v: &M32| match v { M32::A => 0, M32::B => 1 }) }
    magic_bytes [7] {
        unit!(MBytes, 6, 3, (), |b: [u8; 3], _| if b[0] == b'a' && b[1] == b'b' && b[2] == b'c' { Some(0) } else if b[0] == b'a' && b[1] == b'b' && b[2] == b'd' { Some(1) } else if b[0] | b[1] | b[2] == 0 { Some(2) } else { None },
            |v: &MBytes| match v { MBytes::A => 0, MBytes::B => 1, MBytes::C => 2 });
    }
    magic_pre [7] {
        let n = sym::sym_u8();
        unit!(MPre, 5, 2, (n,), |b, e| match d16(b, e) { 1 if n == 1 => Some(0), 1 if n > 2 && n < 5 => Some(1), 2 => Some(2), 1 => Some(3), _ => None },
            |v: &MPre| match v { MPre::A => 0, MPre::B => 1, MPre::C => 2, MPre::D => 3 });
        unit!(MPreBytes, 5, 2, (n,), |b: [u8; 2], _| if b[0] == b'a' && b[1] == b'b' { Some(if n > 4 { 0 } else { 1 }) } else if b[0] == b'c' && b[1] == b'd' && n == 4 { Some(2) } else { None },
            |v: &MPreBytes| match v { MPreBytes::A => 0, MPreBytes::B => 1, MPreBytes::C => 2 });
        reach!(n == 1, "1"); reach!(n == 4, "4");
    }
    top_repr [7] { top!(TopRepr, |b: [u8; 1], _| b[0] == b'T', 1, 2, |b, e| find(d16(b, e), &[0x0102, 0x54]), |v: &TopRepr| match v { TopRepr::A => 0, TopRepr::B => 1 }) }
    top_magic [7] { top!(TopMagic, |b, _| d16(b, L) == 0x5455, 2, 1, |b: [u8; 1], _| find(b[0], &[1, 0x55]), |v: &TopMagic| match v { TopMagic::A => 0, TopMagic::B => 1 }) }
    sequence [7] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let e = some_endian();
        let got = Seq::read_options(&mut r, &opts(e), ());
        let (a, b, c, d) = (find(r.b(0), &[0, 1, 5, 6, 255]), find(d16(r.at(1), e), &[0x0102, 0x0201, 0xff]), find(d16(r.at(3), L), &[0x0102, 0x0201, 0xff00, 0]), find(r.b(5), &[1, 2]));
        match &got {
            Ok(v) => {
                assert!(a == Some(match v.a { U8::A => 0, U8::B => 1, U8::C => 2, U8::D => 3, U8::E => 4 }));
                assert!(b == Some(match v.b { M16::A => 0, M16::B => 1, M16::C => 2 }));
                assert!(c == Some(match v.c { U16::A => 0, U16::B => 1, U16::C => 2, U16::D => 3 }));
                assert!(d == Some(match v.d { PreRepr::A => 0, PreRepr::B => 1, PreRepr::C => 2, PreRepr::D => 3 }));
                assert!(v.e == r.b(6) && r.pos == 7);
                reach!(true, "all");
            }
            Err(BErr::NoVariantMatch { pos }) => {
                let p = if a.is_none() { 0 } else if b.is_none() { 1 } else if c.is_none() { 3 } else { 5 };
                assert!(*pos == p && r.pos == 0 && (p != 5 || d.is_none()), "position of the enum that failed");
                reach!(p == 5, "last");
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
}
