//! C05: magic values gate parsing exactly.
use crate::{harnesses, reach, rd::*, sym};
use binread::FilePtr;

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

/// Was the magic of type `$m` at `$at` refused with value `$want`, or too short to read?
fn refused<T: PartialEq + 'static, V, const N: usize>(got: &BinResult<V>, r: &Rd<N>, at: u64, w: u64, want: T) -> bool {
    match got {
        Err(BErr::BadMagic { pos, found }) => {
            r.has(at, w) && *pos == at && matches!(found.downcast_ref::<T>(), Some(f) if *f == want)
        }
        Err(BErr::Io(e)) => !r.has(at, w) && e.kind() == binread::io::ErrorKind::UnexpectedEof,
        _ => false,
    }
}

/// A type whose magic is `$w` bytes at the start, followed by `$rest` bytes.
/// `$dec(bytes, order)` decodes the magic, `$magic` is its value, `$body` checks the value.
macro_rules! gate {
    ($t:ty, $n:literal, $m:ty, $w:literal, $rest:literal, $ord:expr, $dec:expr, $magic:expr, |$r:ident, $s:ident, $v:ident| $body:expr) => {{
        let mut $r = Rd::<$n>::any_at(2);
        let ($s, e) = ($r.pos, some_endian());
        let o = opts(e);
        let ord: fn(Endian) -> Endian = $ord;
        let found: $m = ($dec)(if $r.has($s, $w) { $r.at::<$w>($s) } else { [0; $w] }, ord(e));
        let good = $r.has($s, $w) && found == $magic;
        let got = <$t>::read_options(&mut $r, &o, ());
        if good {
            match &got {
                Ok($v) => { assert!($r.has($s, $w + $rest) && $r.pos == $s + $w + $rest && $body, "continues after the magic"); reach!($s > 0, "magic matches"); }
                Err(BErr::Io(_)) => assert!(!$r.has($s, $w + $rest)),
                Err(_) => panic!("magic matches but is refused"),
            }
        } else {
            assert!(refused::<$m, _, $n>(&got, &$r, $s, $w, found), "wrong magic is refused, with the value found");
            assert!($r.pos == $s, "position restored");
            reach!($r.has($s, $w), "wrong magic");
            reach!(!$r.has($s, $w), "short magic");
        }
        core::mem::forget(got);
    }};
}
fn id(e: Endian) -> Endian { e }
fn dec1(b: [u8; 1], _: Endian) -> u8 { b[0] }
fn dec2(b: [u8; 2], e: Endian) -> u16 { u16e(b, e) }
fn dec4(b: [u8; 4], e: Endian) -> u32 { u32e(b, e) }
fn dec8(b: [u8; 8], e: Endian) -> u64 {
    let (h, l) = ([b[0], b[1], b[2], b[3]], [b[4], b[5], b[6], b[7]]);
    if is_be(e) { (u32e(h, e) as u64) << 32 | u32e(l, e) as u64 } else { (u32e(l, e) as u64) << 32 | u32e(h, e) as u64 }
}

#[derive(BinRead)]
#[br(magic = 0xA7u8)]
struct M8 { a: u8 }
#[derive(BinRead)]
#[br(magic = b'x')]
struct M8b(u8);
#[derive(BinRead)]
#[br(magic = 0x1234u16)]
struct M16 { a: u16 }
#[derive(BinRead)]
#[br(magic = 0x1234u16, little)]
struct M16L { a: u16 }
#[derive(BinRead)]
#[br(big, magic = -2i16)]
struct M16B(u8);
#[derive(BinRead)]
#[br(magic = 0x80402010u32)]
struct M32 { a: u8 }
#[derive(BinRead)]
#[br(magic = 0x8040201008040201u64, big)]
struct M64;
#[derive(BinRead)]
#[br(magic = b"RIFF", little)]
struct Bytes4 { a: u16 }
#[derive(BinRead)]
#[br(magic = b"ab")]
struct Bytes2;
#[derive(BinRead)]
#[br(magic = 'C')]
struct Ch(u8);
#[derive(BinRead)]
#[br(magic = 1.5f32, big)]
struct F32(u8);

#[derive(BinRead)]
struct Field { a: u8, #[br(magic = 0x0102u16)] b: u8, #[br(magic = 0x0304u16, big)] c: u8, #[br(little, magic = b"zz")] d: u8 }
#[derive(BinRead)]
struct FieldOrder { f: u8, #[br(magic = 0x0102u16, is_big = f == 9)] b: u16 }
#[derive(BinRead)]
struct FieldPad { #[br(magic = 7u8, pad_before = 1)] a: u8, #[br(magic = 8u8, if(a == 1, 0xee))] b: u8, #[br(magic = 9u8)] d: u8 }
#[derive(BinRead)]
enum En {
    #[br(magic = 0x2122u16)] A { x: u8 },
    #[br(magic = 0x2122u16, little)] B(u8),
    #[br(magic = b"s")] U,
}
// the magic of the enum is that of the variants that have none
#[derive(BinRead)]
#[br(magic = 0x11u8)]
enum Default { #[br(assert(self_0 != 0))] A(u8), #[br(magic = 0x12u8)] B(u8) }
#[derive(BinRead)]
#[br(magic = 0x1234u16)]
enum Unit { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }
#[derive(BinRead)]
#[br(magic = 0x1234u16, little, repr = u8)]
enum Rep { A = 1, B = 2 }
#[derive(BinRead)]
#[br(magic = 0x1234u16, map = Mapped)]
struct Mapped(u8);
#[derive(BinRead)]
#[br(magic = 0x1234u16, big, try_map = nonzero)]
struct TryMapped(u8);
fn nonzero(x: u8) -> Result<TryMapped, u8> { if x == 0 { Err(0) } else { Ok(TryMapped(x)) } }
#[derive(BinRead)]
struct Target { p: FilePtr<u8, M16L> }

harnesses! {
    w8 [6] {
        gate!(M8, 6, u8, 1, 1, id, dec1, 0xA7, |r, s, v| v.a == r.b(s + 1));
        gate!(M8b, 6, u8, 1, 1, id, dec1, b'x', |r, s, v| v.0 == r.b(s + 1));
    }
    ch [6] { gate!(Ch, 6, char, 1, 1, id, |b: [u8; 1], _| b[0] as char, 'C', |r, s, v| v.0 == r.b(s + 1)); }
    w16 [6] { gate!(M16, 6, u16, 2, 2, id, dec2, 0x1234, |r, s, v| v.a == dec2(r.at(s + 2), B) || v.a == dec2(r.at(s + 2), L)); }
    w16_little [6] { gate!(M16L, 6, u16, 2, 2, |_| L, dec2, 0x1234, |r, s, v| v.a == dec2(r.at(s + 2), L)); }
    w16_signed [6] { gate!(M16B, 6, i16, 2, 1, |_| B, |b, e| dec2(b, e) as i16, -2, |r, s, v| v.0 == r.b(s + 2)); }
    w32 [6] { gate!(M32, 8, u32, 4, 1, id, dec4, 0x80402010, |r, s, v| v.a == r.b(s + 4)); }
    w64 [9] { gate!(M64, 16, u64, 8, 0, |_| B, dec8, 0x8040201008040201, |r, s, v| matches!(v, M64)); }
    float [6] { gate!(F32, 8, f32, 4, 1, |_| B, |b: [u8; 4], e| if dec4(b, e) & 0x7f80_0000 == 0x7f80_0000 && dec4(b, e) & 0x7f_ffff != 0 { sym::assume(false); 0.0 } else { f32::from_bits(dec4(b, e)) }, 1.5, |r, s, v| v.0 == r.b(s + 4)); }
    bytes4 [6] { gate!(Bytes4, 8, [u8; 4], 4, 2, id, |b: [u8; 4], _| b, *b"RIFF", |r, s, v| v.a == dec2(r.at(s + 4), L)); }
    bytes2 [6] { gate!(Bytes2, 6, [u8; 2], 2, 0, id, |b: [u8; 2], _| b, *b"ab", |r, s, v| matches!(v, Bytes2)); }
    mapped [6] { gate!(Mapped, 6, u16, 2, 1, id, dec2, 0x1234, |r, s, v| v.0 == r.b(s + 2)); }
    try_mapped [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let found = dec2(r.at(0), B);
        let got = TryMapped::read_options(&mut r, &opts(some_endian()), ());
        if found == 0x1234 {
            assert!(if r.b(2) == 0 { matches!(&got, Err(BErr::Custom { .. })) } else { matches!(&got, Ok(v) if v.0 == r.b(2)) });
            reach!(got.is_ok(), "matches"); reach!(got.is_err(), "map fails");
        } else {
            assert!(refused::<u16, _, 8>(&got, &r, 0, 2, found) && r.pos == 0);
        }
        core::mem::forget(got);
    }
    unit_enum [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let e = some_endian();
        let found = dec2(r.at(0), e);
        let got = Unit::read_options(&mut r, &opts(e), ());
        if found == 0x1234 {
            match &got {
                Ok(v) => assert!(r.pos == 3 && r.b(2) == if matches!(v, Unit::A) { 1 } else { 2 }),
                Err(x) => assert!(matches!(x, BErr::NoVariantMatch { pos: 0 }) && r.b(2) != 1 && r.b(2) != 2 && r.pos == 0),
            }
            reach!(got.is_ok(), "matches"); reach!(got.is_err(), "no variant");
        } else {
            assert!(refused::<u16, _, 8>(&got, &r, 0, 2, found) && r.pos == 0, "magic of a unit-only enum");
        }
        core::mem::forget(got);
    }
    repr_enum [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let found = dec2(r.at(0), L);
        let got = Rep::read_options(&mut r, &opts(some_endian()), ());
        if found == 0x1234 {
            match &got {
                Ok(v) => assert!(r.pos == 3 && r.b(2) == if matches!(v, Rep::A) { 1 } else { 2 }),
                Err(x) => assert!(matches!(x, BErr::NoVariantMatch { pos: 0 }) && r.b(2) != 1 && r.b(2) != 2 && r.pos == 0),
            }
            reach!(got.is_ok(), "matches"); reach!(got.is_err(), "no variant");
        } else {
            assert!(refused::<u16, _, 8>(&got, &r, 0, 2, found) && r.pos == 0, "magic of a repr enum");
        }
        core::mem::forget(got);
    }
    fields [6] {
        // a | 2-byte magic b | 2-byte big magic c | "zz" d
        let mut r = Rd::<16>::over(sym::bytes(), 16, 0);
        let e = some_endian();
        let (m1, m2, m3) = (dec2(r.at(1), e), dec2(r.at(4), B), [r.b(7), r.b(8)]);
        let got = Field::read_options(&mut r, &opts(e), ());
        if m1 != 0x0102 {
            assert!(refused::<u16, _, 16>(&got, &r, 1, 2, m1), "first field magic");
        } else if m2 != 0x0304 {
            assert!(refused::<u16, _, 16>(&got, &r, 4, 2, m2), "second field magic");
            reach!(true, "second");
        } else if m3 != *b"zz" {
            assert!(refused::<[u8; 2], _, 16>(&got, &r, 7, 2, m3), "third field magic");
            reach!(true, "third");
        } else {
            assert!(matches!(&got, Ok(v) if v.a == r.b(0) && v.b == r.b(3) && v.c == r.b(6) && v.d == r.b(9)) && r.pos == 10);
            reach!(true, "all match");
        }
        core::mem::forget(got);
    }
    field_order [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 0);
        let o = if r.b(0) == 9 { B } else { L };
        let m = dec2(r.at(1), o);
        let got = FieldOrder::read_options(&mut r, &opts(some_endian()), ());
        if m == 0x0102 {
            assert!(matches!(&got, Ok(v) if v.b == dec2(r.at(3), o)) && r.pos == 5);
            reach!(o == B, "big"); reach!(o == L, "little");
        } else {
            assert!(refused::<u16, _, 6>(&got, &r, 1, 2, m));
        }
        core::mem::forget(got);
    }
    field_pad [6] {
        // 07 <pad> a 08 [b] 09 d
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let (a, has) = (r.b(2), r.b(2) == 1);
        let p = if has { 5 } else { 4 };
        let got = FieldPad::read_options(&mut r, &opts(some_endian()), ());
        if r.b(0) != 7 { assert!(refused::<u8, _, 8>(&got, &r, 0, 1, r.b(0)), "magic comes before padding"); }
        else if r.b(3) != 8 { assert!(refused::<u8, _, 8>(&got, &r, 3, 1, r.b(3)), "magic of a conditional field"); }
        else if r.b(p) != 9 { assert!(refused::<u8, _, 8>(&got, &r, p, 1, r.b(p)), "magic after a conditional field"); }
        else {
            assert!(matches!(&got, Ok(v) if v.a == a && v.b == (if has { r.b(4) } else { 0xee }) && v.d == r.b(p + 1)) && r.pos == p + 2);
            reach!(has, "read"); reach!(!has, "skipped");
        }
        core::mem::forget(got);
    }
    variants [6] {
        // 2122 x | 2221 b | 's'
        let mut r = Rd::<6>::over(sym::bytes(), 6, 0);
        let e = some_endian();
        let got = En::read_options(&mut r, &opts(e), ());
        let (m, l) = (dec2(r.at(0), e), dec2(r.at(0), L));
        match &got {
            Ok(En::A { x }) => { assert!(m == 0x2122 && *x == r.b(2) && r.pos == 3); reach!(true, "A"); }
            Ok(En::B(x)) => { assert!(l == 0x2122 && m != 0x2122 && *x == r.b(2) && r.pos == 3); reach!(true, "B"); }
            Ok(En::U) => { assert!(r.b(0) == b's' && r.pos == 1); reach!(true, "U"); }
            Err(BErr::EnumErrors { pos, variant_errors }) => {
                assert!(*pos == 0 && r.pos == 0 && variant_errors.len() == 3);
                assert!(m != 0x2122 && l != 0x2122 && r.b(0) != b's');
                match (&variant_errors[0].1, &variant_errors[1].1, &variant_errors[2].1) {
                    (BErr::BadMagic { pos: 0, found: f }, BErr::BadMagic { pos: 0, found: g }, BErr::BadMagic { pos: 0, found: h }) => {
                        assert!(matches!(f.downcast_ref::<u16>(), Some(x) if *x == m));
                        assert!(matches!(g.downcast_ref::<u16>(), Some(x) if *x == l));
                        assert!(matches!(h.downcast_ref::<[u8; 1]>(), Some(x) if x[0] == r.b(0)));
                        reach!(true, "refused");
                    }
                    _ => panic!("variant error is not BadMagic"),
                }
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    variants_default [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 0);
        let got = Default::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(Default::A(x)) => { assert!(r.b(0) == 0x11 && *x == r.b(1) && *x != 0 && r.pos == 2); reach!(true, "A"); }
            Ok(Default::B(x)) => { assert!(r.b(0) == 0x12 && *x == r.b(1) && r.pos == 2); reach!(true, "B"); }
            Err(_) => { assert!(r.pos == 0 && (r.b(0) != 0x11 || r.b(1) == 0) && r.b(0) != 0x12); reach!(r.b(0) == 0x11, "assertion"); }
        }
        core::mem::forget(got);
    }
    behind_pointer [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 0);
        let p = r.b(0) as u64;
        sym::assume(p <= 2);
        let m = dec2(r.at(p), L);
        let got = Target::read_options(&mut r, &opts(some_endian()), ());
        if m == 0x1234 { assert!(matches!(&got, Ok(v) if v.p.a == dec2(r.at(p + 2), L))); reach!(p == 2, "target matches"); }
        else { assert!(refused::<u16, _, 6>(&got, &r, p, 2, m)); reach!(p == 2, "target refused"); }
        core::mem::forget(got);
    }
}
