//! C30: a parse depends only on the bytes it covers.
use crate::{harnesses, reach, rd::*, sym};
use alloc::{boxed::Box, vec::Vec};
use binread::{derive_binread, helpers, io::{Read, Seek, SeekFrom}, punctuated::Punctuated, FilePtr, FilePtr8, NullString, NullWideString, PosValue};

fn same_err(a: &BErr, b: &BErr, by: u64) -> bool {
    match (a, b) {
        (BErr::Io(a), BErr::Io(b)) => a.kind() == b.kind(),
        (BErr::AssertFail { pos: p, .. }, BErr::AssertFail { pos: q, .. }) | (BErr::BadMagic { pos: p, .. }, BErr::BadMagic { pos: q, .. })
        | (BErr::NoVariantMatch { pos: p }, BErr::NoVariantMatch { pos: q }) | (BErr::Custom { pos: p, .. }, BErr::Custom { pos: q, .. })
        | (BErr::EnumErrors { pos: p, .. }, BErr::EnumErrors { pos: q, .. }) => p.wrapping_add(by) == *q,
        _ => false,
    }
}

/// Two streams that agree on the first `k` bytes, where `k` covers everything the first parse
/// touched (`high`): same outcome, whatever follows and whatever the second stream's length is.
/// The second parse starts `by` bytes further on (types without absolute positions).
macro_rules! covered {
    ($t:ty, $n:literal, $by:literal, |$v:ident, $w:ident| $eq:expr) => { covered!($t, $n, $by, (), |$v, $w| $eq) };
    ($t:ty, $n:literal, $by:literal, $args:expr, |$v:ident, $w:ident| $eq:expr) => {{
        let data: [u8; 16] = sym::bytes();
        let other: [u8; 16] = sym::bytes();
        let len = sym::upto($n);
        let mut a = Rd::<16>::over(data, len, 0);
        let o = opts(some_endian());
        let args = $args;
        let x = binread::error::read_options_then_after_parse::<_, $t, _>(&mut a, &o, args);
        // what the first parse covered; when it fails for lack of bytes, the second stream ends there too
        let k = a.high;
        let short = matches!(&x, Err(BErr::Io(_)));
        let mut b = Rd::<16>::over(other, 0, $by);
        b.len = if x.is_ok() { sym::upto(16) } else { len + $by };
        sym::assume(b.len >= k + $by && b.len <= 16);
        let top = if x.is_ok() { k } else { len };
        let mut i = 0;
        while i < $n {
            if (i as u64) < top { b.data[i + $by] = data[i]; }
            i += 1;
        }
        let y = binread::error::read_options_then_after_parse::<_, $t, _>(&mut b, &o, args);
        match (&x, &y) {
            (Ok($v), Ok($w)) => { assert!(b.pos == a.pos + $by, "same consumption"); assert!($eq, "same value"); }
            (Err(e), Err(f)) => { assert!(same_err(e, f, $by), "same error"); assert!(b.pos == a.pos + $by, "same position"); }
            _ => panic!("same outcome"),
        }
        reach!(x.is_ok() && b.len > k + $by, "value, more follows");
        reach!(x.is_err(), "error");
        let _ = short;
        core::mem::forget((x, y));
    }};
}
/// The same stream, parsed twice from the same position.
macro_rules! twice {
    ($t:ty, $n:literal, |$v:ident, $w:ident| $eq:expr) => {{
        let mut a = Rd::<16>::over(sym::bytes(), sym::upto($n), 1);
        let o = opts(some_endian());
        let x = binread::error::read_options_then_after_parse::<_, $t, _>(&mut a, &o, ());
        let p = a.pos;
        a.pos = 1;
        let y = binread::error::read_options_then_after_parse::<_, $t, _>(&mut a, &o, ());
        assert!(a.pos == p, "same position");
        match (&x, &y) {
            (Ok($v), Ok($w)) => assert!($eq, "same value"),
            (Err(e), Err(f)) => assert!(same_err(e, f, 0), "same error"),
            _ => panic!("same outcome"),
        }
        reach!(x.is_ok() && p > 1, "value");
        reach!(x.is_err(), "error");
        core::mem::forget((x, y));
    }};
}

#[derive(BinRead, Clone, Copy)]
#[br(magic = b"M", assert(b != a as u16))]
struct Rec { a: u8, #[br(big)] b: u16, #[br(if(a > 3))] c: Option<u8> }
#[derive(BinRead)]
enum En { #[br(magic = 1u8)] A(u16), B { #[br(assert(x > 4))] x: u8, y: u8 }, #[br(magic = 2u16)] C }
#[derive(BinRead, PartialEq)]
#[br(repr = u16)]
enum Unit { A = 1, B = 0x0201 }
#[derive(BinRead)]
struct Tail { n: u8, #[br(count = n & 3)] v: Vec<u16>, z: u8 }
#[derive(BinRead)]
struct Rel { #[br(pad_before = 1, pad_size_to = 3)] a: u8, #[br(restore_position)] b: u16, #[br(try)] t: Option<Unit>, #[br(seek_before = SeekFrom::Current(1))] c: u8, #[br(map = |x: i8| x as i32)] d: i32 }
#[derive(BinRead)]
struct Ptr { a: u8, p: FilePtr8<u16>, #[br(offset = 2)] q: FilePtr8<u8> }
#[derive(BinRead)]
struct Al { #[br(align_before = 2)] a: u8, #[br(align_after = 4)] b: PosValue<u8>, #[br(seek_before = SeekFrom::Start(1))] c: u8 }
// Shifted by a multiple of the alignments.
#[derive(BinRead)]
struct Al2 { #[br(align_before = 2)] a: u8, #[br(align_after = 4)] b: u16 }
#[derive(BinRead)]
struct Strs { a: NullString, b: u8 }
#[derive_binread]
#[br(import(k: u8))]
struct Conv { #[br(temp)] n: u8, #[br(try_map = |b: u8| if b > n { Err(b) } else { Ok(b ^ k) })] a: u8, #[br(calc = n.wrapping_add(k))] b: u8, #[br(default)] c: u8 }

macro_rules! rec { ($v:ident, $w:ident) => { $v.a == $w.a && $v.b == $w.b && $v.c == $w.c } }
harnesses! {
    record [10] { covered!(Rec, 7, 2, |v, w| rec!(v, w)); twice!(Rec, 7, |v, w| rec!(v, w)); }
    data_enum [10] { covered!(En, 5, 3, |v, w| match (v, w) { (En::A(a), En::A(b)) => a == b, (En::B { x, y }, En::B { x: a, y: b }) => x == a && y == b, (En::C, En::C) => true, _ => false }); }
    unit [10] { covered!(Unit, 4, 1, |v, w| *v == *w); twice!(Unit, 4, |v, w| *v == *w); }
    list [10] { covered!(Tail, 9, 1, |v, w| v.n == w.n && v.z == w.z && v.v.len() == w.v.len() && (v.v.len() < 1 || v.v[0] == w.v[0]) && (v.v.len() < 3 || v.v[2] == w.v[2])); }
    relative [12] { covered!(Rel, 10, 3, |v, w| v.a == w.a && v.b == w.b && v.t == w.t && v.c == w.c && v.d == w.d); }
    relative_twice [12] { twice!(Rel, 10, |v, w| v.a == w.a && v.b == w.b && v.t == w.t && v.c == w.c && v.d == w.d); }
    pointers [10] { covered!(Ptr, 8, 0, |v, w| v.a == w.a && *v.p == *w.p && *v.q == *w.q); twice!(Ptr, 8, |v, w| v.a == w.a && *v.p == *w.p && *v.q == *w.q); }
    aligned [10] { covered!(Al, 8, 0, |v, w| v.a == w.a && v.b.val == w.b.val && v.b.pos == w.b.pos && v.c == w.c); covered!(Al2, 8, 4, |v, w| v.a == w.a && v.b == w.b); }
    strings [6] { covered!(Strs, 5, 2, |v, w| v.a.len() == w.a.len() && v.b == w.b && (v.a.len() == 0 || v.a[0] == w.a[0]) && (v.a.len() < 3 || v.a[2] == w.a[2])); }
    wides [8] { covered!(NullWideString, 6, 1, |v, w| v.len() == w.len() && (v.len() == 0 || v[0] == w[0]) && (v.len() < 2 || v[1] == w[1])); }
    conversions [6] { let k = sym::sym_u8(); covered!(Conv, 4, 3, (k,), |v, w| v.a == w.a && v.b == w.b && v.c == 0 && w.c == 0); }
}
