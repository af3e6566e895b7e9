//! C27: feature configurations agree: the same harnesses, with the same reference, in each of them.
use crate::{harnesses, reach, rd::*, sym};
use alloc::{boxed::Box, vec::Vec};
use binread::{io::{ErrorKind, Read, Seek}, FilePtr16, FilePtr8, NullString, NullWideString, PosValue};

const EOF: ErrorKind = ErrorKind::UnexpectedEof;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kd { Magic(u64), Assert(u64), Io(ErrorKind), Custom(u64), NoVariant(u64), Errors(u64, usize) }
fn kd(e: &BErr) -> Kd {
    match e {
        BErr::BadMagic { pos, .. } => Kd::Magic(*pos),
        BErr::AssertFail { pos, .. } => Kd::Assert(*pos),
        BErr::Io(e) => Kd::Io(e.kind()),
        BErr::Custom { pos, .. } => Kd::Custom(*pos),
        BErr::NoVariantMatch { pos } => Kd::NoVariant(*pos),
        BErr::EnumErrors { pos, variant_errors } => Kd::Errors(*pos, variant_errors.len()),
        _ => panic!("no other kind of error"),
    }
}

macro_rules! prim {
    ($($t:ty)*) => {$({
        let mut r = Rd::<16>::over(sym::bytes(), 16, 1);
        const W: u64 = core::mem::size_of::<$t>() as u64;
        r.len = if W == 16 { 16 } else { W + sym::upto(1) };
        r.pos = if W == 16 { 0 } else { 1 };
        let s = r.pos;
        let e = some_endian();
        let got = <$t>::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => {
                let b: [u8; W as usize] = r.at(s);
                let want = if is_be(e) { <$t>::from_be_bytes(b) } else { <$t>::from_le_bytes(b) };
                assert!(r.has(s, W) && *v == want && r.pos == s + W, "the value");
            }
            Err(e) => assert!(!r.has(s, W) && r.pos == s && kd(e) == Kd::Io(EOF), "end of file"),
        }
        reach!(got.is_ok(), "read");
        core::mem::forget(got);
    })*};
}

/// `[u8; N]` from exactly N bytes, and from one fewer.
macro_rules! array {
    ($($n:literal)*) => {$({
        let mut r = Rd::<32>::over(sym::bytes(), $n, 0);
        let got = <[u8; $n]>::read_options(&mut r, &opts(Endian::Little), ());
        match &got {
            Ok(v) => {
                assert!(r.pos == $n, "every element once");
                let mut i = 0;
                while i < $n { assert!(v[i] == r.data[i], "in order"); i += 1; }
            }
            Err(_) => panic!("long enough"),
        }
        reach!(r.pos == $n, "read");
        core::mem::forget(got);
        if $n > 0 {
            let mut r = Rd::<32>::over([0; 32], ($n as u64).wrapping_sub(1), 0);
            let got = <[u8; $n]>::read_options(&mut r, &opts(Endian::Little), ());
            assert!(matches!(&got, Err(e) if kd(e) == Kd::Io(EOF)), "one byte short");
            core::mem::forget(got);
        }
    })*};
}

/// `$want` gives the expected outcome: Ok(consumed) after comparing the value, or the error.
macro_rules! same {
    ($t:ty, $hi:literal, |$v:ident, $r:ident, $s:ident, $e:ident| $cmp:expr, $want:expr) => {{
        let mut $r = Rd::<16>::over(sym::bytes(), 0, 1);
        $r.len = 1 + sym::upto($hi);
        let $s = $r.pos;
        let $e = some_endian();
        let got = binread::error::read_options_then_after_parse::<_, $t, _>(&mut $r, &opts($e), ());
        let want: Result<u64, Kd> = $want;
        match (&got, want) {
            (Ok($v), Ok(n)) => { assert!($r.pos == $s + n, "consumption"); assert!($cmp, "value"); }
            (Err(e), Err(k)) => assert!(kd(e) == k, "kind of error"),
            _ => panic!("same outcome"),
        }
        reach!(got.is_ok(), "accepted");
        reach!(got.is_err(), "rejected");
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
#[br(big, magic = b"M", assert(b != a as u16))]
struct S { a: u8, b: u16, #[br(if(a & 1 == 1))] c: Option<u8>, #[br(little)] n: In }
#[derive(BinRead, Default)]
struct In { x: u16, #[br(assert(y < 200))] y: u8 }
fn s_ref<const N: usize>(r: &Rd<N>, s: u64) -> Result<u64, Kd> {
    let io = Err(Kd::Io(EOF));
    if !r.has(s, 1) { return io; }
    if r.b(s) != b'M' { return Err(Kd::Magic(s)); }
    if !r.has(s + 1, 3) { return io; }
    let odd = (r.b(s + 1) & 1) as u64;
    if !r.has(s + 4, odd + 3) { return io; }
    if r.b(s + 6 + odd) >= 200 { return Err(Kd::Assert(s + 4 + odd)); }
    if u16e(r.at(s + 2), Endian::Big) == r.b(s + 1) as u16 { return Err(Kd::Assert(s)); }
    Ok(7 + odd)
}
#[derive(BinRead)]
enum E { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B(u8, #[br(assert(self_1 != 0))] u8), C { #[br(assert(k > 9))] k: u16 } }
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum E2 { #[br(magic = 1u8)] A(u8), #[br(magic = 2u8)] B }
#[derive(BinRead, PartialEq)]
#[br(repr = u8)]
enum U { A = 1, B = 7 }
#[derive(BinRead, PartialEq)]
enum V { #[br(magic = 3u8)] A, #[br(magic = 4u8)] B }
#[derive(BinRead)]
struct Lists { n: u8, #[br(count = n & 3)] v: Vec<u16>, a: [In; 1] }
#[derive(BinRead)]
struct Ptrs { p: FilePtr8<u16>, #[br(try)] t: Option<U>, #[br(offset = 1)] q: FilePtr16<u8>, e: () }
// FilePtr has no Default, which arrays need without const_generics.
#[cfg(feature = "c_cg")]
type Two = [FilePtr8<u8>; 2];
#[cfg(not(feature = "c_cg"))]
type Two = (FilePtr8<u8>, FilePtr8<u8>);
#[cfg(feature = "c_cg")]
fn two(t: &Two) -> (u8, u8) { (*t[0], *t[1]) }
#[cfg(not(feature = "c_cg"))]
fn two(t: &Two) -> (u8, u8) { (*t.0, *t.1) }
#[derive(BinRead)]
struct Arr { l: Two }
#[derive(BinRead)]
struct Strs { a: NullString, b: u8 }
#[derive(BinRead)]
struct Wides { a: NullWideString, b: u8 }
#[derive(BinRead)]
struct Moves { #[br(pad_before = 1, align_after = 4)] a: u8, #[br(restore_position)] b: u16, #[br(pad_size_to = 3)] c: u8 }
#[derive(BinRead)]
struct Poses { #[br(map = |p: PosValue<u8>| (p.pos, p.val))] a: (u64, u8), #[br(try_map = |b: i8| if b < 0 { Err(b) } else { Ok(b as u8) })] b: u8, c: Box<(u8, char)> }

harnesses! {
    small [6] { prim!(u8 u16 u32 i8 i16 i32); }
    large [18] { prim!(u64 i64 u128 i128); }
    float [10] {
        let mut r = Rd::<16>::over(sym::bytes(), 12, 0);
        let e = some_endian();
        let a = f32::read_options(&mut r, &opts(e), ());
        let b = f64::read_options(&mut r, &opts(e), ());
        let (x, y): ([u8; 4], [u8; 8]) = (r.at(0), r.at(4));
        let be = is_be(e);
        assert!(matches!(&a, Ok(v) if v.to_bits() == if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }));
        assert!(matches!(&b, Ok(v) if v.to_bits() == if be { u64::from_be_bytes(y) } else { u64::from_le_bytes(y) }));
        reach!(be, "big");
        core::mem::forget((a, b));
    }
    arrays [9] { array!(0 1 2 8); }
    arrays_long [33] { array!(16 32); }
    slow_arrays0 [16] { array!(4 6 7 9 10 11 12 13 14 15); }
    slow_arrays1 [25] { array!(17 18 19 20 21 22 23 24); }
    slow_arrays2 [32] { array!(25 26 27 28 29 30 31); }
    record [5] { same!(S, 9, |v, r, s, e| v.a == r.b(s + 1) && v.b == u16e(r.at(s + 2), Endian::Big) && v.c.is_some() == (v.a & 1 == 1) && v.n.x == u16e(r.at(s + 4 + (v.a & 1) as u64), Endian::Little), s_ref(&r, s)); }
    data_enum [5] { same!(E, 4, |v, r, s, e| match v { E::A => r.b(s) == 1, E::B(x, y) => *x == r.b(s + 1) && *y == r.b(s + 2), E::C { k } => *k == u16e(r.at(s), e) }, {
        let c = if r.has(s, 2) && u16e(r.at(s), e) > 9 { Ok(2) } else { Err(Kd::Errors(s, 3)) };
        if r.has(s, 1) && r.b(s) == 1 { Ok(1) } else if r.has(s, 3) && r.b(s) == 2 && r.b(s + 2) != 0 { Ok(3) } else { c }
    }); }
    first_error [5] { same!(E2, 3, |v, r, s, e| match v { E2::A(x) => r.b(s) == 1 && *x == r.b(s + 1), E2::B => r.b(s) == 2 },
        if r.has(s, 2) && r.b(s) == 1 { Ok(2) } else if r.has(s, 1) && r.b(s) == 2 { Ok(1) } else { Err(Kd::NoVariant(s)) }); }
    units [5] {
        same!(U, 2, |v, r, s, e| *v == if r.b(s) == 1 { U::A } else { U::B }, if !r.has(s, 1) { Err(Kd::Io(EOF)) } else if r.b(s) == 1 || r.b(s) == 7 { Ok(1) } else { Err(Kd::NoVariant(s)) });
    }
    unit_magics [5] {
        same!(V, 2, |v, r, s, e| *v == if r.b(s) == 3 { V::A } else { V::B }, if !r.has(s, 1) { Err(Kd::Io(EOF)) } else if r.b(s) == 3 || r.b(s) == 4 { Ok(1) } else { Err(Kd::NoVariant(s)) });
    }
    lists [5] { same!(Lists, 11, |v, r, s, e| { let n = (v.n & 3) as u64; v.n == r.b(s) && v.v.len() as u64 == n && (n == 0 || v.v[0] == u16e(r.at(s + 1), e)) && (n < 3 || v.v[2] == u16e(r.at(s + 5), e)) && v.a[0].x == u16e(r.at(s + 1 + 2 * n), e) },
        if !r.has(s, 1) { Err(Kd::Io(EOF)) } else { let n = 2 * (r.b(s) & 3) as u64; if !r.has(s + 1, n + 3) { Err(Kd::Io(EOF)) } else if r.b(s + n + 3) >= 200 { Err(Kd::Assert(s + n + 1)) } else { Ok(n + 4) } }); }
    pointers [5] { same!(Ptrs, 7, |v, r, s, e| *v.p == u16e(r.at(v.p.ptr as u64), e) && v.p.ptr == r.b(s) && v.t.is_some() == (r.b(s + 1) == 1 || r.b(s + 1) == 7) && *v.q == r.b(1 + v.q.ptr as u64), {
        if !r.has(s, 1) { Err(Kd::Io(EOF)) } else {
            let t = (r.has(s + 1, 1) && (r.b(s + 1) == 1 || r.b(s + 1) == 7)) as u64;
            if !r.has(s + 1 + t, 2) { Err(Kd::Io(EOF)) } else {
                let q = u16e(r.at(s + 1 + t), e) as u64;
                if r.has(r.b(s) as u64, 2) && r.has(1 + q, 1) { Ok(3 + t) } else { Err(Kd::Io(EOF)) }
            }
        }
    }); }
    pointer_array [5] { same!(Arr, 5, |v, r, s, e| two(&v.l) == (r.b(r.b(s) as u64), r.b(r.b(s + 1) as u64)), if r.has(s, 2) && r.has(r.b(s) as u64, 1) && r.has(r.b(s + 1) as u64, 1) { Ok(2) } else { Err(Kd::Io(EOF)) }); }
    strings [6] { same!(Strs, 4, |v, r, s, e| (v.a.len() == 0 || v.a[0] == r.b(s)) && v.b == r.b(s + v.a.len() as u64 + 1), {
        let mut n = 0;
        while n < 4 && r.has(s + n, 1) && r.b(s + n) != 0 { n += 1; }
        if r.has(s + n, 2) && r.b(s + n) == 0 { Ok(n + 2) } else { Err(Kd::Io(EOF)) }
    }); }
    wides [5] { same!(Wides, 7, |v, r, s, e| v.a.len() == 0 || v.a[0] == u16e(r.at(s), e), {
        let mut n = 0;
        while n < 3 && r.has(s + 2 * n, 2) && u16e(r.at(s + 2 * n), e) != 0 { n += 1; }
        if r.has(s + 2 * n, 3) && u16e(r.at(s + 2 * n), e) == 0 { Ok(2 * n + 3) } else { Err(Kd::Io(EOF)) }
    }); }
    moves [5] { same!(Moves, 9, |v, r, s, e| v.a == r.b(2) && v.b == u16e(r.at(4), e) && v.c == r.b(4), if r.has(2, 1) && r.has(4, 2) { Ok(6) } else { Err(Kd::Io(EOF)) }); }
    values [5] { same!(Poses, 5, |v, r, s, e| v.a == (s, r.b(s)) && v.b == r.b(s + 1) && v.c.0 == r.b(s + 2) && v.c.1 == r.b(s + 3) as char,
        if !r.has(s, 2) { Err(Kd::Io(EOF)) } else if r.b(s + 1) >= 128 { Err(Kd::Custom(s + 1)) } else if !r.has(s + 2, 2) { Err(Kd::Io(EOF)) } else { Ok(4) }); }
}
