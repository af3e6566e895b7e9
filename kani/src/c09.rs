//! C09: padding, alignment and seek directives place the reader exactly.
//! Fields of type `()` read nothing, so that any 64-bit position is possible.
use crate::{harnesses, reach, rd::*, sym};
use binread::io::SeekFrom;

/// `p` moved by `n`, or no such position.
fn by(p: u64, n: i64) -> Option<u64> { p.checked_add_signed(n) }
/// The smallest multiple of `a` that is not behind `p`, if it is a position.
fn up(p: u64, a: u64) -> Option<u64> {
    if a == 0 { return Some(p); }
    let r = p % a;
    if r == 0 { Some(p) } else { p.checked_add(a - r) }
}
fn anywhere() -> i64 { sym::sym_u64() as i64 }

/// Parses `$t` from any 64-bit position: the reader must end where `$want(start)` says, or fail
/// with an I/O error and not move.
macro_rules! placed {
    ($t:ty, $args:expr, |$s:ident| $want:expr) => {{
        let $s = sym::sym_u64();
        let mut r = Rd::<4>::over([0; 4], 4, $s);
        let got = <$t>::read_options(&mut r, &opts(Endian::Big), $args);
        let want: Option<u64> = $want;
        match (&got, want) {
            (Ok(_), Some(p)) => assert!(r.pos == p, "position"),
            (Err(BErr::Io(_)), None) => assert!(r.pos == $s, "position restored"),
            _ => panic!("a move fails exactly when it leads to no position"),
        }
        reach!(got.is_ok() && $s > 0, "moves");
        core::mem::forget(got);
    }};
}

/// Alignments that are constants for the solver, any position of `$w` bits from both ends of the range.
macro_rules! aligned {
    ($w:ty, $($n:literal),*) => {{
        let lo = (sym::sym_u32() as $w) as u64;
        let s = if sym::flag() { u64::MAX - lo } else { lo };
        $({
            let want = up(s, $n);
            let mut r = Rd::<4>::over([0; 4], 4, s);
            let got = AlignBefore::read_options(&mut r, &opts(Endian::Big), ($n,));
            assert!(match (&got, want) { (Ok(_), Some(p)) => r.pos == p, (Err(BErr::Io(_)), None) => r.pos == s, _ => false }, "align_before");
            reach!(got.is_ok() && r.pos != s || $n < 2, "moves");
            core::mem::forget(got);
            let mut r = Rd::<4>::over([0; 4], 4, s);
            let got = AlignAfter::read_options(&mut r, &opts(Endian::Big), ($n,));
            assert!(match (&got, want) { (Ok(_), Some(p)) => r.pos == p, (Err(BErr::Io(_)), None) => r.pos == s, _ => false }, "align_after");
            core::mem::forget(got);
        })*
    }};
}

#[derive(BinRead)]
#[br(import(n: i64))]
struct PadBefore { #[br(pad_before = n)] a: () }
#[derive(BinRead)]
#[br(import(n: i64))]
struct PadAfter { #[br(pad_after = n)] a: () }
#[derive(BinRead)]
#[br(import(n: i64, m: i64))]
struct PadBoth { #[br(pad_before = n, pad_after = m)] a: () }
#[derive(BinRead)]
#[br(import(n: u64))]
struct AlignBefore { #[br(align_before = n)] a: () }
#[derive(BinRead)]
#[br(import(n: u64))]
struct AlignAfter { #[br(align_after = n)] a: () }
#[derive(BinRead)]
struct Align16 { #[br(align_before = 0x10)] a: (), #[br(align_after = 0x200)] b: () }
#[derive(BinRead)]
struct Align1 { #[br(align_before = 1)] a: (), #[br(align_after = 0)] b: (), #[br(align_after = 0x8000_0000_0000_0000u64)] c: () }
#[derive(BinRead)]
#[br(import(n: i64))]
struct SizeTo { #[br(pad_size_to = n)] a: () }
#[derive(BinRead)]
#[br(import(n: i64))]
struct Move { #[br(pad_before = n)] a: () }
#[derive(BinRead)]
#[br(import(n: i64, m: i64))]
struct SizeToMove { #[br(pad_size_to = n, args(m))] a: Move }
#[derive(BinRead)]
#[br(import(to: SeekFrom))]
struct SeekTo { #[br(seek_before = to)] a: () }
#[derive(BinRead)]
#[br(import(to: SeekFrom, pad: i64))]
struct Before { #[br(align_before = 4, pad_before = pad, seek_before = to)] a: () }
#[derive(BinRead)]
#[br(import(m: i64, to: i64, pad: i64))]
struct After { #[br(align_after = 4, pad_after = pad, pad_size_to = to, args(m))] a: Move }
#[derive(BinRead)]
#[br(import(m: i64))]
struct Restore { #[br(restore_position, args(m), pad_after = 3)] a: Move }

// With data: the field is read between its before- and its after-directives.
#[derive(BinRead)]
#[br(import(p: i8, q: i8, n: u8))]
struct Data {
    h: u8,
    #[br(pad_before = p as i64, pad_after = q as i64)] a: u8,
    #[br(align_before = 4, pad_size_to = n)] b: u8,
    #[br(restore_position)] c: u16,
    #[br(restore_position, pad_before = 1, pad_after = 3, magic = 0x55u8)] d: u8,
    e: u8,
}
#[derive(BinRead)]
#[br(import(to: SeekFrom))]
struct Seeks { #[br(seek_before = to)] a: u8, #[br(seek_before = SeekFrom::Start(a as u64 & 3), pad_before = 1)] b: u8, c: u8 }
#[derive(BinRead)]
struct Tail { #[br(pad_size_to = 4, pad_after = 1, align_after = 8)] a: [u8; 2], b: u8 }
#[derive(BinRead)]
enum En { #[br(magic = 1u8)] A(#[br(pad_before = 2, align_after = 4)] u8, u8), B { #[br(align_before = 2)] a: u8, #[br(pad_size_to = 0x2)] b: u8, c: u8 } }

harnesses! {
    pad [6] {
        let (n, m) = (anywhere(), anywhere());
        placed!(PadBefore, (n,), |s| by(s, n));
        placed!(PadAfter, (n,), |s| by(s, n));
        placed!(PadBoth, (n, m), |s| by(s, n).and_then(|p| by(p, m)));
        reach!(n < 0 && m > 0, "both directions");
    }
    align_small [6] { aligned!(u16, 0, 1, 2, 3, 4, 5) }
    align_six [6] { aligned!(u16, 6, 7, 8) }
    align_more [6] { aligned!(u16, 10, 12, 64) }
    align_odd [6] { aligned!(u16, 100, 255) }
    align_const [6] {
        placed!(Align16, (), |s| if s > u64::MAX - 0xf { None } else { let p = (s + 0xf) & !0xf; if p > u64::MAX - 0x1ff { None } else { Some((p + 0x1ff) & !0x1ff) } });
        placed!(Align1, (), |s| if s == 0 { Some(0) } else if s <= 1 << 63 { Some(1 << 63) } else { None });
    }
    size_to [6] {
        let (n, m) = (anywhere(), anywhere());
        placed!(SizeTo, (n,), |s| if n > 0 { by(s, n) } else { Some(s) });
        // at least n past the start of the data, wherever the data ended
        let s = sym::upto(200);
        sym::assume(m >= -(s as i64) && m < 1 << 40 && n < 1 << 62);
        let mut r = Rd::<4>::over([0; 4], 4, s);
        let got = SizeToMove::read_options(&mut r, &opts(Endian::Big), (n, m));
        let end = (s as i64 + m) as u64;
        if n > m { let want = by(s, n); assert!(match (&got, want) { (Ok(_), Some(p)) => r.pos == p, _ => false }, "padded to size"); }
        else { assert!(got.is_ok() && r.pos == end, "already long enough"); }
        reach!(m < 0 && n > m, "data ended before it started"); reach!(m > 0 && n > m && n < 100, "pads"); reach!(n < m && n > 0, "does not pad");
        core::mem::forget(got);
    }
    seek [6] {
        let n = anywhere();
        let which = sym::upto(2);
        let to = match which { 0 => SeekFrom::Start(n as u64), 1 => SeekFrom::Current(n), _ => SeekFrom::End(n) };
        let target = |s: u64| match which { 0 => Some(n as u64), 1 => by(s, n), _ => by(4, n) };
        placed!(SeekTo, (to,), |s| target(s));
        reach!(which == 0, "start"); reach!(which == 1, "current"); reach!(which == 2, "end");
    }
    before_order [6] {
        let (n, pad) = (anywhere(), anywhere());
        let cur = sym::flag();
        let to = if cur { SeekFrom::Current(n) } else { SeekFrom::Start(n as u64) };
        placed!(Before, (to, pad), |s| (if cur { by(s, n) } else { Some(n as u64) }).and_then(|p| by(p, pad)).and_then(|p| if p > u64::MAX - 3 { None } else { Some((p + 3) & !3) }));
    }
    after_order [6] {
        let (m, to, pad) = (sym::sym_u16() as i64, sym::sym_u16() as i64, sym::sym_u16() as i16 as i64);
        let s = sym::sym_u16() as u64 | 1 << 17;
        let mut r = Rd::<4>::over([0; 4], 4, s);
        let got = After::read_options(&mut r, &opts(Endian::Big), (m, to, pad));
        let size = if to > m { to } else { m };
        assert!(got.is_ok() && r.pos == ((s as i64 + size + pad) as u64 + 3) & !3, "pad_size_to, then pad, then align");
        reach!(to > m && pad < 0, "pads to size"); reach!(to < m, "long enough");
        core::mem::forget(got);
    }
    restore [6] {
        let m = anywhere();
        placed!(Restore, (m,), |s| by(s, m).and_then(|p| by(p, 3)).map(|_| s));
        reach!(m < 0, "backwards");
    }
    data [6] {
        let (p, q, n) = (sym::sym_u8() as i8, sym::sym_u8() as i8, sym::sym_u8());
        sym::assume(n <= 6);
        let mut r = Rd::<16>::over(sym::bytes(), 16, 0);
        let got = Data::read_options(&mut r, &opts(Endian::Big), (p, q, n));
        let at = 1 + p as i64;
        let b = at + 1 + q as i64;
        let bp = (b + 3) & !3;
        let c = bp + if n > 1 { n as i64 } else { 1 };
        if at < 0 || at > 15 || b < 0 || bp > 15 || c > 14 || r.b(c as u64) != 0x55 || c > 13 {
            assert!(got.is_err() && r.pos == 0);
        } else {
            // c: two bytes, restored; d: after its magic, one further, restored to just after the magic
            match &got {
                Ok(v) => {
                    assert!(v.h == r.b(0) && v.a == r.b(at as u64) && v.b == r.b(bp as u64) && v.c == u16e(r.at(c as u64), Endian::Big));
                    assert!(v.d == r.b(c as u64 + 2) && v.e == r.b(c as u64 + 1) && r.pos == c as u64 + 2);
                    reach!(p < 0, "back"); reach!(q < 0, "back after"); reach!(n == 6, "padded"); reach!(b % 4 == 3, "aligned");
                }
                Err(_) => panic!("every position is inside the stream"),
            }
        }
        core::mem::forget(got);
    }
    seek_data [6] {
        let n = sym::sym_u8() as i8 as i64;
        let which = sym::upto(2);
        let to = match which { 0 => SeekFrom::Start(n as u64), 1 => SeekFrom::Current(n), _ => SeekFrom::End(n) };
        let mut r = Rd::<8>::over(sym::bytes(), 8, 2);
        let got = Seeks::read_options(&mut r, &opts(Endian::Big), (to,));
        let p = match which { 0 => n, 1 => 2 + n, _ => 8 + n };
        if p < 0 || p > 7 { assert!(got.is_err() && r.pos == 2); }
        else {
            let q = (r.b(p as u64) & 3) as u64 + 1;
            assert!(matches!(&got, Ok(v) if v.a == r.b(p as u64) && v.b == r.b(q) && v.c == r.b(q + 1)) && r.pos == q + 2);
            reach!(which == 0, "start"); reach!(which == 1, "current"); reach!(which == 2, "end");
        }
        core::mem::forget(got);
    }
    tail [6] {
        let s = sym::upto(7);
        let mut r = Rd::<24>::over(sym::bytes(), 24, s);
        let got = Tail::read_options(&mut r, &opts(Endian::Big), ());
        let end = (s + 5 + 7) & !7;
        assert!(matches!(&got, Ok(v) if v.a[0] == r.b(s) && v.a[1] == r.b(s + 1) && v.b == r.b(end)) && r.pos == end + 1);
        reach!(s == 3, "already aligned"); reach!(s == 4, "next");
        core::mem::forget(got);
    }
    variants [6] {
        let s = sym::upto(4);
        let mut r = Rd::<16>::over(sym::bytes(), 16, s);
        let got = En::read_options(&mut r, &opts(Endian::Big), ());
        match &got {
            Ok(En::A(a, b)) => { let q = (s + 4 + 3) & !3; assert!(r.b(s) == 1 && *a == r.b(s + 3) && *b == r.b(q) && r.pos == q + 1); reach!(s == 1, "a"); }
            Ok(En::B { a, b, c }) => { let p = (s + 1) & !1; assert!(r.b(s) != 1 && *a == r.b(p) && *b == r.b(p + 1) && *c == r.b(p + 3) && r.pos == p + 4); reach!(s == 1, "b"); }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
}
