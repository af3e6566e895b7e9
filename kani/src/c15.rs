//! C15: null-terminated strings end at the first terminator.
use crate::{harnesses, reach, rd::*, sym};
use binread::{io::{ErrorKind, Read, Seek}, FilePtr8, NullString, NullWideString};
use core::num::{NonZeroU16, NonZeroU8};

const B: Endian = Endian::Big;

/// Number of bytes of the string at `s`, and whether it is terminated.
fn narrow<const N: usize>(r: &Rd<N>, s: u64) -> (usize, bool) {
    let mut i = 0;
    while i < N as u64 {
        if !r.has(s + i, 1) { return (i as usize, false); }
        if r.b(s + i) == 0 { return (i as usize, true); }
        i += 1;
    }
    (N, false)
}
fn wide<const N: usize>(r: &Rd<N>, s: u64, e: Endian) -> (usize, bool) {
    let mut i = 0;
    while 2 * i < N as u64 {
        if !r.has(s + 2 * i, 2) { return (i as usize, false); }
        if u16e(r.at(s + 2 * i), e) == 0 { return (i as usize, true); }
        i += 1;
    }
    (N / 2, false)
}

macro_rules! bytes_at {
    ($t:ty, $max:literal, |$x:ident| $get:expr) => {{
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto($max);
        r.pos = sym::upto(1);
        let s = r.pos;
        let mut o = opts(some_endian());
        if sym::flag() { o.count = Some(2); }
        let got = <$t>::read_options(&mut r, &o, ());
        let (n, end) = narrow(&r, s);
        match &got {
            Ok(v) => {
                assert!(v.len() == n, "ends at the first terminator");
                let mut i = 0;
                while i < $max {
                    if i < n {
                        let $x = &v[i];
                        assert!($get != 0 && $get == r.b(s + i as u64), "exactly the bytes before it");
                    }
                    i += 1;
                }
                assert!(r.pos == s + n as u64 + end as u64 && r.high <= r.pos, "just past the terminator");
                reach!(n == $max - 2 && end && s == 1, "longest"); reach!(n == 0 && end, "empty"); reach!(n == $max - 1 && !end, "unterminated"); reach!(o.count.is_some(), "count given");
            }
            Err(_) => panic!("no failure"),
        }
        core::mem::forget(got);
    }};
}
macro_rules! wide_at {
    ($t:ty, |$x:ident| $get:expr) => {{
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(7);
        r.pos = sym::upto(1);
        let s = r.pos;
        let o = opts(some_endian());
        let got = <$t>::read_options(&mut r, &o, ());
        let (n, end) = wide(&r, s, o.endian);
        match &got {
            Ok(v) => {
                assert!(end && v.len() == n, "ends at the first terminator");
                let mut i = 0;
                while i < 3 {
                    if i < n {
                        let $x = &v[i];
                        assert!($get != 0 && $get == u16e(r.at(s + 2 * i as u64), o.endian), "exactly the units before it");
                    }
                    i += 1;
                }
                assert!(r.pos == s + 2 * n as u64 + 2 && r.high == r.pos, "just past the terminator");
                reach!(n == 2, "two units"); reach!(n == 0, "empty"); reach!(n == 1 && r.b(s) == 0 && is_be(o.endian), "a zero byte inside");
            }
            Err(BErr::Io(e)) => { assert!(!end && e.kind() == ErrorKind::UnexpectedEof); reach!(n == 3, "unterminated"); reach!(n == 1 && r.len == s + 3 && r.b(s + 2) == 0, "half a terminator"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Pair { a: NullString, b: NullString, z: u8 }
#[derive(BinRead)]
#[br(little)]
struct Mixed { a: NullString, #[br(big)] w: NullWideString, z: u8 }
#[derive(BinRead)]
struct Ptr { p: FilePtr8<NullString>, q: u8 }

harnesses! {
    null_string [8] { bytes_at!(NullString, 5, |x| *x) }
    bytes_vec [8] { bytes_at!(Vec<NonZeroU8>, 5, |x| x.get()) }
    wide_string [5] { wide_at!(NullWideString, |x| *x) }
    wide_vec [5] { wide_at!(Vec<NonZeroU16>, |x| x.get()) }
    fault [6] {
        // a failing read is an error, never an end
        let mut r = Rd::<4>::any().faulty();
        r.kind = some_kind();
        let got = NullString::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { assert!(r.hit == Hit::No); reach!(v.len() == 3, "no failure"); }
            Err(BErr::Io(e)) => { assert!(r.hit != Hit::No && e.kind() == r.kind); reach!(r.pos == 2, "third read fails"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    wide_fault [5] {
        let mut r = Rd::<8>::over(sym::bytes(), 6, 0).faulty();
        r.kind = some_kind();
        let got = NullWideString::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { assert!(r.hit == Hit::No); reach!(v.len() == 2, "no failure"); }
            Err(BErr::Io(e)) => { assert!(if r.hit == Hit::No { e.kind() == ErrorKind::UnexpectedEof } else { e.kind() == r.kind }); reach!(r.hit != Hit::No && r.pos == 2, "second unit fails"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    pair [8] {
        let mut r = Rd::<8>::over(sym::bytes(), 5, 0);
        let got = Pair::read_options(&mut r, &opts(B), ());
        let (n, e1) = narrow(&r, 0);
        let p = n as u64 + 1;
        let (m, e2) = if e1 { narrow(&r, p) } else { (0, false) };
        let q = p + m as u64 + 1;
        match &got {
            Ok(v) => {
                assert!(e1 && e2 && q < 5 && v.a.len() == n && v.b.len() == m && v.z == r.b(q) && r.pos == q + 1);
                if n > 0 { assert!(v.a[0] == r.b(0)); }
                if m > 0 { assert!(v.b[0] == r.b(p)); }
                reach!(n == 1 && m == 1, "two strings"); reach!(n == 0 && m == 0, "both empty");
            }
            Err(_) => { assert!(!(e1 && e2 && q < 5) && is_eof(&got) && r.pos == 0); reach!(e1 && !e2, "second unterminated"); }
        }
        core::mem::forget(got);
    }
    mixed [9] {
        let mut r = Rd::<8>::over(sym::bytes(), 7, 0);
        let got = Mixed::read_options(&mut r, &opts(some_endian()), ());
        let (n, e1) = narrow(&r, 0);
        let p = n as u64 + 1;
        let (m, e2) = if e1 && p < 7 { wide(&r, p, B) } else { (0, false) };
        let q = p + 2 * m as u64 + 2;
        match &got {
            Ok(v) => {
                assert!(e1 && e2 && q < 7 && v.a.len() == n && v.w.len() == m && v.z == r.b(q) && r.pos == q + 1);
                if m > 0 { assert!(v.w[0] == u16e(r.at(p), B)); }
                reach!(n == 1 && m == 1, "both");
            }
            Err(_) => { assert!(!(e1 && e2 && q < 7) && is_eof(&got) && r.pos == 0); reach!(e1 && !e2, "second unterminated"); }
        }
        core::mem::forget(got);
    }
    pointer [8] {
        let mut r = Rd::<4>::over(sym::bytes(), 4, 0);
        let got = <Ptr as BinReadExtra>::parse(&mut r);
        let p = r.b(0) as u64;
        match &got {
            Ok(v) => {
                let (n, end) = if p < 4 { narrow(&r, p) } else { (0, false) };
                let t = v.p.value.as_ref().unwrap();
                assert!(t.len() == n && v.q == r.b(1) && r.pos == 2, "the target is the string there");
                if n > 0 { assert!(t[0] == r.b(p)); }
                reach!(n == 1 && end, "target"); reach!(p > 4, "past the end");
            }
            Err(_) => panic!("no failure"),
        }
        core::mem::forget(got);
    }
    sequence [6] {
        // two strings in a row, from the same reader
        let mut r = Rd::<4>::over(sym::bytes(), 4, 0);
        let a = NullString::read_options(&mut r, &opts(B), ());
        let (n, end) = narrow(&r, 0);
        sym::assume(n <= 2);
        let p = r.pos;
        let b = NullString::read_options(&mut r, &opts(B), ());
        assert!(end && p == n as u64 + 1);
        let (m, _) = narrow(&r, p);
        assert!(matches!(&b, Ok(v) if v.len() == m && (m == 0 || v[0] == r.b(p))));
        reach!(n == 1 && m == 1, "two strings");
        core::mem::forget((a, b));
    }
}
trait BinReadExtra: Sized { fn parse<R: Read + Seek>(r: &mut R) -> BinResult<Self>; }
impl<T: BinRead<Args = ()>> BinReadExtra for T {
    fn parse<R: Read + Seek>(r: &mut R) -> BinResult<T> {
        let mut v = T::read_options(r, &opts(B), ())?;
        v.after_parse(r, &opts(B), ())?;
        Ok(v)
    }
}
