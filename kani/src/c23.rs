//! C23: results do not depend on how the stream chunks its reads.
use crate::{harnesses, reach, rd::*, sym};
use alloc::{boxed::Box, vec::Vec};
use binread::{helpers, io, io::{ErrorKind, Read, Seek, SeekFrom}, FilePtr8, NullString, NullWideString};

/// Reads at most so many bytes, or is interrupted (0), on two reads in a row from any read on.
/// Everything else, `read_exact` included, is what the trait provides.
struct Chunk<const N: usize, const W: usize> { r: Rd<N>, calls: u8, from: u8, step: [u8; 2] }
impl<const N: usize, const W: usize> Chunk<N, W> {
    fn of(data: [u8; N], len: u64, pos: u64) -> Self {
        Chunk { r: Rd::over(data, len, pos), calls: 0, from: sym::sym_u8(), step: [sym::upto(3) as u8, sym::upto(3) as u8] }
    }
    /// The odd reads happened.
    fn odd(&self) -> bool { self.calls >= 2 && self.calls - 2 >= self.from }
    fn short(&self) -> bool { self.odd() && self.step[0] == 1 }
    fn interrupted(&self) -> bool { self.odd() && self.step[1] == 0 }
}
impl<const N: usize, const W: usize> Read for Chunk<N, W> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls = c.wrapping_add(1);
        let mut n = buf.len();
        if c >= self.from && c - self.from < 2 {
            let k = self.step[(c - self.from) as usize];
            if k == 0 { return Err(io_err(ErrorKind::Interrupted)); }
            if (k as usize) < n { n = k as usize; }
        }
        let left = if self.r.pos >= self.r.len { 0 } else { (self.r.len - self.r.pos) as usize };
        if left < n { n = left; }
        let p = self.r.pos as usize;
        macro_rules! put { ($($i:literal)*) => { $(if W > $i && n > $i { buf[$i] = self.r.data[p + $i]; })* } }
        put!(0 1 2 3 4 5 6 7);
        assert!(n <= W);
        self.r.pos += n as u64;
        Ok(n)
    }
}
impl<const N: usize, const W: usize> Seek for Chunk<N, W> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> { self.r.seek(to) }
}

fn kind(e: &BErr) -> (u8, Option<ErrorKind>) {
    match e {
        BErr::BadMagic { .. } => (0, None),
        BErr::AssertFail { .. } => (1, None),
        BErr::Io(e) => (2, Some(e.kind())),
        BErr::Custom { .. } => (3, None),
        BErr::NoVariantMatch { .. } => (4, None),
        _ => (5, None),
    }
}
/// The same bytes through both readers.
macro_rules! both {
    ($t:ty, $w:literal, $lo:literal, $hi:literal) => { both!($t, $w, $lo, $hi, |v, w| *v == *w) };
    ($t:ty, $w:literal, $lo:literal, $hi:literal, |$v:ident, $u:ident| $eq:expr) => {{
        let data: [u8; 16] = sym::bytes();
        let len = $lo + sym::upto($hi - $lo);
        let pos = 1;
        let o = opts(some_endian());
        let mut a = Chunk::<16, $w>::of(data, len, pos);
        let mut b = Rd::<16>::over(data, len, pos);
        let x = <$t>::read_options(&mut a, &o, ());
        let y = <$t>::read_options(&mut b, &o, ());
        assert!(a.r.pos == b.pos, "same position");
        match (&x, &y) {
            (Ok($v), Ok($u)) => { assert!($eq, "same value"); reach!(a.short(), "short reads"); reach!(a.interrupted(), "interrupted"); }
            (Err(e), Err(f)) => { assert!(kind(e) == kind(f), "same error"); reach!(a.calls > 1, "fails the same way"); }
            _ => panic!("one fails and the other does not"),
        }
        core::mem::forget((x, y));
    }};
}

#[derive(BinRead, PartialEq)]
#[br(magic = 0x0102u16)]
struct Plain { a: u8, #[br(assert(b & 1 == 0))] b: u32 }
#[derive(BinRead, PartialEq)]
struct Listed { #[br(count = 2)] v: Vec<u16> }
#[derive(BinRead, PartialEq)]
struct Arrays { a: [u16; 1], t: (u8, i16) }
#[derive(BinRead, PartialEq)]
struct Raw { #[br(parse_with = helpers::read_bytes, count = 3)] v: Vec<u8>, z: u16 }
#[derive(BinRead, PartialEq)]
struct Str { s: NullString, z: u8 }
#[derive(BinRead, PartialEq)]
struct Wide { s: NullWideString, z: u8 }
#[derive(BinRead, PartialEq)]
struct Tail { h: u8, #[br(parse_with = helpers::until_eof)] t: Vec<u16> }
#[derive(BinRead, PartialEq)]
enum En { #[br(magic = 0x0102u16)] A(u16), #[br(magic = b"\x01\x03")] B { x: u8, y: u16 }, C(#[br(assert(self_0 != 0))] u32) }
#[derive(BinRead, PartialEq)]
#[br(repr = u16)]
enum Code { X = 1, Y = 0x0102 }
#[derive(BinRead, PartialEq)]
struct Tried { #[br(try)] a: Option<(u16, u32)>, b: u16 }
#[derive(BinRead, PartialEq)]
struct Moves { #[br(map = |x: u8| x & 3)] n: u8, #[br(pad_before = n as i64, align_after = 2)] a: u16, z: u8 }
#[derive(BinRead)]
struct Ptrs { p: FilePtr8<u16>, z: u16 }
impl PartialEq for Ptrs { fn eq(&self, o: &Self) -> bool { self.p.ptr == o.p.ptr && self.p.value == o.p.value && self.z == o.z } }
#[derive(BinRead, PartialEq)]
struct Until { #[br(parse_with = helpers::until(|x: &u16| *x & 0xff == 0))] v: Vec<u16> }

fn same2(a: &Vec<u16>, b: &Vec<u16>) -> bool {
    a.len() == b.len() && (a.len() < 1 || a[0] == b[0]) && (a.len() < 2 || a[1] == b[1]) && a.len() < 3
}
fn same_bytes(a: &Vec<u8>, b: &Vec<u8>) -> bool {
    a.len() == b.len() && (a.len() < 1 || a[0] == b[0]) && (a.len() < 2 || a[1] == b[1]) && (a.len() < 3 || a[2] == b[2]) && a.len() < 4
}

harnesses! {
    w16 [4] { both!(u16, 2, 0, 4); }
    w32 [4] { both!(u32, 4, 0, 6); }
    w64 [4] { both!(i64, 8, 7, 10); }
    plain [4] { both!(Plain, 4, 0, 8); }
    vec [4] { both!(Listed, 2, 3, 6, |v, w| same2(&v.v, &w.v)); }
    arrays [4] { both!(Arrays, 2, 4, 6); }
    raw [6] { both!(Raw, 3, 3, 6, |v, w| v.z == w.z && same_bytes(&v.v, &w.v)); }
    str [4] { both!(Str, 1, 3, 4, |v, w| v.z == w.z && same_bytes(&v.s.0, &w.s.0)); }
    wide [4] { both!(Wide, 2, 5, 6, |v, w| v.z == w.z && same2(&v.s.0, &w.s.0)); }
    tail [4] { both!(Tail, 2, 1, 5, |v, w| v.h == w.h && same2(&v.t, &w.t)); }
    en [4] { both!(En, 4, 4, 6); }
    code [4] { both!(Code, 2, 1, 4); }
    tried [4] { both!(Tried, 4, 4, 8); }
    moves [4] { both!(Moves, 2, 6, 8); }
    ptrs [4] { both!(Ptrs, 2, 3, 6); }
    until [4] { both!(Until, 2, 4, 5, |v, w| same2(&v.v, &w.v)); }
}
