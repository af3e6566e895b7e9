//! C12: counted collections hold exactly count elements, or fail cleanly. Memory requests above
//! 1 MiB fail these harnesses (see bmc.kani_lib; natively the allocator of main.rs).
use crate::{harnesses, reach, rd::*, sym};
use binread::{helpers::read_bytes, io::{Read, Seek}, punctuated::Punctuated, BinReaderExt};

const B: Endian = Endian::Big;

/// An element that refuses zero, and records what it was given.
#[derive(Clone, Copy)]
struct Elem { v: u8, arg: u8, count: bool, endian: Endian, offset: u64 }
impl BinRead for Elem {
    type Args = (u8,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<Self> {
        let v = u8::read_options(r, o, ())?;
        if v == 0 { return Err(BErr::NoVariantMatch { pos: binread::io::StreamPosition::stream_pos(r)? }); }
        Ok(Elem { v, arg: a.0, count: o.count.is_some(), endian: o.endian, offset: o.offset })
    }
}

/// `Vec<Elem>` with a given count, from any position of a stream of any length.
macro_rules! counted {
    ($n:literal, $len:literal) => {{
        let mut r = Rd::<$len>::any_at(2);
        let s = r.pos;
        let arg = sym::sym_u8();
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        o.count = Some($n);
        let got = <Vec<Elem>>::read_options(&mut r, &o, (arg,));
        // the first element that fails
        let mut bad: Option<u64> = None;
        let mut i = $n;
        while i > 0 {
            i -= 1;
            if !r.has(s + i, 1) || r.b(s + i) == 0 { bad = Some(i); }
        }
        match (&got, bad) {
            (Ok(v), None) => {
                assert!(v.len() == $n && r.pos == s + $n, "count elements, and nothing else");
                let mut i = 0;
                while i < $n {
                    let x = v[i];
                    assert!(x.v == r.b(s + i as u64), "values of successive reads");
                    assert!(x.arg == arg && !x.count && x.endian == o.endian && x.offset == o.offset, "arguments and options of the field, but not its count");
                    i += 1;
                }
                reach!(s > 0, "complete");
            }
            (Err(BErr::NoVariantMatch { pos }), Some(i)) => { assert!(r.has(s + i, 1) && *pos == s + i + 1, "first error"); reach!(i + 1 == $n, "last fails"); }
            (Err(BErr::Io(e)), Some(i)) => { assert!(!r.has(s + i, 1) && e.kind() == binread::io::ErrorKind::UnexpectedEof); reach!(i > 0 || $n == 1, "short"); }
            _ => panic!("fails exactly when an element fails"),
        }
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Row { n: u8, #[br(count = 1)] v: Vec<u16> }
#[derive(BinRead)]
struct Field { n: u8, #[br(count = n)] v: Vec<u16>, z: u8 }
#[derive(BinRead)]
struct Table { #[br(count = 2)] v: Vec<Row>, z: u8 }
#[derive(BinRead)]
struct Claims { n: u64, #[br(count = n)] v: Vec<u16> }
#[derive(BinRead)]
struct ClaimsBytes { n: u32, #[br(count = n, parse_with = read_bytes)] v: Vec<u8> }
#[derive(BinRead, Clone, Copy)]
struct Item { x: u8 }

/// `read_bytes` of a given count, from any position of a stream of up to 3 bytes.
macro_rules! bytes {
    ($n:expr) => {{
        const N: usize = $n;
        let mut r = Rd::<3>::any();
        let mut o = opts(B);
        o.count = Some(N);
        let s = r.pos;
        let got = read_bytes(&mut r, &o, ());
        let have = r.len.saturating_sub(s);
        match &got {
            Ok(v) => {
                assert!(v.len() == N && N as u64 <= have && r.pos == s + N as u64);
                let mut i = 0;
                while i < N && i < 3 { assert!(v[i] == r.b(s + i as u64), "the bytes themselves"); i += 1; }
                reach!(N <= 3, "complete");
            }
            Err(BErr::Io(e)) => { assert!(N as u64 > have && e.kind() == binread::io::ErrorKind::UnexpectedEof, "short stream"); reach!(true, "short"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }};
}

macro_rules! huge_bytes {
    ($n:expr) => {{
        let mut r = Rd::<3>::over(sym::bytes(), 3, 0);
        let mut o = opts(B);
        o.count = Some($n);
        let got = read_bytes(&mut r, &o, ());
        assert!(is_eof(&got), "short stream");
        reach!(true, "short");
        core::mem::forget(got);
    }};
}

/// A result on a short stream with any count at all.
macro_rules! claimed {
    ($got:expr, $have:expr, $count:expr) => {{
        let got = $got;
        match &got {
            Ok(v) => { assert!(v.len() == $count && $count <= $have, "as many as claimed"); reach!($count == 1, "complete"); }
            Err(BErr::Io(e)) => { assert!($count > $have && e.kind() == binread::io::ErrorKind::UnexpectedEof, "short stream"); reach!($count > usize::MAX / 2, "huge count"); reach!($count > 1 << 24 && $count < 1 << 32, "large count"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }};
}

harnesses! {
    count0 [4] {
        let mut r = Rd::<4>::any_at(5);
        let s = r.pos;
        let mut o = opts(some_endian());
        o.count = Some(0);
        assert!(matches!(<Vec<Elem>>::read_options(&mut r, &o, (0,)), Ok(v) if v.is_empty()) && r.pos == s, "an empty Vec reads nothing");
        assert!(matches!(read_bytes(&mut r, &o, ()), Ok(v) if v.is_empty()) && r.pos == s);
        reach!(s > 4, "past the end");
    }
    count1 [4] { counted!(1, 4) }
    count2 [4] { counted!(2, 5) }
    count3 [5] { counted!(3, 6) }
    field [4] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        sym::assume(r.b(0) <= 2);
        let e = some_endian();
        let got = Field::read_options(&mut r, &opts(e), ());
        let n = r.b(0) as u64;
        match &got {
            Ok(v) => {
                assert!(v.v.len() as u64 == n && v.z == r.b(1 + 2 * n) && r.pos == 2 + 2 * n);
                if n > 0 { assert!(v.v[0] == u16e(r.at(1), e)); }
                if n > 1 { assert!(v.v[1] == u16e(r.at(3), e)); }
                reach!(n == 2, "two"); reach!(n == 0, "none");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    nested [4] {
        // rows of a fixed count of their own
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let got = Table::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(t) => {
                assert!(t.v.len() == 2 && t.z == r.b(6) && r.pos == 7);
                let mut i = 0;
                while i < 2 {
                    let o = 3 * i as u64;
                    assert!(t.v[i].n == r.b(o) && t.v[i].v.len() == 1 && t.v[i].v[0] == u16e(r.at(o + 1), B));
                    i += 1;
                }
                reach!(true, "parsed");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    any_count_vec [4] {
        let mut r = Rd::<2>::any();
        let mut o = opts(B);
        let n = sym::sym_u64() as usize;
        o.count = Some(n);
        claimed!(<Vec<u8>>::read_options(&mut r, &o, ()), r.len as usize, n);
    }
    any_count_helper [4] {
        let mut r = Rd::<2>::any();
        let o = opts(B);
        let n = sym::sym_u64() as usize;
        let f = binread::count::<_, u8, (), Vec<u8>>(n);
        claimed!(f(&mut r, &o, ()), r.len as usize, n);
    }
    bytes0 [4] {
        let mut r = Rd::<3>::any_at(9);
        let s = r.pos;
        let mut o = opts(B);
        o.count = Some(0);
        let got = read_bytes(&mut r, &o, ());
        assert!(matches!(&got, Ok(v) if v.is_empty()) && r.pos == s);
        reach!(s > 3, "past the end");
        core::mem::forget(got);
    }
    bytes1 [4] { bytes!(1) }
    bytes2 [4] { bytes!(2) }
    bytes3 [5] { bytes!(3) }
    bytes_64k [6, std::vec::Vec::resize => crate::stubs::resize] { huge_bytes!(1 << 16) }
    bytes_16m [6, std::vec::Vec::resize => crate::stubs::resize] { huge_bytes!(1 << 24) }
    bytes_4g [6, std::vec::Vec::resize => crate::stubs::resize] { huge_bytes!(1 << 32) }
    bytes_half [6, std::vec::Vec::resize => crate::stubs::resize] { huge_bytes!(usize::MAX / 2) }
    bytes_max [6, std::vec::Vec::resize => crate::stubs::resize] { huge_bytes!(usize::MAX) }
    any_count_punctuated [4] {
        let mut r = Rd::<2>::any();
        let mut o = opts(B);
        let n = sym::sym_u64() as usize;
        o.count = Some(n);
        let got = Punctuated::<Item, u8>::separated(&mut r, &o, ());
        match &got {
            Ok(v) => { assert!(v.len() == n && (n == 0 || n == 1 && r.len >= 1)); reach!(n == 1, "one"); }
            Err(BErr::Io(_)) => { assert!(n > 1 || n > r.len as usize); reach!(n > usize::MAX / 2, "huge"); reach!(n > 1 << 24 && n < 1 << 32, "large"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    any_count_trailing [4] {
        let mut r = Rd::<2>::any();
        let mut o = opts(B);
        let n = sym::sym_u64() as usize;
        o.count = Some(n);
        let got = Punctuated::<u8, u8>::separated_trailing(&mut r, &o, ());
        match &got {
            Ok(v) => { assert!(v.len() == n && v.seperators.len() == n && 2 * n <= r.len as usize); reach!(n == 1, "one"); }
            Err(BErr::Io(_)) => { assert!(n > r.len as usize / 2); reach!(n > usize::MAX / 2, "huge"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    claims [10] {
        // a 64-bit count taken from the input
        let mut r = Rd::<16>::over(sym::bytes(), 12, 0);
        let e = some_endian();
        let got = Claims::read_options(&mut r, &opts(e), ());
        let n = if is_be(e) { u64::from_be_bytes(r.at(0)) } else { u64::from_le_bytes(r.at(0)) };
        match &got {
            Ok(v) => { assert!(v.v.len() as u64 == n && n <= 2 && r.pos == 8 + 2 * n); reach!(n == 2, "complete"); }
            Err(x) => { assert!(n > 2 && r.pos == 0 && matches!(x, BErr::Io(e) if e.kind() == binread::io::ErrorKind::UnexpectedEof)); reach!(n > 1 << 63, "huge"); reach!(n == 1 << 24, "large"); }
        }
        core::mem::forget(got);
    }
    claims_bytes [10] {
        // a 32-bit count taken from the input
        let mut r = Rd::<8>::over([0, 0, 0, 2, sym::sym_u8(), sym::sym_u8(), 0, 0], 6, 0);
        let got = ClaimsBytes::read_options(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { assert!(v.v.len() == 2 && r.pos == 6 && v.v[0] == r.b(4) && v.v[1] == r.b(5)); reach!(true, "complete"); }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    claims_bytes_huge [6, std::vec::Vec::resize => crate::stubs::resize] {
        let mut r = Rd::<8>::over([255, 255, 255, 255, sym::sym_u8(), sym::sym_u8(), 0, 0], 6, 0);
        let got = ClaimsBytes::read_options(&mut r, &opts(B), ());
        assert!(is_eof(&got) && r.pos == 0);
        reach!(true, "huge");
        core::mem::forget(got);
    }
}
