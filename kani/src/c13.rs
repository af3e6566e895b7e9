//! C13: until, until_exclusive, until_eof and count stop exactly where specified.
use crate::{harnesses, reach, rd::*, sym};
use binread::{helpers, io::{ErrorKind, Read, Seek}, FilePtr8};

const B: Endian = Endian::Big;

/// A 16-bit element that refuses 0xFFFF, and records how it is treated.
#[derive(Clone, Copy)]
struct Elem { v: u16, arg: u8, done: u8, endian: Endian, late: Endian }
impl BinRead for Elem {
    type Args = (u8,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<Self> {
        let v = u16::read_options(r, o, ())?;
        if v == 0xFFFF { return Err(BErr::NoVariantMatch { pos: 7 }); }
        Ok(Elem { v, arg: a.0, done: 0, endian: o.endian, late: Endian::Native })
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<()> {
        self.done = self.done.wrapping_add(1);
        self.late = o.endian;
        self.arg = self.arg.wrapping_add(a.0);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq)]
enum End { Stop, Short, Bad }
/// What the elements from `s` on look like: how many whole, acceptable ones before the end.
fn scan<const N: usize>(r: &Rd<N>, s: u64, e: Endian, stop: u16, max: usize) -> (usize, End) {
    let mut i = 0;
    while i < max {
        let p = s + 2 * i as u64;
        if !r.has(p, 2) { return (i, End::Short); }
        let v = u16e(r.at(p), e);
        if v == 0xFFFF { return (i, End::Bad); }
        if v == stop { return (i, End::Stop); }
        i += 1;
    }
    panic!("the stream is shorter than that")
}
/// The elements of a result are the `n` ones at `s`.
fn elements<const N: usize>(r: &Rd<N>, v: &Vec<Elem>, n: usize, s: u64, e: Endian, arg: u8, max: usize) {
    assert!(v.len() == n, "number of elements");
    let mut i = 0;
    while i < max {
        if i < n {
            let x = v[i];
            assert!(x.v == u16e(r.at(s + 2 * i as u64), e), "values in order");
            assert!(x.endian == e && x.late == e, "byte order of the caller");
            assert!(x.done == 1, "post-processed once");
            assert!(x.arg == arg.wrapping_add(arg), "arguments of the caller");
        }
        i += 1;
    }
}
fn setup() -> (Rd<8>, u64, ReadOptions, u8, u16) {
    let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
    r.len = sym::upto(6);
    r.pos = sym::upto(1);
    let o = opts(some_endian());
    (r, 0, o, sym::sym_u8(), sym::sym_u16())
}

macro_rules! until {
    ($f:ident, $extra:literal) => {{
        let (mut r, _, o, arg, stop) = setup();
        let s = r.pos;
        let f = helpers::$f::<_, Elem, _, _, Vec<Elem>>(|x: &Elem| x.v == stop && x.done == 1);
        let got = f(&mut r, &o, (arg,));
        let (n, end) = scan(&r, s, o.endian, stop, 4);
        match &got {
            Ok(v) => {
                assert!(end == End::Stop, "ends at the first match only");
                elements(&r, v, n + $extra, s, o.endian, arg, 3);
                assert!(r.pos == s + 2 * (n as u64 + 1) && r.high == r.pos, "reads through the match and no further");
                reach!(n == 2, "third matches"); reach!(n == 0, "first matches");
            }
            Err(BErr::NoVariantMatch { pos }) => { assert!(end == End::Bad && *pos == 7); reach!(n == 1, "bad element"); }
            Err(BErr::Io(e)) => { assert!(end == End::Short && e.kind() == ErrorKind::UnexpectedEof); reach!(n == 2, "no match"); reach!(n == 0, "empty"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }};
}
macro_rules! counted {
    ($n:literal) => {{
        let (mut r, _, o, arg, _) = setup();
        let s = r.pos;
        let f = helpers::count::<_, Elem, _, Vec<Elem>>($n);
        let got = f(&mut r, &o, (arg,));
        let mut end = End::Stop;
        let mut n = 0;
        while n < $n {
            let p = s + 2 * n as u64;
            if !r.has(p, 2) { end = End::Short; break; }
            if u16e(r.at(p), o.endian) == 0xFFFF { end = End::Bad; break; }
            n += 1;
        }
        match &got {
            Ok(v) => { assert!(end == End::Stop); elements(&r, v, $n, s, o.endian, arg, $n); assert!(r.pos == s + 2 * $n && r.high <= r.pos); reach!(true, "counted"); }
            Err(BErr::NoVariantMatch { pos }) => { assert!(end == End::Bad && *pos == 7); reach!(n + 1 == $n, "bad element"); }
            Err(BErr::Io(e)) => { assert!(end == End::Short && e.kind() == ErrorKind::UnexpectedEof); reach!(n + 1 == $n, "short"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Lists {
    #[br(parse_with = helpers::until(|&b| b == 0))]
    a: Vec<u8>,
    #[br(parse_with = helpers::until_exclusive(|b: &u8| *b & 0x80 != 0))]
    b: Vec<u8>,
    z: u8,
}
#[derive(BinRead)]
struct Tail {
    h: u8,
    #[br(little, args(h), parse_with = helpers::until_eof)]
    t: Vec<Elem>,
}
#[derive(BinRead)]
struct Terminated {
    stop: u16,
    #[br(args(9), parse_with = helpers::until(|e: &Elem| e.v == stop))]
    t: Vec<Elem>,
    z: u8,
}

harnesses! {
    until [5] { until!(until, 1) }
    until_exclusive [5] { until!(until_exclusive, 0) }
    until_eof [5] {
        let (mut r, _, o, arg, _) = setup();
        let s = r.pos;
        let got: BinResult<Vec<Elem>> = helpers::until_eof(&mut r, &o, (arg,));
        // no element stops it
        let mut n = 0;
        let mut bad = false;
        while n < 3 {
            let p = s + 2 * n as u64;
            if !r.has(p, 2) { break; }
            if u16e(r.at(p), o.endian) == 0xFFFF { bad = true; break; }
            n += 1;
        }
        match &got {
            Ok(v) => {
                assert!(!bad);
                elements(&r, v, n, s, o.endian, arg, 3);
                if r.len >= s { assert!(r.pos == s + 2 * n as u64, "an incomplete element is not consumed"); }
                reach!(n == 3, "three"); reach!(n == 0, "none"); reach!(n == 2 && r.len == s + 5, "incomplete element");
            }
            Err(BErr::NoVariantMatch { pos }) => { assert!(bad && *pos == 7); reach!(n == 1, "bad element"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    until_eof_fault [5] {
        // any other failure is an error, whenever it happens
        let mut r = Rd::<4>::any().faulty();
        r.kind = some_kind();
        let o = opts(B);
        let got: BinResult<Vec<u8>> = helpers::until_eof(&mut r, &o, ());
        match &got {
            Ok(v) => { assert!(r.hit == Hit::No && v.len() as u64 == r.len); reach!(v.len() == 3, "no failure"); }
            Err(BErr::Io(e)) => { assert!(r.hit != Hit::No && e.kind() == r.kind); reach!(r.pos == 2, "failure after two elements"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    until_fault [5] {
        let mut r = Rd::<4>::any().faulty();
        r.kind = some_kind();
        let f = helpers::until::<_, u8, _, _, Vec<u8>>(|x: &u8| *x == 0);
        let got = f(&mut r, &opts(B), ());
        match &got {
            Ok(v) => { assert!(r.hit == Hit::No && v[v.len() - 1] == 0); reach!(v.len() == 3, "no failure"); }
            Err(BErr::Io(e)) => { assert!(if r.hit == Hit::No { e.kind() == ErrorKind::UnexpectedEof } else { e.kind() == r.kind }); reach!(r.hit != Hit::No && r.pos == 2, "failure after two elements"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    count0 [5] {
        let (mut r, _, o, arg, _) = setup();
        let s = r.pos;
        let f = helpers::count::<_, Elem, _, Vec<Elem>>(0);
        let got = f(&mut r, &o, (arg,));
        assert!(matches!(&got, Ok(v) if v.is_empty()) && r.pos == s && r.high == 0);
        reach!(s > r.len, "past the end");
        core::mem::forget(got);
    }
    count1 [5] { counted!(1) }
    count2 [5] { counted!(2) }
    count3 [5] { counted!(3) }
    fields [8] {
        let mut r = Rd::<8>::over(sym::bytes(), 6, 0);
        let got = Lists::read_options(&mut r, &opts(B), ());
        let mut p = 0;
        while p < 6 && r.b(p) != 0 { p += 1; }
        let na = p + 1;
        let mut q = na;
        while q < 6 && r.b(q) & 0x80 == 0 { q += 1; }
        let nb = q - na;
        match &got {
            Ok(v) => {
                assert!(q < 5 && v.a.len() as u64 == na && v.b.len() as u64 == nb && v.z == r.b(q + 1) && r.pos == q + 2);
                assert!(v.a[na as usize - 1] == 0);
                if na > 1 { assert!(v.a[0] == r.b(0)); }
                if nb > 0 { assert!(v.b[0] == r.b(na)); }
                reach!(na == 2 && nb == 2, "two lists");
            }
            Err(_) => { assert!(q >= 5 && is_eof(&got) && r.pos == 0); reach!(p == 6, "first unterminated"); reach!(q == 5, "nothing after"); }
        }
        core::mem::forget(got);
    }
    tail_field [5] {
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(5);
        let got = Tail::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(v) => {
                assert!(v.h == r.b(0));
                elements(&r, &v.t, ((r.len - 1) / 2) as usize, 1, Endian::Little, v.h, 2);
                reach!(r.len == 5, "two elements"); reach!(r.len == 4, "one and a half");
            }
            Err(BErr::NoVariantMatch { pos }) => { assert!(*pos == 7 && r.pos == 0); reach!(true, "bad element"); }
            Err(_) => { assert!(r.len == 0); reach!(true, "empty"); }
        }
        core::mem::forget(got);
    }
    terminated_field [5] {
        // the terminator is an earlier field
        let mut r = Rd::<8>::over(sym::bytes(), 7, 0);
        let e = some_endian();
        let stop = u16e(r.at(0), e);
        let got = Terminated::read_options(&mut r, &opts(e), ());
        let (n, end) = scan(&r, 2, e, stop, 3);
        match &got {
            Ok(v) => { assert!(end == End::Stop); elements(&r, &v.t, n + 1, 2, e, 9, 2); assert!(v.stop == stop && v.z == r.b(4 + 2 * n as u64)); reach!(n == 1, "second"); }
            Err(_) => { assert!(end != End::Stop && r.pos == 0); reach!(n == 2 && end == End::Short, "unterminated"); }
        }
        core::mem::forget(got);
    }
    pointers [5] {
        // elements with targets elsewhere
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let f = helpers::count::<_, FilePtr8<u8>, _, Vec<FilePtr8<u8>>>(2);
        let got = f(&mut r, &opts(B), ());
        let (a, b) = (r.b(0) as u64, r.b(1) as u64);
        match &got {
            Ok(v) => { assert!(a < 8 && b < 8 && r.pos == 2 && v[0].value == Some(r.b(a)) && v[1].value == Some(r.b(b))); reach!(a == 7 && b == 3, "targets"); }
            Err(_) => { assert!(a >= 8 || b >= 8); assert!(is_eof(&got)); reach!(a < 8, "second target missing"); }
        }
        core::mem::forget(got);
    }
}
