//! C14: Punctuated keeps items and separators in step.
use crate::{harnesses, reach, rd::*, sym};
use binread::{io::{ErrorKind, Read, Seek}, punctuated::Punctuated};

const B: Endian = Endian::Big;

/// A 16-bit item that refuses 0xFFFF.
#[derive(Clone, Copy, Debug)]
struct Item { v: u16, arg: u8, endian: Endian, offset: u64 }
impl BinRead for Item {
    type Args = (u8,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<Self> {
        let v = u16::read_options(r, o, ())?;
        if v == 0xFFFF { return Err(BErr::NoVariantMatch { pos: 7 }); }
        Ok(Item { v, arg: a.0, endian: o.endian, offset: o.offset })
    }
}
/// An 8-bit separator that refuses 0xFE.
#[derive(Clone, Copy)]
struct Sep { v: u8, endian: Endian }
impl BinRead for Sep {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> {
        let v = u8::read_options(r, o, ())?;
        if v == 0xFE { return Err(BErr::NoVariantMatch { pos: 8 }); }
        Ok(Sep { v, endian: o.endian })
    }
}

#[derive(Clone, Copy, PartialEq)]
enum End { Fine, Short, BadItem, BadSep }

/// `$n` items with `$m` separators after the first of them.
macro_rules! list {
    ($f:ident, $n:literal, $m:literal, $len:literal) => {{
        let mut r = Rd::<16>::over(sym::bytes(), 0, 0);
        r.len = sym::upto($len);
        r.pos = sym::upto(1);
        let s = r.pos;
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        o.count = Some($n);
        let arg = sym::sym_u8();
        let got = Punctuated::<Item, Sep>::$f(&mut r, &o, (arg,));
        let mut end = End::Fine;
        let mut i = 0u64;
        while i < $n {
            let p = s + 3 * i;
            if !r.has(p, 2) { end = End::Short; break; }
            if u16e(r.at(p), o.endian) == 0xFFFF { end = End::BadItem; break; }
            if i < $m {
                if !r.has(p + 2, 1) { end = End::Short; break; }
                if r.b(p + 2) == 0xFE { end = End::BadSep; break; }
            }
            i += 1;
        }
        match &got {
            Ok(v) => {
                assert!(end == End::Fine);
                assert!(v.len() == $n && v.seperators.len() == $m, "in step");
                assert!(r.pos == s + 2 * $n + $m && r.high <= r.pos, "nothing more is read");
                let mut i = 0;
                while i < $n {
                    let x = v[i];
                    assert!(x.v == u16e(r.at(s + 3 * i as u64), o.endian) && x.arg == arg && x.endian == o.endian && x.offset == o.offset, "items in order");
                    if i < $m {
                        let y = v.seperators[i];
                        assert!(y.v == r.b(s + 3 * i as u64 + 2) && y.endian == o.endian, "separators in order");
                    }
                    i += 1;
                }
                reach!(s == 1, "parsed");
            }
            Err(BErr::NoVariantMatch { pos: 7 }) => { assert!(end == End::BadItem); reach!(i + 1 == $n, "last item bad"); }
            Err(BErr::NoVariantMatch { pos: 8 }) => { assert!(end == End::BadSep); reach!(i + 1 == $m, "last separator bad"); }
            Err(BErr::Io(e)) => { assert!(end == End::Short && e.kind() == ErrorKind::UnexpectedEof); reach!(i + 1 == $n, "short"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Listed {
    n: u8,
    #[br(little, args(n), count = n, parse_with = Punctuated::separated)]
    v: Punctuated<Item, Sep>,
    z: u8,
}
#[derive(BinRead)]
struct Trailed {
    n: u8,
    #[br(args(7), count = n, parse_with = Punctuated::separated_trailing)]
    v: Punctuated<Item, Sep>,
    z: u16,
}

harnesses! {
    none [4] {
        let mut r = Rd::<4>::any_at(5);
        let s = r.pos;
        let mut o = opts(some_endian());
        o.count = Some(0);
        let a = Punctuated::<Item, Sep>::separated(&mut r, &o, (0,));
        assert!(matches!(&a, Ok(v) if v.is_empty() && v.seperators.is_empty()) && r.pos == s && r.high == 0);
        let b = Punctuated::<Item, Sep>::separated_trailing(&mut r, &o, (0,));
        assert!(matches!(&b, Ok(v) if v.is_empty() && v.seperators.is_empty()) && r.pos == s && r.high == 0);
        reach!(s == 5, "past the end");
        core::mem::forget((a, b));
    }
    separated2 [5] { list!(separated, 2, 1, 7) }
    separated3 [5] { list!(separated, 3, 2, 10) }
    trailing1 [5] { list!(separated_trailing, 1, 1, 5) }
    trailing2 [5] { list!(separated_trailing, 2, 2, 8) }
    trailing3 [5] { list!(separated_trailing, 3, 3, 11) }
    separated1 [5] {
        let mut r = Rd::<4>::any_at(1);
        let s = r.pos;
        let mut o = opts(some_endian());
        o.count = Some(1);
        let got = Punctuated::<Item, Sep>::separated(&mut r, &o, (3,));
        match &got {
            Ok(v) => { assert!(r.has(s, 2) && v.len() == 1 && v.seperators.is_empty() && v[0].v == u16e(r.at(s), o.endian) && v[0].arg == 3 && r.pos == s + 2 && r.high == r.pos); reach!(r.len == s + 2, "at the end"); }
            Err(BErr::NoVariantMatch { pos: 7 }) => assert!(r.has(s, 2) && u16e(r.at(s), o.endian) == 0xFFFF),
            Err(_) => { assert!(!r.has(s, 2) && is_eof_p(&got)); reach!(true, "short"); }
        }
        core::mem::forget(got);
    }
    fault [5] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0).faulty();
        r.kind = some_kind();
        let mut o = opts(B);
        o.count = Some(2);
        let got = Punctuated::<u16, u8>::separated(&mut r, &o, ());
        match &got {
            Ok(v) => { assert!(r.hit == Hit::No && v.len() == 2 && v[1] == u16e(r.at(3), B)); reach!(true, "parsed"); }
            Err(BErr::Io(e)) => { assert!(r.hit != Hit::No && e.kind() == r.kind); reach!(r.pos == 2, "separator fails"); reach!(r.pos == 3, "second item fails"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    field [5] {
        let mut r = Rd::<16>::over(sym::bytes(), 8, 0);
        sym::assume(r.b(0) <= 2);
        let got = Listed::read_options(&mut r, &opts(some_endian()), ());
        let n = r.b(0) as u64;
        match &got {
            Ok(v) => {
                let p = if n == 0 { 1 } else { 3 * n };
                assert!(v.v.len() as u64 == n && v.z == r.b(p) && r.pos == p + 1);
                if n > 0 { assert!(v.v[0].v == u16e(r.at(1), Endian::Little) && v.v[0].arg == n as u8); }
                if n > 1 { assert!(v.v.seperators.len() == 1 && v.v.seperators[0].v == r.b(3) && v.v[1].v == u16e(r.at(4), Endian::Little)); }
                reach!(n == 2, "two"); reach!(n == 0, "none");
            }
            Err(BErr::NoVariantMatch { pos }) => { assert!(n > 0 && r.pos == 0); reach!(*pos == 8, "bad separator"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    field_trailing [5] {
        let mut r = Rd::<16>::over(sym::bytes(), 9, 0);
        sym::assume(r.b(0) <= 2);
        let e = some_endian();
        let got = Trailed::read_options(&mut r, &opts(e), ());
        let n = r.b(0) as u64;
        match &got {
            Ok(v) => {
                assert!(v.v.len() as u64 == n && v.v.seperators.len() as u64 == n && v.z == u16e(r.at(1 + 3 * n), e) && r.pos == 3 + 3 * n);
                if n > 1 { assert!(v.v.seperators[0].v == r.b(3) && v.v.seperators[1].v == r.b(6) && v.v[1].v == u16e(r.at(4), e) && v.v[1].arg == 7); }
                reach!(n == 2, "two"); reach!(n == 0, "none");
            }
            Err(BErr::NoVariantMatch { pos }) => { assert!(n > 0 && r.pos == 0); reach!(*pos == 8, "bad separator"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    access [5] {
        // Deref and DerefMut give the items
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let mut o = opts(B);
        o.count = Some(2);
        let got = Punctuated::<u16, u8>::separated(&mut r, &o, ());
        let mut v = match got { Ok(v) => v, Err(_) => panic!("must parse") };
        let x = sym::sym_u16();
        v[0] = x;
        assert!(v[0] == x && v[1] == u16e(r.at(3), B) && (&*v).len() == 2 && v.seperators[0] == r.b(2));
        reach!(x != u16e(r.at(0), B), "changed");
        core::mem::forget(v);
    }
}
fn is_eof_p<T>(r: &BinResult<T>) -> bool { is_eof(r) }
