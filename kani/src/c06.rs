//! C06: data enums yield the first variant that parses, and only that one.
use crate::{harnesses, reach, rd::*, sym};
use binread::FilePtr;

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;
fn c2<const N: usize>(r: &Rd<N>, p: u64, e: Endian) -> u16 { u16e(r.at(p), e) }

#[derive(Clone, Copy)]
enum K { Magic, Assert, Io }
/// The error of one variant attempt is of this kind and reports this position.
fn is(e: &BErr, k: K, p: u64) -> bool {
    match (e, k) {
        (BErr::BadMagic { pos, .. }, K::Magic) | (BErr::AssertFail { pos, .. }, K::Assert) => *pos == p,
        (BErr::Io(x), K::Io) => x.kind() == binread::io::ErrorKind::UnexpectedEof,
        _ => false,
    }
}
fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    a.len() == b.len() && (a.is_empty() || (a[0] == b[0] && a[a.len() - 1] == b[b.len() - 1]))
}

// Variants that overlap: later ones see the bytes from the start of the enum again.
#[derive(BinRead)]
enum Shapes {
    #[br(magic = 1u8)] Named { a: u8, #[br(assert(b > a))] b: u8 },
    Tuple(#[br(assert(self_0 & 0x0f == 1))] u16, u8),
    #[br(magic = 0x01u8)] Unit,
    #[br(assert(last > 0x80))] Last { last: u8 },
}
fn shapes<const N: usize>(r: &Rd<N>, s: u64, e: Endian) -> [Option<K>; 4] {
    let h = |n| r.has(s, n);
    let m = if !h(1) { Some(K::Io) } else if r.b(s) != 1 { Some(K::Magic) } else { None };
    [
        if m.is_some() { m } else if !h(3) { Some(K::Io) } else if r.b(s + 2) <= r.b(s + 1) { Some(K::Assert) } else { None },
        if !h(2) { Some(K::Io) } else if c2(r, s, e) & 0x0f != 1 { Some(K::Assert) } else if !h(3) { Some(K::Io) } else { None },
        m,
        if !h(1) { Some(K::Io) } else if r.b(s) <= 0x80 { Some(K::Assert) } else { None },
    ]
}

// Pre-assertions choose among variants that would all parse.
#[derive(BinRead)]
#[br(import(kind: u8))]
enum Pre {
    #[br(pre_assert(kind == 1))] One(u8),
    #[br(pre_assert(kind == 2 || kind == 3))] Two { x: u16 },
    #[br(pre_assert(kind == 3))] Three(u32),
    #[br(pre_assert(kind > 3), pre_assert(kind < 6))] Four,
}
// Same variants as Shapes, without details of the failure.
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum Quiet {
    #[br(magic = 1u8)] Named { a: u8, #[br(assert(b > a))] b: u8 },
    Tuple(#[br(assert(self_0 & 0x0f == 1))] u16, u8),
    #[br(magic = 0x01u8)] Unit,
    #[br(assert(last > 0x80))] Last { last: u8 },
}
// What earlier variants did (moves, pointers, byte order, offset) does not reach later ones.
#[derive(BinRead)]
enum Moves {
    #[br(little)] Far(#[br(pad_before = 2)] u8, #[br(assert(self_1 == 7), align_after = 4)] u8),
    Ptr { #[br(offset = 1)] p: FilePtr<u8, u8>, #[br(assert(q == 9))] q: u8 },
    Plain(u16, #[br(assert(self_1 != 0))] u8),
}
#[derive(BinRead)]
struct Leaf { #[br(assert(x != 3))] x: u8 }
#[derive(BinRead)]
enum Inner { #[br(magic = 5u8)] A(Leaf), B(u8, Leaf) }
#[derive(BinRead)]
enum Outer { Nested(Inner, #[br(assert(self_1 == 0))] u8), Other(u8, u8, u8) }
// Every way a variant can fail after it has moved the reader.
#[derive(BinRead)]
#[br(repr = u8)]
#[derive(Clone, Copy)]
enum Code { X = 1, Y = 2 }
#[derive(BinRead)]
enum Kinds { #[br(magic = 3u8)] P, #[br(magic = 4u8)] Q(u8) }
fn odd(x: u8) -> Result<u8, u16> { if x & 1 == 1 { Ok(x) } else { Err(x as u16) } }
#[derive(BinRead)]
enum Late {
    Code(u8, Code),
    Kinds { a: u8, k: Kinds },
    Custom(u8, #[br(try_map = odd, assert(self_1 > 200))] u8),
    Whole(u8, u8, u8),
}
#[derive(BinRead)]
#[br(return_unexpected_error)]
enum LateQuiet {
    Pair(u8, #[br(magic = 7u8)] u8),
    Ptr { #[br(offset = 1)] p: FilePtr<u8, Code> },
    Far(u8, #[br(try_map = |x: u8| odd(x), pad_before = 1)] u8),
    Whole(u16, Code),
}
#[derive(BinRead)]
struct Holder { k: u8, e: Shapes, z: u8 }

/// Which variant, the value's fields, and where the parse ended.
macro_rules! shapes_check {
    ($t:ident, $got:expr, $r:expr, $s:expr, $e:expr, $f:expr) => {
        match $got {
            Ok($t::Named { a, b }) => { assert!($f[0].is_none() && *a == $r.b($s + 1) && *b == $r.b($s + 2) && $r.pos == $s + 3); reach!($s > 0, "first"); true }
            Ok($t::Tuple(a, b)) => { assert!($f[0].is_some() && $f[1].is_none() && *a == c2(&$r, $s, $e) && *b == $r.b($s + 2) && $r.pos == $s + 3); reach!($s > 0 && $r.b($s) == 1, "second, after the first failed late"); true }
            Ok($t::Unit) => { assert!($f[0].is_some() && $f[1].is_some() && $f[2].is_none() && $r.pos == $s + 1); reach!($s > 0, "third"); true }
            Ok($t::Last { last }) => { assert!($f[0].is_some() && $f[1].is_some() && $f[2].is_some() && $f[3].is_none() && *last == $r.b($s) && $r.pos == $s + 1); reach!($s > 0, "last"); true }
            Err(_) => { assert!($f[0].is_some() && $f[1].is_some() && $f[2].is_some() && $f[3].is_some() && $r.pos == $s); false }
        }
    };
}

harnesses! {
    shapes_all [6] {
        let mut r = Rd::<6>::any_at(2);
        let (s, e) = (r.pos, some_endian());
        let f = shapes(&r, s, e);
        let got = Shapes::read_options(&mut r, &opts(e), ());
        if !shapes_check!(Shapes, &got, r, s, e, f) {
            match &got {
                Err(BErr::EnumErrors { pos, variant_errors: v }) => {
                    assert!(*pos == s && v.len() == 4, "every variant once");
                    assert!(same(v[0].0, "Named") && same(v[1].0, "Tuple") && same(v[2].0, "Unit") && same(v[3].0, "Last"), "in order");
                    assert!(is(&v[0].1, f[0].unwrap(), s), "error of variant 1");
                    assert!(is(&v[1].1, f[1].unwrap(), s), "error of variant 2");
                    assert!(is(&v[2].1, f[2].unwrap(), s), "error of variant 3");
                    assert!(is(&v[3].1, f[3].unwrap(), s), "error of variant 4");
                    reach!(s > 0 && r.has(s, 3), "none matches"); reach!(!r.has(s, 1), "nothing left");
                }
                _ => panic!("wrong error"),
            }
        }
        core::mem::forget(got);
    }
    quiet [6] {
        let mut r = Rd::<6>::any_at(2);
        let (s, e) = (r.pos, some_endian());
        let f = shapes(&r, s, e);
        let got = Quiet::read_options(&mut r, &opts(e), ());
        if !shapes_check!(Quiet, &got, r, s, e, f) {
            assert!(matches!(&got, Err(BErr::NoVariantMatch { pos }) if *pos == s), "NoVariantMatch at the start");
            reach!(s > 0 && r.has(s, 3), "none matches");
        }
        core::mem::forget(got);
    }
    pre [6] {
        let mut r = Rd::<6>::any_at(2);
        let (s, e, kind) = (r.pos, some_endian(), sym::sym_u8());
        let got = Pre::read_options(&mut r, &opts(e), (kind,));
        match &got {
            Ok(Pre::One(x)) => { assert!(kind == 1 && *x == r.b(s) && r.pos == s + 1); reach!(true, "one"); }
            Ok(Pre::Two { x }) => { assert!((kind == 2 || kind == 3) && *x == c2(&r, s, e) && r.pos == s + 2); reach!(kind == 3, "two"); }
            Ok(Pre::Three(_)) => panic!("an earlier variant parses whenever this one does"),
            Ok(Pre::Four) => { assert!((kind == 4 || kind == 5) && r.pos == s); reach!(true, "four"); }
            Err(BErr::EnumErrors { pos, variant_errors: v }) => {
                assert!(*pos == s && r.pos == s && v.len() == 4);
                assert!(if kind == 1 { is(&v[0].1, K::Io, s) && !r.has(s, 1) } else { is(&v[0].1, K::Assert, s) });
                assert!(if kind == 2 || kind == 3 { is(&v[1].1, K::Io, s) && !r.has(s, 2) } else { is(&v[1].1, K::Assert, s) });
                assert!(if kind == 3 { is(&v[2].1, K::Io, s) } else { is(&v[2].1, K::Assert, s) });
                assert!(kind != 4 && kind != 5 && is(&v[3].1, K::Assert, s));
                reach!(kind == 0, "none"); reach!(kind == 2 && r.has(s, 1), "short");
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    moves [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        sym::assume(r.b(1) < 8);
        let e = some_endian();
        let got = Moves::read_options(&mut r, &opts(e), ());
        let first = r.b(4) == 7;
        let second = r.b(2) == 9 && r.b(1) <= 6;
        match &got {
            Ok(Moves::Far(a, _)) => { assert!(first && *a == r.b(3) && r.pos == 8); reach!(true, "far"); }
            Ok(Moves::Ptr { p, q }) => { assert!(!first && second && **p == r.b(1 + r.b(1) as u64) && *q == 9 && r.pos == 3); reach!(true, "pointer"); }
            Ok(Moves::Plain(a, b)) => { assert!(!first && !second && *a == c2(&r, 1, e) && *b == r.b(3) && *b != 0 && r.pos == 4); reach!(r.b(2) == 9, "after a failed pointer"); reach!(r.b(2) != 9, "plain"); }
            Err(BErr::EnumErrors { pos: 1, variant_errors: v }) => { assert!(v.len() == 3 && !first && !second && r.b(3) == 0 && r.pos == 1); reach!(true, "none"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    nested [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 1);
        let got = Outer::read_options(&mut r, &opts(some_endian()), ());
        let a = r.b(1) == 5 && r.b(2) != 3;
        let b = !a && r.b(2) != 3;
        match &got {
            Ok(Outer::Nested(Inner::A(l), z)) => { assert!(a && l.x == r.b(2) && r.b(3) == 0 && *z == 0 && r.pos == 4); reach!(true, "inner a"); }
            Ok(Outer::Nested(Inner::B(k, l), z)) => { assert!(b && *k == r.b(1) && l.x == r.b(2) && *z == 0 && r.b(3) == 0 && r.pos == 4); reach!(true, "inner b"); }
            Ok(Outer::Other(x, y, z)) => { assert!((!a && !b) || r.b(3) != 0); assert!(*x == r.b(1) && *y == r.b(2) && *z == r.b(3) && r.pos == 4); reach!(a, "rejected after the inner enum parsed"); reach!(!a && !b, "inner enum fails"); }
            Err(_) => panic!("the last variant always parses"),
        }
        core::mem::forget(got);
    }
    late [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(6);
        r.pos = sym::upto(1);
        let s = r.pos;
        let got = Late::read_options(&mut r, &opts(some_endian()), ());
        let h = |n| r.has(s, n);
        let (b, c) = (r.b(s + 1), r.b(s + 2));
        let code = h(2) && (b == 1 || b == 2);
        let kinds = !code && h(2) && (b == 3 || b == 4 && h(3));
        let custom = !code && !kinds && h(2) && b & 1 == 1 && b > 200;
        match &got {
            Ok(Late::Code(x, y)) => { assert!(code && *x == r.b(s) && (*y as u8) == b && r.pos == s + 2); reach!(s == 1, "repr"); }
            Ok(Late::Kinds { a, k }) => {
                assert!(kinds && *a == r.b(s));
                match k { Kinds::P => assert!(b == 3 && r.pos == s + 2), Kinds::Q(q) => assert!(b == 4 && *q == c && r.pos == s + 3) }
                reach!(s == 1, "after a unit enum without a match");
            }
            Ok(Late::Custom(x, y)) => { assert!(custom && *x == r.b(s) && *y == b && r.pos == s + 2); reach!(s == 1, "after a data enum without a match"); }
            Ok(Late::Whole(x, y, z)) => { assert!(!code && !kinds && !custom && h(3) && *x == r.b(s) && *y == b && *z == c && r.pos == s + 3); reach!(b == 100, "after a custom error"); reach!(b == 101, "after an assertion"); }
            Err(BErr::EnumErrors { pos, variant_errors: v }) => {
                assert!(!code && !kinds && !custom && !h(3) && *pos == s && v.len() == 4 && r.pos == s);
                if h(2) {
                    assert!(matches!(&v[0].1, BErr::NoVariantMatch { pos } if *pos == s + 1), "error of the nested unit enum");
                    assert!(matches!(&v[1].1, BErr::EnumErrors { pos, variant_errors: w } if *pos == s + 1 && w.len() == 2), "error of the nested data enum");
                    assert!(if b & 1 == 0 { matches!(&v[2].1, BErr::Custom { err, .. } if err.downcast_ref::<u16>() == Some(&(b as u16))) } else { is(&v[2].1, K::Assert, s) }, "own error");
                } else {
                    assert!(is(&v[0].1, K::Io, s) && is(&v[2].1, K::Io, s));
                }
                assert!(is(&v[3].1, K::Io, s));
                reach!(h(2) && b & 1 == 0, "all fail"); reach!(!h(1), "nothing left");
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    late_quiet [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 0, 0);
        r.len = sym::upto(6);
        r.pos = sym::upto(1);
        let (s, e) = (r.pos, some_endian());
        sym::assume(r.b(s) < 8);
        let got = LateQuiet::read_options(&mut r, &opts(e), ());
        let h = |n| r.has(s, n);
        let t = 1 + r.b(s) as u64;
        let is_code = |x: u8| x == 1 || x == 2;
        let pair = h(3) && r.b(s + 1) == 7;
        let ptr = !pair && h(1) && r.has(t, 1) && is_code(r.b(t));
        let far = !pair && !ptr && h(3) && r.b(s + 2) & 1 == 1;
        match &got {
            Ok(LateQuiet::Pair(x, y)) => { assert!(pair && *x == r.b(s) && *y == r.b(s + 2) && r.pos == s + 3); reach!(s == 1, "pair"); }
            Ok(LateQuiet::Ptr { p }) => { assert!(ptr && (*p.value.as_ref().unwrap() as u8) == r.b(t) && r.pos == s + 1); reach!(h(3) && s == 1, "pointer"); }
            Ok(LateQuiet::Far(x, y)) => { assert!(far && *x == r.b(s) && *y == r.b(s + 2) && r.pos == s + 3); reach!(r.has(t, 1), "after a bad target"); reach!(!r.has(t, 1), "after a target out of reach"); }
            Ok(LateQuiet::Whole(x, y)) => { assert!(!pair && !ptr && !far && h(3) && *x == c2(&r, s, e) && (*y as u8) == r.b(s + 2) && r.pos == s + 3); reach!(s == 1, "whole"); }
            Err(BErr::NoVariantMatch { pos }) => { assert!(!pair && !ptr && !far && *pos == s && r.pos == s && (!h(3) || !is_code(r.b(s + 2)))); reach!(h(3) && s == 1, "none"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    held [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 0);
        let e = some_endian();
        let f = shapes(&r, 1, e);
        let got = Holder::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => {
                assert!(v.k == r.b(0));
                let w = match &v.e { Shapes::Named { .. } => 0, Shapes::Tuple(..) => 1, Shapes::Unit => 2, Shapes::Last { .. } => 3 };
                assert!(f[w].is_none() && (w < 1 || f[0].is_some()) && (w < 2 || f[1].is_some()) && (w < 3 || f[2].is_some()), "first that parses");
                let p = 1 + if w < 2 { 3 } else { 1 };
                assert!(v.z == r.b(p) && r.pos == p + 1, "sequential reading goes on after the enum");
                reach!(w == 0, "0"); reach!(w == 1, "1"); reach!(w == 2, "2"); reach!(w == 3, "3");
            }
            Err(BErr::EnumErrors { pos: 1, variant_errors: v }) => { assert!(v.len() == 4 && f[0].is_some() && f[1].is_some() && f[2].is_some() && f[3].is_some() && r.pos == 0); reach!(true, "none"); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
}
