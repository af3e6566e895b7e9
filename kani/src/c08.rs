//! C08: assertions hold on every value that is returned.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, FilePtr};
use core::sync::atomic::{AtomicU8, Ordering::Relaxed};

#[derive(PartialEq, Clone, Copy)]
struct Code(u16);

/// How often error expressions were evaluated.
static EVALS: sym::Static<u8> = sym::Static::new(0xc08, 0);
fn code(x: u16) -> Code {
    EVALS.set(EVALS.get() + 1);
    Code(x)
}

/// What must come back: the first thing that fails, in order.
#[derive(Clone, Copy)]
enum Want { Ok, Io, Msg(&'static str), Code(u16), Byte(u8) }

fn check<V>(got: &BinResult<V>, s: u64, want: Want) {
    let ok = match (got, want) {
        (Ok(_), Want::Ok) => true,
        (Err(BErr::Io(e)), Want::Io) => e.kind() == binread::io::ErrorKind::UnexpectedEof,
        (Err(BErr::AssertFail { pos, message }), Want::Msg(m)) => *pos == s && message.len() == m.len() && message.as_bytes()[0] == m.as_bytes()[0],
        (Err(BErr::Custom { pos, err }), Want::Code(c)) => *pos == s && matches!(err.downcast_ref::<Code>(), Some(x) if x.0 == c),
        (Err(BErr::Custom { pos, err }), Want::Byte(c)) => *pos == s && matches!(err.downcast_ref::<u8>(), Some(x) if *x == c),
        _ => false,
    };
    assert!(ok, "the first failing assertion decides the result");
    assert!(EVALS.get() == matches!(want, Want::Code(_)) as u8, "error expressions are evaluated on failure only");
}

/// Parses `$t` anywhere; `$want` is the required outcome in terms of the reader.
macro_rules! asserted {
    ($t:ty, $n:literal, $args:expr, |$r:ident, $s:ident, $e:ident| $want:expr) => {{
        let mut $r = Rd::<$n>::any_at(2);
        let ($s, $e) = ($r.pos, some_endian());
        EVALS.set(0);
        let got = <$t>::read_options(&mut $r, &opts($e), $args);
        let want: Want = $want;
        check(&got, $s, want);
        if got.is_err() { assert!($r.pos == $s, "position restored"); }
        reach!(matches!(want, Want::Ok) && $s > 0, "holds");
        reach!(matches!(want, Want::Msg(_)) && $s > 0 || matches!(want, Want::Code(_) | Want::Byte(_)) && $s > 0, "fails");
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Fields {
    #[br(assert(a != 0))] a: u8,
    #[br(assert(b > a, "b too small"), assert(b < 0xf0, code(b as u16)))] b: u8,
    #[br(assert(c & 1 == 0, code(c)))] c: u16,
}
#[derive(BinRead)]
#[br(assert(a != b, "equal"), assert(a as u16 + b as u16 != 300, code(a as u16)), assert(c != 9))]
struct Top { a: u8, b: u8, #[br(assert(c < 0x80, c))] c: u8 }
#[derive(BinRead)]
#[br(import(k: u8, m: u16), pre_assert(k != 0, "kind"), pre_assert(m > 5, code(m)), assert(a != k, a))]
struct Pre { a: u8 }
#[derive(BinRead)]
#[br(magic = 1u8, import(k: u8), pre_assert(k != 0, k))]
struct PreMagic(#[br(assert(self_0 != k, code(7)))] u8);
#[derive(BinRead)]
#[br(import(k: u8), assert(k != 3, code(3)))]
struct UnitS;
#[derive(BinRead)]
struct Values {
    #[br(map = |x: u8| x as u16 + 1, assert(a <= 200, code(a)))] a: u16,
    #[br(calc = a / 2, assert(b != 7, "seven"))] b: u16,
    #[br(if(a > 50, 3), assert(c != 4, code(4)))] c: u8,
    #[br(try, assert(d != Some(5), code(5)))] d: Option<u8>,
}
#[derive_binread]
struct Temp { #[br(temp, assert(n < 4, code(n as u16)))] n: u8, #[br(assert(a >= n, "below"))] a: u8 }
#[derive(BinRead)]
struct Nested { h: u8, #[br(assert(f.c != 2, code(2)))] f: Fields, #[br(args(h, 6))] p: Pre }
#[derive(BinRead)]
struct Now { #[br(deref_now, assert(*p != 0, code(1)))] p: FilePtr<u8, u8>, #[br(assert(*p < z, code(2)))] z: u8 }

#[derive(BinRead)]
#[br(import(k: u8), pre_assert(k != 9, code(9)), assert(k != 8, code(8)))]
#[br(return_unexpected_error)]
enum En {
    #[br(magic = 1u8, assert(a < 10))] A { #[br(assert(a != 3))] a: u8 },
    #[br(magic = 2u8, pre_assert(k < 5))] B,
    C(#[br(assert(self_0 > 0x7f))] u8),
}
#[derive(BinRead)]
#[br(assert(x != 1, code(1)))]
enum Top2 { #[br(assert(x != 2, code(2)))] One { x: u8 }, Two { y: u8, #[br(assert(x != 3, code(3)), map = |b: u8| b.wrapping_add(y))] x: u8 } }

harnesses! {
    fields [6] { asserted!(Fields, 6, (), |r, s, e| {
        if !r.has(s, 1) { Want::Io } else if r.b(s) == 0 { Want::Msg("a != 0") }
        else if !r.has(s, 2) { Want::Io } else if r.b(s + 1) <= r.b(s) { Want::Msg("b too small") }
        else if r.b(s + 1) >= 0xf0 { Want::Code(r.b(s + 1) as u16) }
        else if !r.has(s, 4) { Want::Io }
        else { let c = u16e(r.at(s + 2), e); if c & 1 != 0 { Want::Code(c) } else { Want::Ok } }
    }) }
    top [6] { asserted!(Top, 6, (), |r, s, _e| {
        if !r.has(s, 3) { Want::Io } else {
            let (a, b, c) = (r.b(s), r.b(s + 1), r.b(s + 2));
            if c >= 0x80 { Want::Byte(c) } else if a == b { Want::Msg("equal") } else if a as u16 + b as u16 == 300 { Want::Code(a as u16) } else if c == 9 { Want::Msg("c != 9") } else { Want::Ok }
        }
    }) }
    pre [6] {
        let (k, m) = (sym::sym_u8(), sym::sym_u16());
        asserted!(Pre, 4, (k, m), |r, s, _e| if k == 0 { Want::Msg("kind") } else if m <= 5 { Want::Code(m) } else if !r.has(s, 1) { Want::Io } else if r.b(s) == k { Want::Byte(k) } else { Want::Ok });
        reach!(k == 0, "kind"); reach!(k != 0 && m <= 5, "m");
    }
    pre_magic [6] {
        let k = sym::sym_u8();
        let mut r = Rd::<4>::over(sym::bytes(), 4, 1);
        EVALS.set(0);
        let got = PreMagic::read_options(&mut r, &opts(some_endian()), (k,));
        if r.b(1) != 1 { assert!(matches!(got, Err(BErr::BadMagic { pos: 1, .. }))); }
        else { check(&got, 1, if k == 0 { Want::Byte(0) } else if r.b(2) == k { Want::Code(7) } else { Want::Ok }); reach!(k == 0, "pre"); reach!(got.is_ok(), "ok"); reach!(r.b(2) == k && k != 0, "field"); }
        core::mem::forget(got);
    }
    unit_struct [6] {
        let k = sym::sym_u8();
        asserted!(UnitS, 2, (k,), |r, s, _e| if k == 3 { Want::Code(3) } else { Want::Ok });
    }
    values [6] { asserted!(Values, 6, (), |r, s, _e| {
        if !r.has(s, 1) { Want::Io } else {
            let a = r.b(s) as u16 + 1;
            if a > 200 { Want::Code(a) } else if a / 2 == 7 { Want::Msg("seven") } else {
                let read = a > 50;
                if read && !r.has(s, 2) { Want::Io } else if read && r.b(s + 1) == 4 { Want::Code(4) }
                else { let p = s + 1 + read as u64; if r.has(p, 1) && r.b(p) == 5 { Want::Code(5) } else { Want::Ok } }
            }
        }
    }) }
    temp [6] { asserted!(Temp, 5, (), |r, s, _e| {
        if !r.has(s, 1) { Want::Io } else if r.b(s) >= 4 { Want::Code(r.b(s) as u16) } else if !r.has(s, 2) { Want::Io } else if r.b(s + 1) < r.b(s) { Want::Msg("below") } else { Want::Ok }
    }) }
    nested [6] {
        // h | a b c c | p
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        let e = some_endian();
        EVALS.set(0);
        let got = Nested::read_options(&mut r, &opts(e), ());
        let (h, a, b, c, p) = (r.b(1), r.b(2), r.b(3), u16e(r.at(4), e), r.b(6));
        if a == 0 { check(&got, 2, Want::Msg("a != 0")) }
        else if b <= a { check(&got, 2, Want::Msg("b too small")) }
        else if b >= 0xf0 { check(&got, 2, Want::Code(b as u16)) }
        else if c & 1 != 0 { check(&got, 2, Want::Code(c)) }
        else if c == 2 { check(&got, 1, Want::Code(2)); reach!(true, "outer field") }
        else if h == 0 { check(&got, 6, Want::Msg("kind")); reach!(true, "imported") }
        else if p == h { check(&got, 6, Want::Byte(p)); reach!(true, "inner") }
        else { check(&got, 1, Want::Ok); reach!(true, "ok") }
        assert!(r.pos == if got.is_ok() { 7 } else { 1 });
        core::mem::forget(got);
    }
    pointer_now [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 0);
        sym::assume(r.b(0) < 6);
        EVALS.set(0);
        let got = Now::read_options(&mut r, &opts(some_endian()), ());
        let t = r.b(r.b(0) as u64);
        check(&got, 0, if t == 0 { Want::Code(1) } else if t >= r.b(1) { Want::Code(2) } else { Want::Ok });
        reach!(t == 0, "target"); reach!(got.is_ok(), "ok"); reach!(t != 0 && got.is_err(), "later field sees it");
        core::mem::forget(got);
    }
    enum_level [6] {
        let k = sym::sym_u8();
        let mut r = Rd::<4>::over(sym::bytes(), 4, 1);
        let got = En::read_options(&mut r, &opts(some_endian()), (k,));
        let all = k != 9 && k != 8;
        let (t, x) = (r.b(1), r.b(2));
        let a = all && t == 1 && x != 3 && x < 10;
        let b = all && t == 2 && k < 5;
        let c = all && t > 0x7f;
        match &got {
            Ok(En::A { a: v }) => { assert!(a && *v == x && r.pos == 3); reach!(true, "a"); }
            Ok(En::B) => { assert!(b && r.pos == 2); reach!(true, "b"); }
            Ok(En::C(v)) => { assert!(c && *v == t && r.pos == 2); reach!(true, "c"); }
            Err(x) => { assert!(!a && !b && !c && matches!(x, BErr::NoVariantMatch { pos: 1 }) && r.pos == 1); reach!(k == 8, "enum assert"); reach!(k == 9, "enum pre-assert"); }
        }
        core::mem::forget(got);
    }
    enum_fields [6] {
        let mut r = Rd::<4>::over(sym::bytes(), 4, 1);
        let got = Top2::read_options(&mut r, &opts(some_endian()), ());
        let (x, y) = (r.b(1), r.b(2).wrapping_add(r.b(1)));
        match &got {
            Ok(Top2::One { x: v }) => { assert!(*v == x && x != 1 && x != 2); reach!(true, "one"); }
            Ok(Top2::Two { x: v, .. }) => { assert!((x == 1 || x == 2) && *v == y && y != 1 && y != 3); reach!(true, "two"); }
            Err(BErr::EnumErrors { pos: 1, variant_errors: v }) => {
                assert!((x == 1 || x == 2) && (y == 1 || y == 3) && v.len() == 2);
                let err = |i: usize, c: u16| matches!(&v[i].1, BErr::Custom { pos: 1, err } if matches!(err.downcast_ref::<Code>(), Some(k) if k.0 == c));
                assert!(err(0, x as u16) && err(1, y as u16), "errors of the variants");
                reach!(true, "none");
            }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
}
