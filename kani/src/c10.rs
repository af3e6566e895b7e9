//! C10: file pointers resolve to offset + pointer and do not disturb sequential reading.
use crate::{harnesses, reach, rd::*, sym};
use binread::{file_ptr::IntoSeekFrom, FilePtr, FilePtr16, FilePtr32, FilePtr64, FilePtr8, FilePtr128};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;
fn c2<const N: usize>(r: &Rd<N>, p: u64, e: Endian) -> u16 { u16e(r.at(p), e) }

/// A pointer of `$w` bytes read by a parent, with any offset and start position from the caller.
macro_rules! width {
    ($p:ty, $w:literal, $n:literal) => {{
        let mut r = Rd::<$n>::over(sym::bytes(), $n, 0);
        let s = sym::upto(2);
        r.pos = s;
        let e = some_endian();
        let mut o = opts(e);
        o.offset = sym::sym_u64();
        let got = <Parent<$p>>::read_options(&mut r, &o, ());
        // the pointer, sign- or zero-extended, as a displacement
        let raw = r.at::<$w>(s + 1);
        let ptr = if is_be(e) { <$p>::from_be_bytes(raw) } else { <$p>::from_le_bytes(raw) };
        let t = o.offset.checked_add_signed(ptr as i64);
        match (&got, t) {
            (Ok(v), Some(t)) => {
                assert!(t <= $n - 2, "target outside of the stream");
                assert!(v.p.ptr == ptr, "pointer value");
                assert!(*v.p == c2(&r, t, e), "target value");
                assert!(v.a == r.b(s) && v.z == r.b(s + 1 + $w) && r.pos == s + 2 + $w, "sequential reading");
                reach!(ptr != 0 && o.offset != 0 && s > 0, "dereferences");
                reach!(t + 2 < s || t > s, "elsewhere");
            }
            (Err(x), t) => {
                assert!(matches!(x, BErr::Io(_)) && r.pos == s, "unreachable target");
                assert!(match t { Some(t) => t > $n - 2, None => true }, "reachable target");
                reach!(t.is_none(), "no such position"); reach!(t.is_some(), "past the end");
            }
            _ => panic!("no position for the target"),
        }
        core::mem::forget(got);
    }};
}
#[derive(BinRead)]
struct Parent<P: BinRead<Args = ()> + IntoSeekFrom> { a: u8, p: FilePtr<P, u16>, z: u8 }

/// Parses `$t` from any start position of a stream of exactly `$n` bytes; all pointers are reachable
/// when `$pre` holds, and the value must then be as `$body` says.
macro_rules! ptrs {
    ($t:ty, $n:literal, $args:expr, |$r:ident, $s:ident, $e:ident| $pre:expr, |$v:ident| $body:expr) => {{
        let mut $r = Rd::<$n>::over(sym::bytes(), $n, 0);
        let $s = sym::upto(2);
        $r.pos = $s;
        let $e = some_endian();
        sym::assume($pre);
        let got = <$t>::read_options(&mut $r, &opts($e), $args);
        match &got {
            Ok($v) => { assert!($body, "targets and sequential values"); reach!($s > 0, "reads"); }
            Err(_) => panic!("every target is reachable"),
        }
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Offsets {
    #[br(offset = 3)] p: FilePtr8<u8>,
    #[br(offset_after = z as u64)] q: FilePtr8<u8>,
    #[br(offset = 1, offset_after = z as u64 + 1)] x: FilePtr8<u8>,
    #[br(big)] y: FilePtr16<u16>,
    z: u8,
}
#[derive(BinRead)]
struct Now { #[br(deref_now, offset = 1)] p: FilePtr8<u8>, #[br(calc = *p)] c: u8, #[br(postprocess_now)] q: FilePtr<i8, u8>, z: u8 }
#[derive(BinRead)]
struct Eager { #[br(parse_with = FilePtr8::parse)] a: u16, #[br(little, offset = 2, parse_with = FilePtr16::parse)] b: u16, #[br(count = 2, parse_with = FilePtr8::parse)] v: Vec<u8>, z: u8 }
#[derive(BinRead)]
struct Nested { p: FilePtr8<FilePtr8<u16>>, z: u8 }
#[derive(BinRead)]
struct Inner { x: u8, #[br(offset = 2)] p: FilePtr8<u8>, y: u8 }
#[derive(BinRead)]
struct Through { #[br(little)] p: FilePtr8<Inner>, q: FilePtr8<Inner>, z: u8 }
#[derive(BinRead)]
struct Counted { #[br(count = 2)] p: FilePtr8<Vec<u16>>, #[br(count = 2)] v: Vec<FilePtr8<u8>>, z: u8 }
#[derive(BinRead)]
#[br(import(k: u8, m: u8))]
struct Target { a: u8, #[br(calc = k)] k: u8, #[br(calc = m)] m: u8 }
#[derive(BinRead)]
struct ArgsOk { h: u8, #[br(args(h, 9))] p: FilePtr8<Target>, #[br(deref_now, args(1, h))] n: FilePtr8<Target>, z: u8 }
#[derive(BinRead)]
enum En { #[br(magic = 1u8)] A { p: FilePtr8<u16>, z: u8 }, B(FilePtr8<u8>, #[br(deref_now)] FilePtr8<u8>) }

harnesses! {
    w8 [6] { width!(u8, 1, 8); width!(i8, 1, 8) }
    w16 [6] { width!(u16, 2, 8); width!(i16, 2, 8) }
    w32 [6] { width!(u32, 4, 8); width!(i32, 4, 8) }
    w64 [9] { width!(u64, 8, 16); width!(i64, 8, 16) }
    w128 [17] {
        let mut r = Rd::<24>::over(sym::bytes(), 24, 0);
        let got = <FilePtr128<u8>>::read_options(&mut r, &opts(B), ());
        let mut got = match got { Ok(x) => x, Err(_) => panic!("pointer") };
        assert!(r.pos == 16 && got.value.is_none());
        let t = u128::from_be_bytes(r.at(0));
        sym::assume(t <= i64::MAX as u128);
        let mut o = opts(L);
        o.offset = sym::upto(24);
        let res = got.after_parse(&mut r, &o, ());
        match &res {
            Ok(()) => { assert!(*got == r.b(o.offset + t as u64) && r.pos == 16); reach!(t > 0 && o.offset > 0, "target"); }
            Err(_) => { assert!(o.offset as u128 + t >= 24); reach!(true, "outside"); }
        }
        core::mem::forget(res);
    }
    offsets [6] { ptrs!(Offsets, 8, (), |r, s, e| r.b(s) <= 4 && r.b(s + 1) <= 3 && r.b(s + 2) <= 2 && r.b(s + 3) == 0 && r.b(s + 4) <= 6 && r.b(s + 5) <= 4, |v| {
        let z = r.b(s + 5) as u64;
        *v.p == r.b(3 + r.b(s) as u64) && *v.q == r.b(z + r.b(s + 1) as u64) && *v.x == r.b(z + 1 + r.b(s + 2) as u64)
            && *v.y == c2(&r, r.b(s + 4) as u64, B) && v.z as u64 == z && r.pos == s + 6
    }) }
    now [6] { ptrs!(Now, 6, (), |r, s, e| r.b(s) <= 4 && r.b(s + 1) <= 5, |v|
        *v.p == r.b(1 + r.b(s) as u64) && v.c == *v.p && *v.q == r.b(r.b(s + 1) as u64) && v.z == r.b(s + 2) && r.pos == s + 3) }
    eager [4] { ptrs!(Eager, 8, (), |r, s, e| r.b(s) <= 6 && r.b(s + 1) <= 4 && r.b(s + 2) == 0 && r.b(s + 3) <= 6, |v| {
        let t = r.b(s + 3) as u64;
        v.a == c2(&r, r.b(s) as u64, e) && v.b == c2(&r, 2 + r.b(s + 1) as u64, L) && v.v.len() == 2 && v.v[0] == r.b(t) && v.v[1] == r.b(t + 1) && v.z == r.b(s + 4) && r.pos == s + 5
    }) }
    nested [6] { ptrs!(Nested, 6, (), |r, s, e| r.b(s) <= 5 && r.b(r.b(s) as u64) <= 4, |v|
        v.p.ptr == r.b(s) && (*v.p).ptr == r.b(r.b(s) as u64) && **v.p == c2(&r, r.b(r.b(s) as u64) as u64, e) && v.z == r.b(s + 1) && r.pos == s + 2) }
    through [6] { ptrs!(Through, 8, (), |r, s, e| r.b(s) <= 5 && r.b(s + 1) <= 5 && r.b(r.b(s) as u64 + 1) <= 5 && r.b(r.b(s + 1) as u64 + 1) <= 5, |v| {
        let (p, q) = (r.b(s) as u64, r.b(s + 1) as u64);
        v.p.x == r.b(p) && *v.p.p == r.b(2 + r.b(p + 1) as u64) && v.p.y == r.b(p + 2) && v.q.x == r.b(q) && *v.q.p == r.b(2 + r.b(q + 1) as u64) && v.q.y == r.b(q + 2) && v.z == r.b(s + 2) && r.pos == s + 3
    }) }
    counted [4] { ptrs!(Counted, 8, (), |r, s, e| r.b(s) <= 4 && r.b(s + 1) <= 7 && r.b(s + 2) <= 7, |v| {
        let p = r.b(s) as u64;
        v.p.len() == 2 && v.p[0] == c2(&r, p, e) && v.p[1] == c2(&r, p + 2, e) && v.v.len() == 2 && *v.v[0] == r.b(r.b(s + 1) as u64) && *v.v[1] == r.b(r.b(s + 2) as u64) && v.z == r.b(s + 3) && r.pos == s + 4
    }) }
    args [6] { ptrs!(ArgsOk, 6, (), |r, s, e| r.b(s + 1) <= 5 && r.b(s + 2) <= 5, |v|
        v.p.a == r.b(r.b(s + 1) as u64) && v.p.k == r.b(s) && v.p.m == 9 && v.n.a == r.b(r.b(s + 2) as u64) && v.n.k == 1 && v.n.m == v.h && v.z == r.b(s + 3) && r.pos == s + 4) }
    variants [6] {
        let mut r = Rd::<6>::over(sym::bytes(), 6, 1);
        let e = some_endian();
        let got = En::read_options(&mut r, &opts(e), ());
        let (t, p, z) = (r.b(1), r.b(2) as u64, r.b(3));
        let a = t == 1 && p <= 4;
        match &got {
            Ok(En::A { p: v, z: y }) => { assert!(a && **v == c2(&r, p, e) && *y == z && r.pos == 4); reach!(true, "a"); }
            Ok(En::B(v, w)) => { assert!(!a && t <= 5 && p <= 5 && **v == r.b(t as u64) && **w == r.b(p) && r.pos == 3); reach!(t == 1, "after a target failed"); reach!(t != 1, "b"); }
            Err(_) => { assert!(!a && (t > 5 || p > 5) && r.pos == 1); reach!(true, "unreachable"); }
        }
        core::mem::forget(got);
    }
    two_steps [6] {
        // read_options reads the pointer only; after_parse the target, and may be repeated
        let mut r = Rd::<8>::over(sym::bytes(), 8, sym::upto(3));
        let s = r.pos;
        let e = some_endian();
        let mut v = match <FilePtr32<u16>>::read_options(&mut r, &opts(e), ()) { Ok(v) => v, Err(_) => panic!("pointer") };
        assert!(r.pos == s + 4 && v.ptr == u32e(r.at(s), e) && v.value.is_none());
        r.pos = sym::sym_u64();
        let p = r.pos;
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        let t = o.offset.checked_add(v.ptr as u64);
        let res = v.after_parse(&mut r, &o, ());
        match &res {
            Ok(()) => { assert!(matches!(t, Some(t) if t <= 6) && *v == c2(&r, t.unwrap(), o.endian) && r.pos == p, "target, position kept"); reach!(p > 8, "kept"); }
            Err(_) => { assert!(!matches!(t, Some(t) if t <= 6)); reach!(true, "unreachable"); }
        }
        core::mem::forget(res);
    }
    values [6] {
        let (a, b) = (sym::sym_u8(), sym::sym_u8());
        let (x, mut y) = (FilePtr::<u8, u8> { ptr: 1, value: Some(a) }, FilePtr::<u8, u8> { ptr: 2, value: Some(b) });
        assert!((x == y) == (a == b) && *x == a, "equality is that of the targets");
        *y = a;
        assert!(x == y && y.into_inner() == a);
        reach!(a != b, "different");
        // the displacement is the pointer as an i64
        let n = sym::sym_u64();
        assert!(matches!(n.into_seek_from(), binread::io::SeekFrom::Current(x) if x == n as i64));
        assert!(matches!((n as i32).into_seek_from(), binread::io::SeekFrom::Current(x) if x == n as i32 as i64));
        assert!(matches!((n as u32).into_seek_from(), binread::io::SeekFrom::Current(x) if x == n as u32 as i64));
        assert!(matches!((n as i16).into_seek_from(), binread::io::SeekFrom::Current(x) if x == n as i16 as i64));
        assert!(matches!((n as i128 - 5).into_seek_from(), binread::io::SeekFrom::Current(x) if x == (n as i64).wrapping_sub(5)));
    }
}
