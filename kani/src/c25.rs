//! C25: PosValue records where its value began and is otherwise transparent.
use crate::{harnesses, reach, rd::*, sym};
use binread::{helpers, io::{Read, Seek, SeekFrom}, punctuated::Punctuated, FilePtr, FilePtr8, NullString, PosValue};
use core::ops::DerefMut;

/// PosValue<T> and T from the same place of the same stream, one operation of which may fail.
macro_rules! alike {
    ($t:ty, $n:literal, $maxpos:literal, |$o:ident| $set:block, $args:expr, |$v:ident, $w:ident| $eq:expr) => {{
        let mut r = Rd::<$n>::any_at($maxpos);
        let mut q = Rd::<$n>::over(r.data, r.len, r.pos);
        let s = r.pos;
        let mut $o = opts(some_endian());
        $set
        let args = $args;
        let got = <PosValue<$t>>::read_options(&mut r, &$o, args);
        let alone = <$t>::read_options(&mut q, &$o, args);
        assert!(r.pos == q.pos && r.high == q.high, "same bytes");
        match (&got, &alone) {
            (Ok(p), Ok($w)) => { let $v = &p.val; assert!($eq, "same value"); assert!(p.pos == s, "where it began"); reach!(s == $maxpos, "value"); }
            (Err(BErr::Io(a)), Err(BErr::Io(b))) => { assert!(a.kind() == b.kind()); }
            (Err(a), Err(b)) => assert!(core::mem::discriminant(a) == core::mem::discriminant(b), "same error"),
            _ => panic!("one fails and the other does not"),
        }
        reach!(got.is_err() && s == $maxpos, "fails");
        core::mem::forget((got, alone));
    }};
    ($t:ty, $n:literal, $maxpos:literal) => { alike!($t, $n, $maxpos, |o| { let _ = &mut o; }, (), |v, w| *v == *w) };
}

/// Remembers everything it was given.
#[derive(Clone, Copy, PartialEq, Default)]
struct Probe { v: u8, args: (u8, u16), count: Option<usize>, offset: u64, done: u8, late: (u8, u16), late_offset: u64, late_count: Option<usize>, at: u64 }
impl BinRead for Probe {
    type Args = (u8, u16);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, args: (u8, u16)) -> BinResult<Self> {
        let v = u8::read_options(r, o, ())?;
        if v == 9 { return Err(BErr::NoVariantMatch { pos: 3 }); }
        Ok(Probe { v, args, count: o.count, offset: o.offset, ..Default::default() })
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: (u8, u16)) -> BinResult<()> {
        self.late = a;
        self.late_offset = o.offset;
        self.late_count = o.count;
        self.done += 1;
        self.at = r.seek(SeekFrom::Current(0))?;
        if self.v == 8 { return Err(BErr::NoVariantMatch { pos: 4 }); }
        Ok(())
    }
}
#[derive(BinRead, PartialEq)]
#[br(magic = 0x0102u16)]
struct Sub { #[br(assert(a != 3))] a: u8, b: u16 }
#[derive(BinRead, PartialEq)]
enum En { #[br(magic = 1u8)] A(u16), B { #[br(assert(x > 4))] x: u8 } }

#[derive(BinRead)]
struct Places {
    a: PosValue<u8>,
    #[br(pad_before = 2)] b: PosValue<u16>,
    #[br(align_before = 4)] c: PosValue<u8>,
    #[br(restore_position)] d: PosValue<u8>,
    e: PosValue<PosValue<u8>>,
    #[br(little, magic = 7u8)] f: PosValue<u16>,
}
#[derive(BinRead)]
struct Many { #[br(count = 2)] v: Vec<PosValue<u16>>, a: (PosValue<i8>, PosValue<i8>), t: (u8, PosValue<u8>), o: Option<PosValue<u8>>, b: Box<PosValue<u8>> }
#[derive(BinRead)]
struct Lists {
    #[br(parse_with = helpers::until(|x: &PosValue<u8>| x.pos == 3))] u: Vec<PosValue<u8>>,
    #[br(parse_with = helpers::count(2))] c: Vec<PosValue<u8>>,
    #[br(count = 2, parse_with = Punctuated::separated)] p: Punctuated<PosValue<u8>, PosValue<u8>>,
}
#[derive(BinRead)]
struct Behind { #[br(offset = 1)] p: FilePtr8<PosValue<u16>>, q: PosValue<FilePtr8<PosValue<u8>>>, #[br(offset_after = z.pos)] r: PosValue<FilePtr<i8, PosValue<u8>>>, z: PosValue<u8> }
#[derive(BinRead)]
struct Args { k: u8, #[br(args(k, 5), offset = 4, count = 6)] p: PosValue<Probe>, #[br(try, args(k, 6))] t: Option<PosValue<Probe>> }

harnesses! {
    u32_ [6] { alike!(u32, 8, 3); }
    sub [6] { alike!(Sub, 8, 2); }
    en [6] { alike!(En, 8, 2); }
    array [6] { alike!([u16; 2], 8, 2); }
    boxed [6] { alike!(Box<PosValue<u16>>, 8, 2, |o| { let _ = &mut o; }, (), |v, w| v.val == w.val && v.pos == w.pos); }
    list [4] { alike!(Vec<u16>, 8, 1, |o| { o.count = Some(2); }, (), |v, w| v.len() == 2 && w.len() == 2 && v[0] == w[0] && v[1] == w[1]); }
    pointer [4] { alike!(FilePtr8<u16>, 8, 2, |o| { o.offset = 1; }, (), |v, w| v.ptr == w.ptr && v.value.is_none()); }
    passed [6] {
        let args = (sym::sym_u8(), sym::sym_u16());
        alike!(Probe, 8, 2, |o| { o.offset = sym::sym_u64(); o.count = if sym::flag() { Some(sym::sym_u64() as usize) } else { None }; }, args, |v, w| *v == *w);
    }
    post [6] {
        let mut r = Rd::<8>::any_at(2);
        let s = r.pos;
        let args = (sym::sym_u8(), sym::sym_u16());
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        o.count = if sym::flag() { Some(sym::sym_u64() as usize) } else { None };
        let got = binread::error::read_options_then_after_parse::<_, PosValue<Probe>, _>(&mut r, &o, args);
        match &got {
            Ok(p) => { assert!(p.pos == s && p.val.late == args && p.val.late_offset == o.offset && p.val.late_count == o.count && p.val.done == 1 && p.val.at == s + 1 && p.val.args == args); reach!(s == 2, "post-processed"); }
            Err(BErr::NoVariantMatch { pos }) => { assert!(*pos == if r.b(s) == 9 { 3 } else { 4 }); reach!(*pos == 4, "its post-processing fails"); reach!(*pos == 3, "it fails"); }
            Err(_) => assert!(!r.has(s, 1)),
        }
        core::mem::forget(got);
    }
    places [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 16, 0);
        r.pos = sym::upto(3);
        let (s, e) = (r.pos, some_endian());
        let c = (s + 5 + 3) / 4 * 4;
        sym::assume(r.b(c + 2) == 7);
        let got = Places::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(p) => {
                assert!(p.a.pos == s && *p.a == r.b(s));
                assert!(p.b.pos == s + 3 && *p.b == u16e(r.at(s + 3), e), "after padding");
                assert!(p.c.pos == c && *p.c == r.b(c), "after alignment");
                assert!(p.d.pos == c + 1 && *p.d == r.b(c + 1), "before going back");
                assert!(p.e.pos == c + 1 && p.e.val.pos == c + 1 && **p.e == r.b(c + 1), "nested");
                assert!(p.f.pos == c + 3 && *p.f == u16e(r.at(c + 3), Endian::Little), "after the magic");
                reach!(s == 3 && p.b.val != 0, "places");
            }
            Err(_) => panic!("enough data"),
        }
        core::mem::forget(got);
    }
    many [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 16, 2);
        let e = some_endian();
        let got = Many::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(m) => {
                assert!(m.v.len() == 2 && m.v[0].pos == 2 && m.v[1].pos == 4 && *m.v[0] == u16e(r.at(2), e) && *m.v[1] == u16e(r.at(4), e));
                assert!(m.a.0.pos == 6 && m.a.1.pos == 7 && *m.a.1 == r.b(7) as i8);
                assert!(m.t.1.pos == 9 && *m.t.1 == r.b(9));
                assert!(m.o.as_ref().unwrap().pos == 10 && m.b.pos == 11 && **m.b == r.b(11) && r.pos == 12);
                reach!(true, "many");
            }
            Err(_) => panic!("enough data"),
        }
        core::mem::forget(got);
    }
    lists [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 16, 2);
        let got = Lists::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(m) => {
                assert!(m.u.len() == 2 && m.u[0].pos == 2 && m.u[1].pos == 3 && *m.u[1] == r.b(3));
                assert!(m.c.len() == 2 && m.c[0].pos == 4 && m.c[1].pos == 5);
                assert!(m.p.len() == 2 && m.p[0].pos == 6 && m.p.seperators[0].pos == 7 && m.p[1].pos == 8 && *m.p[1] == r.b(8) && r.pos == 9);
                reach!(true, "lists");
            }
            Err(_) => panic!("enough data"),
        }
        core::mem::forget(got);
    }
    behind [6] {
        let mut r = Rd::<16>::over(sym::bytes(), 12, 2);
        sym::assume(r.b(2) < 10 && r.b(3) < 12 && r.b(4) < 4);
        let e = some_endian();
        let got = Behind::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(b) => {
                let (p, q, t) = (1 + r.b(2) as u64, r.b(3) as u64, 5 + r.b(4) as u64);
                assert!(b.p.pos == p && b.p.val == u16e(r.at(p), e), "behind a pointer");
                assert!(b.q.pos == 3 && (**b.q).pos == q && ***b.q == r.b(q), "around and behind a pointer");
                assert!(b.r.pos == 4 && (**b.r).pos == t && ***b.r == r.b(t), "relative to a later field");
                assert!(b.z.pos == 5 && r.pos == 6);
                reach!(p == 9 && q == 0, "behind");
            }
            Err(_) => panic!("enough data"),
        }
        core::mem::forget(got);
    }
    args [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        let k = r.b(1);
        let got = Args::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(a) => {
                let p = &a.p;
                assert!(p.pos == 2 && p.val.args == (k, 5) && p.late == (k, 5) && p.count == Some(6) && p.offset == 4 && p.late_offset == 4 && p.done == 1);
                match &a.t { Some(t) => { assert!(t.pos == 3 && t.val.args == (k, 6) && t.done == 1 && t.count.is_none()); reach!(true, "some"); } None => { assert!(r.b(3) == 9 && r.pos == 3); reach!(true, "none"); } }
            }
            Err(BErr::NoVariantMatch { .. }) => { assert!(r.b(2) == 9 || r.b(2) == 8 || r.b(3) == 8); }
            Err(_) => panic!("wrong error"),
        }
        core::mem::forget(got);
    }
    value [6] {
        let (x, y, p) = (sym::sym_u32(), sym::sym_u32(), sym::sym_u64());
        let mut a = PosValue { val: x, pos: p };
        let b = a.clone();
        assert!(b.val == x && b.pos == p && *b == x, "clone");
        assert!((a == y) == (x == y) && (a != y) == (x != y), "equality of the value");
        *a = y;
        assert!(a.val == y && a.pos == p && b.val == x, "assignment goes to the value");
        *a.deref_mut() = x;
        assert!(a == x);
        reach!(x == y, "equal"); reach!(x != y, "different");
    }
}
