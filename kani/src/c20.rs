//! C20: arguments and options reach exactly the values they are meant for.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, helpers, io::{Read, Seek, SeekFrom}, FilePtr, FilePtr8, PosValue};

const B: Endian = Endian::Big;

/// One byte that remembers everything it was given.
#[derive(Clone, Copy, Default)]
struct Probe { v: u8, a: u8, b: u16, count: Option<usize>, offset: u64, endian: Endian, late: (u8, u16), done: u8, late_offset: u64 }
impl BinRead for Probe {
    type Args = (u8, u16);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, (a, b): (u8, u16)) -> BinResult<Self> {
        Ok(Probe { v: u8::read_options(r, o, ())?, a, b, count: o.count, offset: o.offset, endian: o.endian, late: (0, 0), done: 0, late_offset: 0 })
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, a: (u8, u16)) -> BinResult<()> {
        self.late = a;
        self.late_offset = o.offset;
        self.done += 1;
        Ok(())
    }
}
impl Probe {
    /// Given exactly this, when read and when post-processed.
    fn is(&self, v: u8, a: u8, b: u16, count: Option<usize>, offset: u64, endian: Endian) -> bool {
        self.v == v && self.a == a && self.b == b && self.count == count && self.offset == offset && self.endian == endian && self.late == (a, b) && self.done == 1 && self.late_offset == offset
    }
}
#[derive(Clone, Copy)]
struct Seen { v: u8, count: Option<usize>, offset: u64, endian: Endian, args: (u8, u8, u32) }
fn parser<R: Read + Seek>(r: &mut R, o: &ReadOptions, args: (u8, u8, u32)) -> BinResult<Seen> {
    Ok(Seen { v: u8::read_options(r, o, ())?, count: o.count, offset: o.offset, endian: o.endian, args })
}

#[derive(BinRead)]
#[br(import(x: u8, y: u16))]
struct Simple {
    #[br(args(x, y))] a: Probe,
    #[br(args(y as u8, x as u16), offset = 5)] b: Probe,
    #[br(args(a.v, b.v as u16), count = 7)] c: Probe,
    #[br(args_tuple = (c.v, y))] d: Probe,
    #[br(calc = (x, y))] e: (u8, u16),
}
#[derive(BinRead)]
#[br(import_tuple(t: (u8, u16)))]
struct TupleArgs { #[br(args_tuple = t)] a: Probe, #[br(args(t.0 ^ 1, t.1), little)] b: Probe, #[br(calc = t)] c: (u8, u16) }
#[derive(BinRead)]
#[br(import(p: u8, q: u16, r: u32, s: i8))]
struct Four { #[br(calc = (p, q, r, s))] all: (u8, u16, u32, i8), z: u8 }
#[derive(BinRead)]
struct Outer {
    k: u8,
    #[br(args(k, 300))] s: Simple,
    #[br(args_tuple = (k ^ 3, 7))] t: TupleArgs,
    #[br(args(s.c.v, t.c.1, s.e.1 as u32 + 1, -4), offset = 9)] f: Four,
}
#[derive(BinRead)]
struct Lists {
    k: u8,
    #[br(count = 2, args(k, 1))] v: Vec<Probe>,
    #[br(args(k ^ 1, 2), offset = 3)] a: [Probe; 2],
    #[br(args(k ^ 2, 3))] o: Option<Probe>,
    #[br(args(k ^ 3, 4))] b: Box<Probe>,
    #[br(args(k ^ 4, 5), offset = 8)] p: PosValue<Probe>,
    #[br(try, args(k ^ 5, 6))] y: Option<Probe>,
}
#[derive(BinRead)]
struct Many {
    k: u8,
    #[br(args(k, 9), parse_with = helpers::until(|p: &Probe| p.v == 0))] u: Vec<Probe>,
    #[br(args(k ^ 1, 8), count = 1)] w: Vec<[Probe; 2]>,
    #[br(args(3, k as u16))] z: Probe,
}
#[derive(BinRead)]
struct Pointers {
    k: u8,
    #[br(args(k, 2))] p: FilePtr8<Probe>,
    #[br(args(k ^ 1, 3), offset = 2, little)] q: FilePtr<u16, Probe>,
    #[br(args(k ^ 2, 4), offset_after = 1)] r: FilePtr8<Probe>,
    #[br(count = 2, args(k ^ 3, 5), deref_now)] s: FilePtr8<Vec<Probe>>,
    #[br(args(k ^ 4, 6), parse_with = FilePtr8::parse, offset = 1)] t: Probe,
    #[br(args(1, 1))] z: Probe,
}
#[derive(BinRead)]
struct Parsers {
    k: u8,
    #[br(args(k, 2, 70000), count = 3, offset = 4, little, parse_with = parser)] a: Seen,
    #[br(args(0, k, 1), parse_with = parser)] b: Seen,
}
#[derive(BinRead)]
#[br(import(x: u8, y: u16))]
enum En {
    #[br(magic = 1u8, pre_assert(x < 4))] A(#[br(args(x, y))] Probe),
    #[br(magic = 1u8)] B { #[br(if(x > 8, y))] a: u16, #[br(args(y as u8, a))] p: Probe },
    #[br(magic = 2u8, assert(x != 5))] C(#[br(calc = x)] u8, #[br(args(self_0, y), count = 1)] Vec<Probe>),
}
#[derive(BinRead)]
#[br(import(n: usize, to: u64, m: i64))]
struct Exprs {
    #[br(count = n)] a: Vec<u8>,
    #[br(pad_before = m)] b: u8,
    #[br(seek_before = SeekFrom::Start(to), restore_position)] c: u8,
    #[br(assert(d as u64 != to))] d: u8,
}
#[derive(BinRead)]
struct Siblings { #[br(count = 2)] a: Vec<Plain>, #[br(offset = 6)] b: Plain, c: Plain }
/// Options without arguments.
#[derive(Clone, Copy)]
struct Plain { v: u8, count: Option<usize>, offset: u64 }
impl BinRead for Plain {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> { Ok(Plain { v: u8::read_options(r, o, ())?, count: o.count, offset: o.offset }) }
}
#[derive_binread]
#[br(import(x: u8))]
struct TempArgs { #[br(temp)] t: u8, #[br(args(t, x as u16))] a: Probe }

fn setup() -> (ReadOptions, Endian, u64, u8, u16) {
    let e = some_endian();
    let mut o = opts(e);
    o.offset = sym::sym_u64();
    (o, e, o.offset, sym::sym_u8(), sym::sym_u16())
}

harnesses! {
    simple [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let (o, e, off, x, y) = setup();
        let got = Simple::read_options(&mut r, &o, (x, y));
        match &got {
            Ok(v) => {
                assert!(v.a.is(r.b(0), x, y, None, off, e) && v.b.is(r.b(1), y as u8, x as u16, None, 5, e) && v.c.is(r.b(2), r.b(0), r.b(1) as u16, Some(7), off, e) && v.d.is(r.b(3), r.b(2), y, None, off, e) && v.e == (x, y));
                assert!(r.pos == 4);
                reach!(x as u16 != y && off != 5, "different");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    tuples [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let (o, e, off, x, y) = setup();
        let got = TupleArgs::read_options(&mut r, &o, (x, y));
        assert!(matches!(&got, Ok(v) if v.a.is(r.b(0), x, y, None, off, e) && v.b.is(r.b(1), x ^ 1, y, None, off, Endian::Little) && v.c == (x, y)));
        let args = (x, y, sym::sym_u32(), sym::sym_u8() as i8);
        let four = Four::read_options(&mut r, &o, args);
        assert!(matches!(&four, Ok(v) if v.all == args && v.z == r.b(2)), "in order");
        reach!(x as u16 != y, "different");
        core::mem::forget((got, four));
    }
    outer [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let (o, e, off, _, _) = setup();
        let got = Outer::read_options(&mut r, &o, ());
        match &got {
            Ok(v) => {
                let k = r.b(0);
                assert!(v.s.a.is(r.b(1), k, 300, None, off, e) && v.s.b.is(r.b(2), 44, k as u16, None, 5, e) && v.s.e == (k, 300), "its own arguments");
                assert!(v.t.a.is(r.b(5), k ^ 3, 7, None, off, e) && v.t.c == (k ^ 3, 7));
                assert!(v.f.all == (r.b(3), 7, 301, -4) && v.f.z == r.b(7));
                reach!(k != 7, "nested");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    lists [5] {
        let mut r = Rd::<16>::over(sym::bytes(), 9, 0);
        let (o, e, off, _, _) = setup();
        let got = Lists::read_options(&mut r, &o, ());
        match &got {
            Ok(v) => {
                let k = r.b(0);
                assert!(v.v.len() == 2 && v.v[0].is(r.b(1), k, 1, None, off, e) && v.v[1].is(r.b(2), k, 1, None, off, e), "every element");
                assert!(v.a[0].is(r.b(3), k ^ 1, 2, None, 3, e) && v.a[1].is(r.b(4), k ^ 1, 2, None, 3, e));
                assert!(matches!(&v.o, Some(p) if p.is(r.b(5), k ^ 2, 3, None, off, e)) && v.b.is(r.b(6), k ^ 3, 4, None, off, e));
                assert!(v.p.is(r.b(7), k ^ 4, 5, None, 8, e) && matches!(&v.y, Some(p) if p.is(r.b(8), k ^ 5, 6, None, off, e)));
                assert!(r.pos == 9);
                reach!(off != 3, "lists");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    many [4] {
        let mut r = Rd::<8>::over(sym::bytes(), 6, 0);
        sym::assume(r.b(1) == 0 || r.b(2) == 0);
        let (o, e, off, _, _) = setup();
        let got = Many::read_options(&mut r, &o, ());
        match &got {
            Ok(v) => {
                let k = r.b(0);
                let n = if r.b(1) == 0 { 1 } else { 2 };
                assert!(v.u.len() == n && v.u[0].a == k && v.u[0].b == 9 && v.u[n - 1].v == 0 && v.u[n - 1].a == k && v.u[n - 1].b == 9 && v.u[n - 1].endian == e);
                let p = 1 + n as u64;
                assert!(v.w.len() == 1 && v.w[0][0].is(r.b(p), k ^ 1, 8, None, off, e) && v.w[0][1].is(r.b(p + 1), k ^ 1, 8, None, off, e));
                assert!(v.z.is(r.b(p + 2), 3, k as u16, None, off, e));
                reach!(n == 2, "two");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    pointers [5] {
        let mut r = Rd::<16>::over(sym::bytes(), 12, 0);
        let e = some_endian();
        sym::assume(r.b(1) < 12 && u16e(r.at(2), Endian::Little) < 9 && r.b(4) < 9 && r.b(5) < 9 && r.b(6) < 9);
        let got = Pointers::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(v) => {
                let k = r.b(0);
                // what a pointer's target is given
                let t = |x: &Probe, at: u64, a: u8, b: u16, off: u64, e: Endian| x.v == r.b(at) && x.a == a && x.b == b && x.offset == off && x.endian == e;
                assert!(t(v.p.value.as_ref().unwrap(), r.b(1) as u64, k, 2, 0, e));
                assert!(t(v.q.value.as_ref().unwrap(), 2 + r.b(2) as u64, k ^ 1, 3, 2, Endian::Little));
                assert!(t(v.r.value.as_ref().unwrap(), 1 + r.b(4) as u64, k ^ 2, 4, 1, e));
                let s = v.s.value.as_ref().unwrap();
                assert!(s.len() == 2 && t(&s[0], r.b(5) as u64, k ^ 3, 5, 0, e) && t(&s[1], r.b(5) as u64 + 1, k ^ 3, 5, 0, e));
                assert!(t(&v.t, 1 + r.b(6) as u64, k ^ 4, 6, 1, e));
                assert!(v.z.is(r.b(7), 1, 1, None, 0, e) && r.pos == 8);
                reach!(r.b(1) == 11, "targets");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    parsers [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let (o, e, off, _, _) = setup();
        let got = Parsers::read_options(&mut r, &o, ());
        match &got {
            Ok(v) => {
                let k = r.b(0);
                assert!(v.a.v == r.b(1) && v.a.args == (k, 2, 70000) && v.a.count == Some(3) && v.a.offset == 4 && v.a.endian == Endian::Little);
                assert!(v.b.v == r.b(2) && v.b.args == (0, k, 1) && v.b.count.is_none() && v.b.offset == off && v.b.endian == e);
                reach!(k != 0, "parsers");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    enums [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        let (o, e, off, x, y) = setup();
        let got = En::read_options(&mut r, &o, (x, y));
        let m = r.b(1);
        match &got {
            Ok(En::A(p)) => { assert!(m == 1 && x < 4 && p.is(r.b(2), x, y, None, off, e)); reach!(true, "a"); }
            Ok(En::B { a, p }) => {
                assert!(m == 1 && x >= 4);
                if x > 8 { assert!(*a == u16e(r.at(2), e) && p.is(r.b(4), y as u8, *a, None, off, e)); } else { assert!(*a == y && p.is(r.b(2), y as u8, y, None, off, e)); }
                reach!(x > 8, "b"); reach!(x == 5, "b, absent");
            }
            Ok(En::C(c, v)) => { assert!(m == 2 && x != 5 && *c == x && v.len() == 1 && v[0].is(r.b(2), x, y, None, off, e)); reach!(true, "c"); }
            Err(_) => { assert!(m != 1 && (m != 2 || x == 5)); reach!(m == 2, "asserted"); }
        }
        core::mem::forget(got);
    }
    expressions [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let n = if sym::flag() { 2 } else { 1 };
        let (to, m) = (sym::upto(9), sym::upto(4) as i64 - 1);
        let got = Exprs::read_options(&mut r, &opts(B), (n, to, m));
        let p = (n as i64 + m) as u64;
        match &got {
            Ok(v) => {
                assert!(to < 8 && v.a.len() == n && v.a[0] == r.b(0) && v.b == r.b(p) && v.c == r.b(to) && v.d == r.b(p + 1) && v.d as u64 != to && r.pos == p + 2);
                reach!(m == -1 && n == 1, "backwards"); reach!(m == 3 && to == 7, "forwards");
            }
            Err(BErr::AssertFail { .. }) => { assert!(to < 8 && r.b(p + 1) as u64 == to); reach!(true, "refused"); }
            Err(_) => { assert!(to >= 8 && is_eof(&got)); reach!(true, "no such place"); }
        }
        core::mem::forget(got);
    }
    siblings [5] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let (mut o, _, off, _, _) = setup();
        if sym::flag() { o.count = Some(9); }
        let got = Siblings::read_options(&mut r, &o, ());
        match &got {
            Ok(v) => {
                assert!(v.a.len() == 2 && v.a[0].count.is_none() && v.a[1].count.is_none() && v.a[1].offset == off);
                assert!(v.b.offset == 6 && v.c.offset == off && v.b.v == r.b(2) && v.c.v == r.b(3));
                assert!(v.b.count != Some(2) && v.c.count != Some(2), "the count of another field");
                reach!(off != 6, "siblings");
            }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
        r.pos = 0;
        let x = sym::sym_u8();
        let got = TempArgs::read_options(&mut r, &o, (x,));
        assert!(matches!(&got, Ok(v) if v.a.v == r.b(1) && v.a.a == r.b(0) && v.a.b == x as u16));
        core::mem::forget(got);
    }
}
