//! C11: post-processing reaches values inside containers and runs once per value.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, io::{Read, Seek}, FilePtr, FilePtr8, PosValue};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

/// Every read and post-processing of a `Probe`, in order.
#[derive(Clone, Copy)]
struct Event { after: bool, id: u8, arg: u8, endian: Endian, offset: u64, pos: u64 }
static mut LOG: [Event; 16] = [Event { after: false, id: 0xa5, arg: 0x5a, endian: Endian::Big, offset: 0, pos: 0 }; 16];
static LEN: sym::Static<usize> = sym::Static::new(0xc11, 0);
fn log(e: Event) {
    unsafe {
        let i = LEN.get();
        assert!(i < 16);
        LOG[i] = e;
        LEN.set(i + 1);
    }
}
fn start() { LEN.set(0) }
fn len() -> usize { LEN.get() }
fn ev(i: usize) -> Event { unsafe { LOG[i] } }

/// One byte that records how it is treated.
#[derive(Clone, Copy, Default)]
struct Probe { v: u8, done: u8 }
impl BinRead for Probe {
    type Args = (u8,);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<Self> {
        let v = u8::read_options(r, o, ())?;
        log(Event { after: false, id: v, arg: a.0, endian: o.endian, offset: o.offset, pos: 0 });
        Ok(Probe { v, done: 0 })
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<()> {
        self.done += 1;
        let pos = binread::io::StreamPosition::stream_pos(r)?;
        log(Event { after: true, id: self.v, arg: a.0, endian: o.endian, offset: o.offset, pos });
        Ok(())
    }
}
/// The same without arguments (tuples take none).
#[derive(Clone, Copy, Default)]
struct Bare(Probe);
impl BinRead for Bare {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> { Ok(Bare(Probe::read_options(r, o, (0,))?)) }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, _: ()) -> BinResult<()> { self.0.after_parse(r, o, (0,)) }
}

/// Calls after_parse of the wrapper itself: `$n` values, post-processed once each, in order.
macro_rules! wrapper {
    ($t:ty, $n:literal, $args:expr, $arg:expr, |$v:ident, $i:ident| $get:expr) => {{
        start();
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        let mut c = o;
        c.count = Some($n);
        let got = <$t>::read_options(&mut r, &c, $args);
        let mut $v = match got { Ok(v) => v, Err(_) => panic!("must parse") };
        assert!(len() == $n && r.pos == $n);
        let res = $v.after_parse(&mut r, &o, $args);
        assert!(res.is_ok() && len() == 2 * $n, "once per value");
        let mut $i = 0;
        while $i < $n {
            let x = ev($n + $i);
            assert!(x.after && x.id == r.b($i as u64) && x.endian == o.endian && x.offset == o.offset && x.arg == $arg, "in order, with the options and arguments");
            let p: Probe = $get;
            assert!(p.v == x.id && p.done == 1, "the contained value itself");
            $i += 1;
        }
        reach!(o.offset != 0, "post-processed");
        core::mem::forget(($v, res));
    }};
}

/// Parses a derived `$t`: its `$n` probes are post-processed in order of reading, after all reads.
macro_rules! derived {
    ($t:ty, $n:literal, |$i:ident| ($e:expr, $off:expr, $arg:expr)) => {{
        start();
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        let got = <$t>::read_options(&mut r, &o, ());
        assert!(got.is_ok() && r.pos == 1 + $n && len() == 2 * $n, "once per value");
        let mut $i = 0;
        while $i < $n {
            let (x, y) = (ev($i), ev($n + $i));
            assert!(!x.after && x.id == r.b(1 + $i as u64), "reads in order");
            let (e, off, arg): (Option<Endian>, Option<u64>, u8) = ($e, $off, $arg);
            assert!(y.after && y.id == x.id && y.endian == e.unwrap_or(o.endian) && y.offset == off.unwrap_or(o.offset) && y.arg == arg, "post-processing in order, with the field's options and arguments");
            assert!(x.arg == arg && x.endian == y.endian, "same arguments as the read");
            $i += 1;
        }
        reach!(o.offset != 0, "parsed");
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Fields {
    #[br(big, args(1))] a: Probe,
    #[br(little, offset = 7, args(2))] b: Option<Probe>,
    #[br(offset_after = 9, args(3))] c: Box<Probe>,
    #[br(args(4), count = 2)] d: Vec<Probe>,
}
#[derive(BinRead)]
struct Fields2 {
    #[br(big, args(1))] a: PosValue<Probe>,
    #[br(args(2))] b: [Probe; 2],
    #[br(try, args(3))] c: Option<Probe>,
    #[br(offset = 5)] d: (Bare, Bare),
    #[br(args(4), if(true, Probe::default()))] e: Probe,
}
#[derive(BinRead)]
struct Sub { #[br(args(5))] p: Probe }
#[derive(BinRead)]
struct Nest { #[br(args(1))] a: Probe, s: Sub, o: Option<Sub>, #[br(args(2), deref_now)] n: Probe, #[br(args(3))] z: Probe }
#[derive(BinRead)]
enum En { #[br(magic = 1u8)] A(#[br(args(1))] Probe, #[br(args(2))] Probe), B { #[br(args(3), big)] p: Probe } }
#[derive_binread]
struct Temp { #[br(temp, args(1))] t: Probe, #[br(calc = t.v)] c: u8, #[br(args(2))] a: Probe }
#[derive(BinRead)]
struct NoPost { #[br(args(1), map = |p: Probe| p.v)] m: u8, #[br(default)] d: Bare, #[br(args(2))] a: Probe }

#[derive(BinRead)]
struct Wraps {
    o: Option<FilePtr8<u8>>, b: Box<FilePtr8<u8>>, #[br(count = 1)] v: Vec<FilePtr8<u8>>, a: [Option<P8>; 1], t: (FilePtr8<u8>, P8), p: PosValue<FilePtr8<u8>>, #[br(try)] y: Option<FilePtr8<u8>>, z: u8,
}
#[derive(BinRead)]
struct P8 { p: FilePtr8<u8> }
#[derive(BinRead)]
struct Mixed { #[br(offset = 1)] o: Option<Box<FilePtr8<u8>>>, #[br(offset_after = z as u64)] t: (u8, PosValue<FilePtr8<u8>>), #[br(try, deref_now, offset = 2)] y: Option<FilePtr8<u8>>, z: u8 }
#[derive(BinRead)]
struct Bits { b: Box<FilePtr8<u8>>, t: (FilePtr8<u8>, P8), y: PosValue<FilePtr8<u8>>, z: u8 }

harnesses! {
    wrap_one [6] {
        let a = sym::sym_u8();
        wrapper!(Probe, 1, (a,), a, |v, i| v);
        wrapper!(Option<Probe>, 1, (a,), a, |v, i| match &v { Some(p) => *p, None => panic!("none") });
        wrapper!(Box<Probe>, 1, (a,), a, |v, i| *v);
        wrapper!(PosValue<Probe>, 1, (a,), a, |v, i| v.val);
        wrapper!(Box<Option<PosValue<Box<Probe>>>>, 1, (a,), a, |v, i| match &*v { Some(p) => *p.val, None => panic!("none") });
    }
    wrap_many [6] {
        let a = sym::sym_u8();
        wrapper!([Probe; 3], 3, (a,), a, |v, i| v[i]);
        wrapper!((Bare,), 1, (), 0, |v, i| v.0.0);
        wrapper!((Bare, Bare, [Bare; 1], Bare), 4, (), 0, |v, i| match i { 0 => v.0.0, 1 => v.1.0, 2 => v.2[0].0, _ => v.3.0 });
    }
    wrap_vec [4] {
        let a = sym::sym_u8();
        wrapper!(Vec<Probe>, 3, (a,), a, |v, i| v[i]);
    }
    wrap_vec_nested [4] {
        let a = sym::sym_u8();
        wrapper!(Vec<Option<[Box<Probe>; 1]>>, 2, (a,), a, |v, i| match &v[i] { Some(p) => *p[0], None => panic!("none") });
    }
    fields [6] { derived!(Fields, 5, |i| (match i { 0 => Some(B), 1 => Some(L), _ => None }, match i { 1 => Some(7), 2 => Some(9), _ => None }, match i { 0 => 1, 1 => 2, 2 => 3, _ => 4 })) }
    fields2 [8] { derived!(Fields2, 7, |i| (if i == 0 { Some(B) } else { None }, if i == 4 || i == 5 { Some(5) } else { None }, match i { 0 => 1, 1 | 2 => 2, 3 => 3, 4 | 5 => 0, _ => 4 })) }
    nested [8] {
        start();
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        let got = Nest::read_options(&mut r, &opts(some_endian()), ());
        assert!(got.is_ok() && len() == 10 && r.pos == 6, "once per value");
        // read a; read s, post s; read o, post o; read n, post n; read z; post a, post z
        let want: [(bool, u64, u8); 10] = [(false, 1, 1), (false, 2, 5), (true, 2, 5), (false, 3, 5), (true, 3, 5), (false, 4, 2), (true, 4, 2), (false, 5, 3), (true, 1, 1), (true, 5, 3)];
        macro_rules! ck { ($($i:literal)*) => { $(let x = ev($i); assert!(x.after == want[$i].0 && x.id == r.b(want[$i].1) && x.arg == want[$i].2, "order");)* } }
        ck!(0 1 2 3 4 5 6 7 8 9);
        reach!(true, "nested");
        core::mem::forget(got);
    }
    variants [6] {
        start();
        let mut r = Rd::<8>::over(sym::bytes(), 8, 1);
        let e = some_endian();
        let got = En::read_options(&mut r, &opts(e), ());
        match &got {
            Ok(En::A(a, b)) => { assert!(len() == 4 && ev(2).after && ev(2).arg == 1 && ev(3).after && ev(3).arg == 2 && a.done == 1 && b.done == 1 && a.v == r.b(2) && b.v == r.b(3)); reach!(true, "a"); }
            Ok(En::B { p }) => { assert!(len() == 2 && ev(1).after && ev(1).arg == 3 && ev(1).endian == B && p.done == 1 && p.v == r.b(1)); reach!(true, "b"); }
            Err(_) => panic!("must parse"),
        }
        core::mem::forget(got);
    }
    temp_and_generated [6] {
        start();
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let got = Temp::read_options(&mut r, &opts(some_endian()), ());
        assert!(got.is_ok() && len() == 4 && ev(2).after && ev(2).arg == 1 && ev(3).after && ev(3).arg == 2, "temporary fields too");
        core::mem::forget(got);
        start();
        r.pos = 0;
        let got = NoPost::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(v) => assert!(v.m == r.b(0) && v.a.done == 1 && v.d.0.done == 0 && len() == 3 && ev(2).after && ev(2).arg == 2, "neither mapped nor default fields"),
            Err(_) => panic!("must parse"),
        }
        reach!(true, "parsed");
        core::mem::forget(got);
    }
    pointers [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        sym::assume(r.b(0) < 8 && r.b(1) < 8 && r.b(2) < 8 && r.b(3) < 8);
        let got = Bits::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(v) => {
                let t = |i| r.b(r.b(i) as u64);
                assert!(v.b.value == Some(t(0)) && v.t.0.value == Some(t(1)) && v.t.1.p.value == Some(t(2)) && v.y.val.value == Some(t(3)) && v.y.pos == 3 && v.z == r.b(4) && r.pos == 5, "dereferenced inside wrappers");
                reach!(true, "pointers");
            }
            Err(_) => panic!("reachable"),
        }
        core::mem::forget(got);
    }
    pointers_options [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        sym::assume(r.b(0) < 7 && r.b(2) <= 3 && r.b(4) <= 4 && r.b(3) < 6);
        let got = Mixed::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(v) => {
                let z = r.b(4) as u64;
                assert!(matches!(&v.o, Some(p) if p.value == Some(r.b(1 + r.b(0) as u64))), "offset");
                assert!(v.t.0 == r.b(1) && v.t.1.val.value == Some(r.b(z + r.b(2) as u64)) && v.t.1.pos == 2, "offset_after");
                assert!(matches!(&v.y, Some(p) if p.value == Some(r.b(2 + r.b(3) as u64))), "try, deref_now");
                assert!(v.z == r.b(4) && r.pos == 5);
                reach!(z > 0, "pointers");
            }
            Err(_) => panic!("reachable"),
        }
        core::mem::forget(got);
    }
    all_wrappers [4] {
        let mut r = Rd::<16>::over(sym::bytes(), 16, 0);
        sym::assume(r.b(0) < 16 && r.b(1) < 16 && r.b(2) < 16 && r.b(3) < 16 && r.b(4) < 16 && r.b(5) < 16 && r.b(6) < 16 && r.b(7) < 16);
        let got = Wraps::read_options(&mut r, &opts(some_endian()), ());
        match &got {
            Ok(v) => {
                let t = |i| Some(r.b(r.b(i) as u64));
                assert!(matches!(&v.o, Some(p) if p.value == t(0)) && v.b.value == t(1) && v.v[0].value == t(2) && matches!(&v.a[0], Some(p) if p.p.value == t(3)));
                assert!(v.t.0.value == t(4) && v.t.1.p.value == t(5) && v.p.val.value == t(6) && matches!(&v.y, Some(p) if p.value == t(7)) && v.z == r.b(8) && r.pos == 9);
                reach!(true, "pointers");
            }
            Err(_) => panic!("reachable"),
        }
        core::mem::forget(got);
    }
}
