//! C29: all reading entry points agree.
use crate::{harnesses, reach, rd::*, sym};
use binread::{derive_binread, helpers, io::{Read, Seek, SeekFrom, StreamPosition}, FilePtr, FilePtr8, NullString};

fn same_err(a: &BErr, b: &BErr) -> bool {
    match (a, b) {
        (BErr::Io(a), BErr::Io(b)) => a.kind() == b.kind(),
        (BErr::AssertFail { pos: p, .. }, BErr::AssertFail { pos: q, .. }) | (BErr::BadMagic { pos: p, .. }, BErr::BadMagic { pos: q, .. })
        | (BErr::NoVariantMatch { pos: p }, BErr::NoVariantMatch { pos: q }) | (BErr::Custom { pos: p, .. }, BErr::Custom { pos: q, .. })
        | (BErr::EnumErrors { pos: p, .. }, BErr::EnumErrors { pos: q, .. }) => p == q,
        _ => false,
    }
}

/// `$call` on a reader in any state, against read_options (and after_parse, unless `read`).
macro_rules! agree {
    ($t:ty, $n:literal, $e:expr, $args:expr, $post:literal, |$r:ident| $call:expr, |$v:ident, $w:ident| $eq:expr) => {{
        let mut $r = Rd::<8>::over(sym::bytes(), sym::upto($n), sym::upto(1)).faulty();
        $r.kind = some_kind();
        let mut q = Rd::<8>::over($r.data, $r.len, $r.pos);
        q.fault_at = $r.fault_at;
        q.kind = $r.kind;
        let args = $args;
        let o = opts($e);
        let want = match <$t>::read_options(&mut q, &o, args) {
            Ok(mut v) if $post => match v.after_parse(&mut q, &o, args) { Ok(()) => Ok(v), Err(e) => Err(e) },
            x => x,
        };
        let got: BinResult<$t> = $call;
        assert!($r.pos == q.pos && $r.ops == q.ops, "same position, same operations");
        match (&got, &want) {
            (Ok($v), Ok($w)) => assert!($eq, "same value"),
            (Err(a), Err(b)) => assert!(same_err(a, b), "same error"),
            _ => panic!("one fails and the other does not"),
        }
        reach!(got.is_ok() && $r.pos > 1, "value");
        reach!(got.is_err(), "error");
        core::mem::forget((got, want));
    }};
}
/// The three named byte orders and the general form.
macro_rules! ext {
    ($t:ty, $n:literal, |$v:ident, $w:ident| $eq:expr) => {{
        let e = some_endian();
        let k = sym::upto(1);
        agree!($t, $n, e, (), true, |r| match (k, e) {
            (0, _) => r.read_type(e),
            (_, Endian::Big) => r.read_be(),
            (_, Endian::Little) => r.read_le(),
            _ => r.read_ne(),
        }, |$v, $w| $eq);
    }};
}
macro_rules! ext_args {
    ($t:ty, $n:literal, $args:expr, |$v:ident, $w:ident| $eq:expr) => {{
        let e = some_endian();
        let k = sym::upto(1);
        let a = $args;
        agree!($t, $n, e, a, true, |r| match (k, e) {
            (0, _) => r.read_type_args(e, a),
            (_, Endian::Big) => r.read_be_args(a),
            (_, Endian::Little) => r.read_le_args(a),
            _ => r.read_ne_args(a),
        }, |$v, $w| $eq);
    }};
}

/// Remembers everything it was given.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Seen { e: Endian, c: Option<usize>, o: u64, a: u16, pos: u64 }
#[derive(Clone, Copy, PartialEq)]
struct Probe<A> { v: u8, first: Option<Seen>, late: Option<Seen>, _a: core::marker::PhantomData<A> }
trait Arg: Copy + 'static { fn num(self) -> u16; }
impl Arg for () { fn num(self) -> u16 { 77 } }
impl Arg for (u8, u16) { fn num(self) -> u16 { self.1 ^ self.0 as u16 } }
impl<A: Arg> BinRead for Probe<A> {
    type Args = A;
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: A) -> BinResult<Self> {
        let pos = r.stream_pos()?;
        let v = u8::read_options(r, &o, ())?;
        if v == 9 { return Err(BErr::NoVariantMatch { pos }); }
        Ok(Probe { v, first: Some(Seen { e: o.endian, c: o.count, o: o.offset, a: a.num(), pos }), late: None, _a: core::marker::PhantomData })
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: A) -> BinResult<()> {
        assert!(self.late.is_none(), "post-processed once");
        let pos = r.stream_pos()?;
        self.late = Some(Seen { e: o.endian, c: o.count, o: o.offset, a: a.num(), pos });
        if self.v == 8 { return Err(BErr::NoVariantMatch { pos }); }
        Ok(())
    }
}
fn seen(p: &Option<Seen>, q: &Option<Seen>) -> bool {
    match (p, q) {
        (Some(a), Some(b)) => a.e == b.e && a.c == b.c && a.o == b.o && a.a == b.a && a.pos == b.pos,
        (None, None) => true,
        _ => false,
    }
}
#[derive(BinRead)]
struct Rec { a: u8, #[br(assert(b != 0x0101))] b: u16, p: FilePtr8<u16> }
#[derive(BinRead)]
#[br(import(n: u8, k: u16))]
struct WithArgs { #[br(assert(a != n))] a: u8, #[br(calc = k)] k: u16, b: u16, #[br(offset = n as u64)] p: FilePtr8<i16> }
#[derive(BinRead)]
enum En { #[br(magic = 1u8)] A(u16), B { #[br(assert(x > 4))] x: u8 } }
#[derive(BinRead)]
#[br(big)]
struct Fixed { x: u16, #[br(little)] y: u16 }
#[derive_binread]
#[br(import_tuple(t: (u8, u8)))]
struct Tup { #[br(temp)] a: u8, #[br(calc = a ^ t.0, assert(b != t.1))] b: u8, #[br(args(t.0, 3))] c: Probe<(u8, u16)> }

harnesses! {
    probe [4] { ext!(Probe<()>, 3, |v, w| v.v == w.v && seen(&v.first, &w.first) && seen(&v.late, &w.late)); }
    probe_args [4] { ext_args!(Probe<(u8, u16)>, 3, (sym::sym_u8(), sym::sym_u16()), |v, w| v.v == w.v && seen(&v.first, &w.first) && seen(&v.late, &w.late)); }
    integers [5] { ext!(u16, 4, |v, w| *v == *w); ext!(i32, 6, |v, w| *v == *w); ext!((u8, u16), 4, |v, w| *v == *w); }
    record [5] { ext!(Rec, 6, |v, w| v.a == w.a && v.b == w.b && v.p.ptr == w.p.ptr && *v.p == *w.p); }
    record_args [5] { ext_args!(WithArgs, 6, (sym::sym_u8(), sym::sym_u16()), |v, w| v.a == w.a && v.b == w.b && v.k == w.k && *v.p == *w.p); }
    tuple_args [5] { ext_args!(Tup, 4, (sym::sym_u8(), sym::sym_u8()), |v, w| v.b == w.b && v.c.v == w.c.v && seen(&v.c.first, &w.c.first) && seen(&v.c.late, &w.c.late)); }
    data_enum [5] { ext!(En, 4, |v, w| match (v, w) { (En::A(x), En::A(y)) => x == y, (En::B { x }, En::B { x: y }) => x == y, _ => false }); }
    fixed [5] { ext!(Fixed, 6, |v, w| v.x == w.x && v.y == w.y); }
    // BinRead::read and read_args: default options, no post-processing of their own.
    provided [5] {
        let k = sym::upto(1);
        agree!(Probe<()>, 3, Endian::Native, (), false, |r| if k == 0 { Probe::<()>::read(&mut r) } else { Probe::<()>::read_args(&mut r, ()) }, |v, w| v.v == w.v && seen(&v.first, &w.first) && v.late.is_none());
        agree!(Rec, 6, Endian::Native, (), false, |r| if k == 0 { Rec::read(&mut r) } else { Rec::read_args(&mut r, ()) }, |v, w| v.a == w.a && v.b == w.b && *v.p == *w.p);
        let a = (sym::sym_u8(), sym::sym_u16());
        agree!(Probe<(u8, u16)>, 3, Endian::Native, a, false, |r| Probe::read_args(&mut r, a), |v, w| v.v == w.v && seen(&v.first, &w.first) && v.late.is_none());
        agree!(WithArgs, 6, Endian::Native, a, false, |r| WithArgs::read_args(&mut r, a), |v, w| v.a == w.a && v.b == w.b && v.k == w.k && *v.p == *w.p);
    }
    // The free function used by generated code, with any options.
    then_after [5] {
        let mut r = Rd::<8>::over(sym::bytes(), sym::upto(4), 1);
        let mut o = opts(some_endian());
        o.offset = sym::sym_u64();
        if sym::flag() { o.count = Some(sym::sym_u64() as usize); }
        let a = (sym::sym_u8(), sym::sym_u16());
        let got = binread::error::read_options_then_after_parse::<_, Probe<(u8, u16)>, _>(&mut r, &o, a);
        match &got {
            Ok(v) => {
                let want = Seen { e: o.endian, c: o.count, o: o.offset, a: a.num(), pos: 1 };
                assert!(r.has(1, 1) && v.v == r.b(1) && v.v != 8 && v.v != 9 && r.pos == 2);
                assert!(seen(&v.first, &Some(want)) && seen(&v.late, &Some(Seen { pos: 2, ..want })), "the same options and arguments both times");
            }
            Err(BErr::NoVariantMatch { pos }) => assert!(r.has(1, 1) && (r.b(1) == 9 && *pos == 1 || r.b(1) == 8 && *pos == 2)),
            Err(e) => assert!(!r.has(1, 1) && matches!(e, BErr::Io(_))),
        }
        reach!(got.is_ok() && o.count.is_some(), "value");
        core::mem::forget(got);
    }
    defaults [3] {
        let o = ReadOptions::default();
        assert!(o.endian == Endian::Native && o.count.is_none() && o.offset == 0 && Endian::default() == Endian::Native, "default options");
        assert!(<Probe<()>>::args_default().is_some() && <Probe<(u8, u16)>>::args_default().is_none() && u8::args_default().is_some() && <WithArgs as BinRead>::args_default().is_none(), "only types without arguments have default ones");
        reach!(o.count.is_none(), "defaults");
    }
}
