//! C04: byte order directives obey the documented precedence.
use crate::{harnesses, reach, rd::*, sym};
use binread::{io::{Read, Seek}, FilePtr, NullWideString, PosValue};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

/// Parses `$t` with every caller order over every stream of exactly `$n` bytes and hands the
/// reader, the caller's order and the value to `$check`.
macro_rules! orders {
    ($t:ty, $n:literal, $args:expr, |$r:ident, $e:ident, $v:ident| $check:block) => {{
        let mut $r = Rd::<$n>::over(sym::bytes(), $n, 0);
        let $e = some_endian();
        let o = opts($e);
        match <$t>::read_options(&mut $r, &o, $args) {
            Ok($v) => {
                $check;
                assert!(o.endian == $e, "options untouched");
                reach!($e == L, "caller little");
                reach!($e == B, "caller big");
                core::mem::forget($v);
            }
            Err(x) => { core::mem::forget(x); panic!("must parse") }
        }
    }};
}
fn c2<const N: usize>(r: &Rd<N>, p: u64, e: Endian) -> u16 {
    u16e(r.at(p), e)
}

#[derive(BinRead)]
struct Fields { a: u16, #[br(big)] b: u16, #[br(little)] c: u16, d: u16 }
#[derive(BinRead)]
#[br(big)]
struct TopBig { a: u16, #[br(little)] b: u16, #[br(is_big = a == 1)] c: u16, d: u16 }
#[derive(BinRead)]
#[br(little)]
struct TopLittle(u16, #[br(big)] u16, u16);
#[derive(BinRead)]
struct Cond { f: u8, #[br(is_big = f & 1 == 1)] a: u16, #[br(is_little = f & 2 == 2)] b: u16, c: u16 }
#[derive(BinRead)]
#[br(little, import(big: bool))]
struct CondImport { #[br(is_big = big)] a: u16, b: u16, #[br(is_little = big)] c: u32 }

#[derive(BinRead)]
struct Inherit { x: u16 }
#[derive(BinRead)]
#[br(little)]
struct Forced { x: u16 }
#[derive(BinRead)]
#[br(big)]
struct Nest { a: Inherit, #[br(little)] b: Inherit, #[br(big)] c: Forced, d: u16 }
#[derive(BinRead)]
struct Nest2 { a: Forced, b: Inherit, #[br(big)] c: (u16, Inherit), #[br(little)] d: [u16; 2] }

#[derive(BinRead)]
#[br(big)]
enum En {
    #[br(magic = 1u8)] Plain { a: u16 },
    #[br(magic = 2u8, little)] Var { a: u16, #[br(big)] b: u16, c: u16 },
    #[br(little)] Tail(u8, u16),
}
#[derive(BinRead)]
enum EnInherit {
    #[br(magic = 1u8, big)] One(u16, #[br(little)] u16),
    #[br(magic = 2u8)] Two(u16),
    #[br(little)] Three(u8, u16),
}
#[derive(BinRead)]
struct HasEn { e: EnInherit, z: u16 }

#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = u16, little)]
enum ReprL { A = 0x0102 , B = 0x0201 }
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(big)]
enum MagicB { #[br(magic = 0x0102u16)] A, #[br(magic = 0x0201u16)] B }
#[derive(BinRead, PartialEq, Clone, Copy)]
#[br(repr = u16)]
enum ReprI { A = 0x0102 , B = 0x0201 }
#[derive(BinRead)]
struct Units { a: ReprI, #[br(big)] b: ReprL, #[br(little)] c: MagicB, #[br(big)] d: ReprI }

fn parser<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<u16> {
    u16::read_options(r, o, ())
}
#[derive(BinRead)]
struct Through {
    #[br(big, parse_with = parser)] a: u16,
    #[br(little, map = |x: u16| x)] b: u16,
    #[br(big, count = 2)] c: Vec<u16>,
    #[br(little)] d: PosValue<u16>,
    #[br(big, try)] e: Option<u16>,
    f: u16,
}
#[derive(BinRead)]
struct Helper {
    #[br(big, parse_with = binread::count(1))] g: Vec<u16>,
    #[br(little, if(true))] h: Option<Inherit>,
    f: u16,
}
#[derive(BinRead)]
struct Pointers { #[br(big)] p: FilePtr<u16, u16>, #[br(little)] q: FilePtr<u8, Inherit>, #[br(little, deref_now)] n: FilePtr<u8, u16>, z: u16 }

#[derive(BinRead)]
#[br(big, map = MapBig::of)]
struct MapBig { a: u16, b: u16 }
impl MapBig { fn of(x: (u16, Inherit)) -> Self { MapBig { a: x.0, b: x.1.x } } }
#[derive(BinRead)]
#[br(little, try_map = TryLittle::of)]
struct TryLittle { a: u16 }
impl TryLittle { fn of(x: u16) -> Result<Self, u8> { Ok(TryLittle { a: x }) } }
#[derive(BinRead)]
#[br(map = |x: u16| MapInherit(x))]
struct MapInherit(u16);
#[derive(BinRead)]
struct Maps { a: MapBig, #[br(big)] b: TryLittle, #[br(big)] c: MapInherit, d: MapInherit }

harnesses! {
    fields [6] { orders!(Fields, 8, (), |r, e, v| {
        assert!(v.a == c2(&r, 0, e) && v.b == c2(&r, 2, B) && v.c == c2(&r, 4, L) && v.d == c2(&r, 6, e));
    }) }
    top [6] {
        orders!(TopBig, 8, (), |r, e, v| {
            assert!(v.a == c2(&r, 0, B) && v.b == c2(&r, 2, L) && v.d == c2(&r, 6, B));
            assert!(v.c == c2(&r, 4, if v.a == 1 { B } else { L }));
            reach!(v.a == 1, "is_big holds");
        });
        orders!(TopLittle, 6, (), |r, e, v| {
            assert!(v.0 == c2(&r, 0, L) && v.1 == c2(&r, 2, B) && v.2 == c2(&r, 4, L));
        });
    }
    cond [6] {
        orders!(Cond, 7, (), |r, e, v| {
            assert!(v.a == c2(&r, 1, if v.f & 1 == 1 { B } else { L }));
            assert!(v.b == c2(&r, 3, if v.f & 2 == 2 { L } else { B }));
            assert!(v.c == c2(&r, 5, e));
            reach!(v.f == 1, "big, big"); reach!(v.f == 2, "little, little");
        });
        let big = sym::flag();
        orders!(CondImport, 8, (big,), |r, e, v| {
            assert!(v.a == c2(&r, 0, if big { B } else { L }));
            assert!(v.b == c2(&r, 2, L));
            assert!(v.c == u32e(r.at(4), if big { L } else { B }));
            reach!(big, "import true"); reach!(!big, "import false");
        });
    }
    nested [6] {
        orders!(Nest, 8, (), |r, e, v| {
            assert!(v.a.x == c2(&r, 0, B) && v.b.x == c2(&r, 2, L) && v.c.x == c2(&r, 4, L) && v.d == c2(&r, 6, B));
        });
        orders!(Nest2, 12, (), |r, e, v| {
            assert!(v.a.x == c2(&r, 0, L) && v.b.x == c2(&r, 2, e));
            assert!(v.c.0 == c2(&r, 4, B) && v.c.1.x == c2(&r, 6, B));
            assert!(v.d[0] == c2(&r, 8, L) && v.d[1] == c2(&r, 10, L));
        });
    }
    variants [6] {
        orders!(En, 8, (), |r, e, v| {
            match v {
                En::Plain { a } => { assert!(r.b(0) == 1 && a == c2(&r, 1, B)); reach!(true, "enum order"); }
                En::Var { a, b, c } => { assert!(r.b(0) == 2 && a == c2(&r, 1, L) && b == c2(&r, 3, B) && c == c2(&r, 5, L)); reach!(true, "variant order"); }
                En::Tail(_, a) => { assert!(a == c2(&r, 1, L)); reach!(true, "variant order 2"); }
            }
        });
    }
    variants_inherit [6] {
        orders!(HasEn, 8, (), |r, e, v| {
            match v.e {
                EnInherit::One(a, b) => { assert!(a == c2(&r, 1, B) && b == c2(&r, 3, L) && v.z == c2(&r, 5, e)); reach!(true, "variant 1"); }
                EnInherit::Two(a) => { assert!(a == c2(&r, 1, e) && v.z == c2(&r, 3, e)); reach!(true, "variant 2"); }
                EnInherit::Three(_, a) => { assert!(a == c2(&r, 1, L) && v.z == c2(&r, 3, e)); reach!(true, "variant 3"); }
            }
        });
    }
    unit_enums [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        let e = some_endian();
        if let Ok(v) = Units::read_options(&mut r, &opts(e), ()) {
            let pick = |p, e| c2(&r, p, e) == 0x0102;
            assert!((v.a == ReprI::A) == pick(0, e) && (v.b == ReprL::A) == pick(2, L));
            assert!((v.c == MagicB::A) == pick(4, B) && (v.d == ReprI::A) == pick(6, B));
            reach!(v.a == ReprI::A && v.b == ReprL::B && v.c == MagicB::A && v.d == ReprI::B, "all kinds");
        }
    }
    through [4] { orders!(Through, 14, (), |r, e, v| {
        assert!(v.a == c2(&r, 0, B) && v.b == c2(&r, 2, L));
        assert!(v.c.len() == 2 && v.c[0] == c2(&r, 4, B) && v.c[1] == c2(&r, 6, B));
        assert!(v.d.val == c2(&r, 8, L) && v.e == Some(c2(&r, 10, B)) && v.f == c2(&r, 12, e));
    }) }
    helper [3] { orders!(Helper, 6, (), |r, e, v| {
        assert!(v.g.len() == 1 && v.g[0] == c2(&r, 0, B) && matches!(v.h, Some(Inherit { x }) if x == c2(&r, 2, L)) && v.f == c2(&r, 4, e));
    }) }
    pointers [6] {
        let mut r = Rd::<8>::over(sym::bytes(), 8, 0);
        sym::assume(r.b(0) == 0 && r.b(1) <= 6 && r.b(2) <= 6 && r.b(3) <= 6);
        let e = some_endian();
        match Pointers::read_options(&mut r, &opts(e), ()) {
            Ok(v) => {
                assert!(v.p.ptr == r.b(1) as u16 && *v.p == c2(&r, r.b(1) as u64, B), "pointer and target take the field's order");
                assert!(v.q.x == c2(&r, r.b(2) as u64, L) && *v.n == c2(&r, r.b(3) as u64, L));
                assert!(v.z == c2(&r, 4, e));
                reach!(true, "pointers");
            }
            Err(x) => { core::mem::forget(x); panic!("must parse") }
        }
    }
    maps [6] {
        orders!(Maps, 10, (), |r, e, v| {
            assert!(v.a.a == c2(&r, 0, B) && v.a.b == c2(&r, 2, B), "order of a mapped struct");
            assert!(v.b.a == c2(&r, 4, L), "order of a try_mapped struct");
            assert!(v.c.0 == c2(&r, 6, B) && v.d.0 == c2(&r, 8, e), "mapped struct without order");
        });
    }
}
