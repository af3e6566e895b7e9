//! C01: primitive values, arrays and tuples decode exactly, in the requested byte order.
use crate::{harnesses, reach, rd::*, sym};

/// Reads `$t` at an arbitrary position and compares with a shift-and-or reference.
macro_rules! prim {
    ($t:ty, $bits:ty, $w:literal, $n:literal, $to_bits:expr) => {{
        let mut r = Rd::<$n>::any_at($n - $w + 1);
        let e = some_endian();
        let p = r.pos;
        let got = <$t>::read_options(&mut r, &opts(e), ());
        match got {
            Ok(v) => {
                assert!(r.has(p, $w), "value from fewer bytes than its width");
                let mut want: $bits = 0;
                let mut i = 0u64;
                while i < $w {
                    let k = if is_be(e) { i } else { $w - 1 - i };
                    want = (want << (if $w == 1 { 0 } else { 8 })) | r.b(p + k) as $bits;
                    i += 1;
                }
                assert!(($to_bits)(v) == want, "decoded value");
                assert!(r.pos == p + $w, "consumed width");
                reach!(p > 0 && is_be(e), "be at nonzero position");
                reach!(!is_be(e), "le");
            }
            Err(_) => assert!(!r.has(p, $w), "enough bytes but failed"),
        }
    }};
}

/// Reads `[$t; $k]` and compares each element.
macro_rules! arr {
    ($t:ty, $k:literal, $w:literal, $n:literal, $dec:expr) => {{
        let mut r = Rd::<$n>::any_at(2);
        let e = some_endian();
        let p = r.pos;
        let got = <[$t; $k]>::read_options(&mut r, &opts(e), ());
        match got {
            Ok(v) => {
                assert!(r.has(p, $k * $w), "array from too few bytes");
                assert!(r.pos == p + $k * $w, "consumed");
                let mut i = 0;
                while i < $k {
                    let want: $t = ($dec)(r.at::<$w>(p + i as u64 * $w), e);
                    assert!(v[i] == want, "element");
                    i += 1;
                }
                reach!(is_be(e), "array be");
            }
            Err(x) => {
                assert!(!r.has(p, $k * $w), "enough bytes but failed");
                assert!(is_eof::<()>(&Err(x)), "error of a short array");
            }
        }
    }};
}

harnesses! {
    ints8 [20] { prim!(u8, u8, 1, 3, |v| v); prim!(i8, u8, 1, 3, |v| v as u8); prim!(char, u32, 1, 3, |v| v as u32); }
    ints16 [20] { prim!(u16, u16, 2, 4, |v| v); prim!(i16, u16, 2, 4, |v| v as u16); }
    ints32 [20] { prim!(u32, u32, 4, 6, |v| v); prim!(i32, u32, 4, 6, |v| v as u32); prim!(f32, u32, 4, 6, |v: f32| v.to_bits()); }
    ints64 [20] { prim!(u64, u64, 8, 16, |v| v); prim!(i64, u64, 8, 16, |v| v as u64); prim!(f64, u64, 8, 16, |v: f64| v.to_bits()); }
    ints128 [26] { prim!(u128, u128, 16, 24, |v| v); prim!(i128, u128, 16, 24, |v| v as u128); }

    arrays [36] {
        arr!(u16, 3, 2, 8, |b: [u8; 2], e| u16e(b, e));
        arr!(u8, 1, 1, 8, |b: [u8; 1], _| b[0]);
        arr!(i32, 2, 4, 16, |b: [u8; 4], e| u32e(b, e) as i32);
    }
    arrays_long [36] {
        arr!(u8, 32, 1, 32, |b: [u8; 1], _| b[0]);
    }
    arrays_mid [36] {
        arr!(u8, 17, 1, 24, |b: [u8; 1], _| b[0]);
        arr!(u16, 9, 2, 24, |b: [u8; 2], e| u16e(b, e));
    }
    arrays_zero_nested [20] {
        let mut r = Rd::<8>::any_at(9);
        let (e, p) = (some_endian(), r.pos);
        assert!(<[u32; 0]>::read_options(&mut r, &opts(e), ()).is_ok() && r.pos == p, "empty array");
        let got = <[[u8; 2]; 3]>::read_options(&mut r, &opts(e), ());
        match got {
            Ok(v) => {
                assert!(r.has(p, 6) && r.pos == p + 6);
                let mut i = 0;
                while i < 6 {
                    assert!(v[i / 2][i % 2] == r.b(p + i as u64));
                    i += 1;
                }
                reach!(p > 0, "nested array");
            }
            Err(_) => assert!(!r.has(p, 6)),
        }
    }
    tuples [20] {
        let mut r = Rd::<16>::any_at(5);
        let (e, p) = (some_endian(), r.pos);
        let got = <(u8, u16, i32, char, u16)>::read_options(&mut r, &opts(e), ());
        match got {
            Ok(v) => {
                assert!(r.has(p, 10) && r.pos == p + 10);
                assert!(v.0 == r.b(p));
                assert!(v.1 == u16e(r.at(p + 1), e));
                assert!(v.2 == u32e(r.at(p + 3), e) as i32);
                assert!(v.3 as u32 == r.b(p + 7) as u32);
                assert!(v.4 == u16e(r.at(p + 8), e));
                reach!(p > 0 && is_be(e), "tuple");
            }
            Err(x) => { assert!(!r.has(p, 10)); assert!(is_eof::<()>(&Err(x))); }
        }
    }
    tuples_wide [20] {
        let mut r = Rd::<16>::any_at(3);
        let p = r.pos;
        let got = <(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8)>::read_options(&mut r, &opts(Endian::Big), ());
        match got {
            Ok(v) => {
                assert!(r.pos == p + 12);
                let a = [v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11];
                let mut i = 0;
                while i < 12 {
                    assert!(a[i] == r.b(p + i as u64));
                    i += 1;
                }
                reach!(p > 0, "wide tuple");
            }
            Err(_) => assert!(!r.has(p, 12)),
        }
    }
    wrappers [20] {
        let mut r = Rd::<8>::any_at(5);
        let (e, p) = (some_endian(), r.pos);
        let o = opts(e);
        assert!(<()>::read_options(&mut r, &o, ()).is_ok() && r.pos == p, "unit reads nothing");
        assert!(<core::marker::PhantomData<u32>>::read_options(&mut r, &o, ()).is_ok() && r.pos == p, "PhantomData reads nothing");
        match <(Box<u16>, Option<u8>, ((), (u16,)))>::read_options(&mut r, &o, ()) {
            Ok((a, b, (_, (c,)))) => {
                assert!(r.has(p, 5) && r.pos == p + 5);
                assert!(*a == u16e(r.at(p), e));
                assert!(b == Some(r.b(p + 2)));
                assert!(c == u16e(r.at(p + 3), e));
                reach!(p > 0 && !is_be(e), "wrappers");
            }
            Err(_) => assert!(!r.has(p, 5)),
        }
    }
}
