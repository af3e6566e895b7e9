//! C16: string conversions are total and faithful.
use crate::{harnesses, reach, rd::*, sym};
use binread::{NullString, NullWideString};
use core::num::{NonZeroU16, NonZeroU8};

/// Length of the sequence at `b[0..n]`: `(bytes, valid)`; an invalid one is its maximal prefix.
fn seq(b: &[u8; 8], i: usize, n: usize) -> (usize, bool) {
    let a = b[i];
    let (more, lo, hi) = match a {
        0..=0x7F => return (1, true),
        0xC2..=0xDF => (1, 0x80, 0xBF),
        0xE0 => (2, 0xA0, 0xBF),
        0xED => (2, 0x80, 0x9F),
        0xE1..=0xEF => (2, 0x80, 0xBF),
        0xF0 => (3, 0x90, 0xBF),
        0xF1..=0xF3 => (3, 0x80, 0xBF),
        0xF4 => (3, 0x80, 0x8F),
        _ => return (1, false),
    };
    if i + 1 >= n || b[i + 1] < lo || b[i + 1] > hi { return (1, false); }
    if more == 1 { return (2, true); }
    if i + 2 >= n || b[i + 2] & 0xC0 != 0x80 { return (2, false); }
    if more == 2 { return (3, true); }
    if i + 3 >= n || b[i + 3] & 0xC0 != 0x80 { return (3, false); }
    (4, true)
}
/// The text of `n` bytes, and whether they are all valid.
fn text(b: &[u8; 8], n: usize) -> ([u8; 16], usize, bool) {
    let mut out = [0; 16];
    let (mut len, mut all, mut i) = (0, true, 0);
    while i < n {
        let (k, ok) = seq(b, i, n);
        if ok {
            let mut j = 0;
            while j < k { out[len] = b[i + j]; len += 1; j += 1; }
        } else {
            out[len] = 0xEF; out[len + 1] = 0xBF; out[len + 2] = 0xBD;
            len += 3;
            all = false;
        }
        i += k;
    }
    (out, len, all)
}
/// The same for 16-bit units.
fn text16(u: &[u16; 4], n: usize) -> ([u8; 16], usize, bool) {
    let mut out = [0; 16];
    let (mut len, mut all, mut i) = (0, true, 0);
    while i < n {
        let a = u[i];
        let mut c = a as u32;
        let mut k = 1;
        if a >= 0xD800 && a < 0xE000 {
            if a < 0xDC00 && i + 1 < n && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000 {
                c = 0x10000 + ((a as u32 & 0x3FF) << 10) + (u[i + 1] as u32 & 0x3FF);
                k = 2;
            } else {
                c = 0xFFFD;
                all = false;
            }
        }
        if c < 0x80 { out[len] = c as u8; len += 1; }
        else if c < 0x800 { out[len] = 0xC0 | (c >> 6) as u8; out[len + 1] = 0x80 | (c & 0x3F) as u8; len += 2; }
        else if c < 0x10000 { out[len] = 0xE0 | (c >> 12) as u8; out[len + 1] = 0x80 | (c >> 6 & 0x3F) as u8; out[len + 2] = 0x80 | (c & 0x3F) as u8; len += 3; }
        else { out[len] = 0xF0 | (c >> 18) as u8; out[len + 1] = 0x80 | (c >> 12 & 0x3F) as u8; out[len + 2] = 0x80 | (c >> 6 & 0x3F) as u8; out[len + 3] = 0x80 | (c & 0x3F) as u8; len += 4; }
        i += k;
    }
    (out, len, all)
}
fn same(s: &[u8], out: &[u8; 16], len: usize, max: usize) {
    assert!(s.len() == len, "length of the text");
    let mut i = 0;
    while i < max {
        if i < len { assert!(s[i] == out[i], "the text"); }
        i += 1;
    }
}

/// std's decoders, as the functions above say (used for more than one unit; natively std's).
#[cfg(kani)]
pub fn model_utf8(v: &[u8]) -> std::borrow::Cow<'_, str> {
    assert!(v.len() <= 4);
    let mut b = [0; 8];
    let mut i = 0;
    while i < v.len() { b[i] = v[i]; i += 1; }
    let (out, len, all) = text(&b, v.len());
    if all { return std::borrow::Cow::Borrowed(unsafe { core::str::from_utf8_unchecked(v) }); }
    std::borrow::Cow::Owned(string(&out, len))
}
#[cfg(kani)]
pub fn model_utf16(v: &[u16]) -> String {
    assert!(v.len() <= 3);
    let mut u = [0; 4];
    let mut i = 0;
    while i < v.len() { u[i] = v[i]; i += 1; }
    let (out, len, _) = text16(&u, v.len());
    string(&out, len)
}
#[cfg(kani)]
pub fn model_utf16_strict(v: &[u16]) -> Result<String, std::string::FromUtf16Error> {
    assert!(v.len() <= 3);
    let mut u = [0; 4];
    let mut i = 0;
    while i < v.len() { u[i] = v[i]; i += 1; }
    let (out, len, all) = text16(&u, v.len());
    if all { Ok(string(&out, len)) } else { Err(unsafe { core::mem::transmute(0u8) }) }
}
#[cfg(kani)]
fn string(out: &[u8; 16], len: usize) -> String {
    let mut v = Vec::with_capacity(16);
    v.extend_from_slice(&out[..]);
    unsafe { v.set_len(len); String::from_utf8_unchecked(v) }
}

macro_rules! vec_of {
    ($b:expr, 0) => { Vec::new() };
    ($b:expr, 1) => { vec![$b[0]] };
    ($b:expr, 2) => { vec![$b[0], $b[1]] };
    ($b:expr, 3) => { vec![$b[0], $b[1], $b[2]] };
    ($b:expr, 4) => { vec![$b[0], $b[1], $b[2], $b[3]] };
}
fn units() -> [u16; 4] { [sym::sym_u16(), sym::sym_u16(), sym::sym_u16(), 0] }

macro_rules! lossy { ($n:tt, |$s:ident| $f:expr) => {{
    let b: [u8; 8] = sym::bytes();
    let $s = NullString(vec_of!(b, $n));
    let t = $f;
    let (out, len, all) = text(&b, $n);
    same(t.as_bytes(), &out, len, 3 * $n);
    reach!(all || $n == 0, "valid"); reach!(!all || $n == 0, "invalid"); reach!($n < 2 || all && b[0] > 0x7F, "beyond ASCII");
    core::mem::forget(t);
}}; }
macro_rules! lossless { ($n:tt) => {{
    let b: [u8; 8] = sym::bytes();
    let got = NullString(vec_of!(b, $n)).into_string_lossless();
    let (_, _, all) = text(&b, $n);
    match &got {
        Ok(t) => { assert!(all); let mut o = [0; 16]; let mut i = 0; while i < $n { o[i] = b[i]; i += 1; } same(t.as_bytes(), &o, $n, $n); reach!($n < 2 || b[0] > 0x7F, "beyond ASCII"); }
        Err(e) => {
            assert!(!all);
            let v = e.as_bytes();
            let mut i = 0;
            assert!(v.len() == $n);
            while i < $n { assert!(v[i] == b[i], "the bytes come back"); i += 1; }
            reach!(true, "invalid");
        }
    }
    core::mem::forget(got);
}}; }
macro_rules! lossy16 { ($n:tt, |$s:ident| $f:expr) => {{
    let u = units();
    let $s = NullWideString(vec_of!(u, $n));
    let t = $f;
    let (out, len, all) = text16(&u, $n);
    same(t.as_bytes(), &out, len, 3 * $n);
    reach!(all || $n == 0, "valid"); reach!(!all || $n == 0, "invalid"); reach!($n < 2 || all && u[0] >= 0xD800 && u[0] < 0xE000, "a surrogate pair");
    core::mem::forget(t);
}}; }
macro_rules! lossless16 { ($n:tt) => {{
    let u = units();
    let got = NullWideString(vec_of!(u, $n)).into_string_lossless();
    let (out, len, all) = text16(&u, $n);
    match &got {
        Ok(t) => { assert!(all); same(t.as_bytes(), &out, len, 3 * $n); reach!($n < 2 || u[0] >= 0xD800 && u[0] < 0xE000, "a surrogate pair"); }
        Err(_) => { assert!(!all); reach!(true, "invalid"); }
    }
    core::mem::forget(got);
}}; }

harnesses! {
    into0 [2] { lossy!(0, |s| s.into_string()) }
    into1 [5] { lossy!(1, |s| s.into_string()) }
    into2 [8, std::string::String::from_utf8_lossy => crate::c16::model_utf8] { lossy!(2, |s| s.into_string()) }
    into3 [11, std::string::String::from_utf8_lossy => crate::c16::model_utf8] { lossy!(3, |s| s.into_string()) }
    into4 [14, std::string::String::from_utf8_lossy => crate::c16::model_utf8] { lossy!(4, |s| s.into_string()) }
    to1 [5] { lossy!(1, |s| s.to_string()) }
    to2 [8, std::string::String::from_utf8_lossy => crate::c16::model_utf8] { lossy!(2, |s| s.to_string()) }
    to3 [11, std::string::String::from_utf8_lossy => crate::c16::model_utf8] { lossy!(3, |s| s.to_string()) }
    to4 [14, std::string::String::from_utf8_lossy => crate::c16::model_utf8] { lossy!(4, |s| s.to_string()) }
    lossless1 [5] { lossless!(1) }
    lossless2 [8] { lossless!(2) }
    lossless3 [11] { lossless!(3) }
    lossless4 [14] { lossless!(4) }
    wide_into1 [5] { lossy16!(1, |s| s.into_string()) }
    wide_into2 [8, std::string::String::from_utf16_lossy => crate::c16::model_utf16] { lossy16!(2, |s| s.into_string()) }
    wide_into3 [11, std::string::String::from_utf16_lossy => crate::c16::model_utf16] { lossy16!(3, |s| s.into_string()) }
    wide_to1 [5] { lossy16!(1, |s| s.to_string()) }
    wide_to2 [8, std::string::String::from_utf16_lossy => crate::c16::model_utf16] { lossy16!(2, |s| s.to_string()) }
    wide_to3 [11, std::string::String::from_utf16_lossy => crate::c16::model_utf16] { lossy16!(3, |s| s.to_string()) }
    wide_lossless1 [5] { lossless16!(1) }
    wide_lossless2 [8, std::string::String::from_utf16 => crate::c16::model_utf16_strict] { lossless16!(2) }
    wide_lossless3 [11, std::string::String::from_utf16 => crate::c16::model_utf16_strict] { lossless16!(3) }
    vectors [6] {
        // units come back unchanged from every conversion
        let (a, b) = (sym::sym_u8(), sym::sym_u8());
        sym::assume(a != 0 && b != 0);
        let s: NullString = vec![NonZeroU8::new(a).unwrap(), NonZeroU8::new(b).unwrap()].into();
        assert!(s.len() == 2 && s.0[0] == a && s[1] == b, "from non-zero bytes, and by dereference");
        let c = s.clone();
        assert!(c == s);
        let v: Vec<u8> = s.into();
        assert!(v.len() == 2 && v[0] == a && v[1] == b, "into bytes");
        assert!((NullString(vec![a]) == NullString(vec![b])) == (a == b));
        assert!(NullString::default().is_empty() && NullWideString::default().is_empty());
        reach!(a != b, "two bytes");
        core::mem::forget((c, v));
    }
    wide_vectors [6] {
        let (a, b) = (sym::sym_u16(), sym::sym_u16());
        sym::assume(a != 0 && b != 0);
        let s: NullWideString = vec![NonZeroU16::new(a).unwrap(), NonZeroU16::new(b).unwrap()].into();
        assert!(s.len() == 2 && s.0[0] == a && s[1] == b);
        let c = s.clone();
        assert!(c == s);
        let v: Vec<u16> = s.into();
        assert!(v.len() == 2 && v[0] == a && v[1] == b);
        assert!((NullWideString(vec![a]) == NullWideString(vec![b])) == (a == b));
        reach!(a != b, "two units");
        core::mem::forget((c, v));
    }
}
