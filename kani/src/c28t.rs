//! C28, second part: the text the template functions write.
use crate::{reach, rd::*, sym};
use alloc::vec::Vec;
use binread::binary_template as bt;
use std::{fmt, io::Write};

/// The text written, up to `CAP` bytes.
const CAP: usize = 96;
static TEXT: sym::Static<[u8; CAP]> = sym::Static::new(0x7e87, [0xee; CAP]);
static LEN: sym::Static<usize> = sym::Static::new(0x7e88, 0);
fn push(s: &[u8]) {
    let mut n = LEN.get();
    let mut i = 0;
    while i < s.len() {
        assert!(n < CAP, "text longer than expected");
        unsafe { (*TEXT.v.get())[n] = s[i] };
        n += 1;
        i += 1;
    }
    LEN.set(n);
}
struct Sink;
struct Str;
impl fmt::Write for Str {
    fn write_str(&mut self, s: &str) -> fmt::Result { push(s.as_bytes()); Ok(()) }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { push(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> { push(b); Ok(()) }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> std::io::Result<()> {
        if LEN.get() == usize::MAX { return Ok(()); } // the preamble
        let _ = fmt::write(&mut Str, a);
        Ok(())
    }
}
fn open() {
    LEN.set(usize::MAX);
    bt::set_output(Sink);
    LEN.set(0);
}
fn wrote(s: &[u8], at: usize) {
    let mut i = 0;
    while i < s.len() {
        assert!(at + i < LEN.get() && unsafe { (*TEXT.v.get())[at + i] } == s[i], "text");
        i += 1;
    }
}

macro_rules! raw {
    ($($name:ident [$u:literal] $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            #[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::stubs::format))]
            #[cfg_attr(kani, kani::stub(std::env::var, crate::stubs::env_var))]
            #[cfg_attr(kani, kani::stub(std::sync::Once::call_once, crate::stubs::call_once))]
            #[cfg_attr(kani, kani::stub(core::sync::atomic::Atomic::<usize>::fetch_add, crate::stubs::fetch_add))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
fn at(i: usize) -> u8 {
    assert!(i < LEN.get(), "text ends early");
    unsafe { (*TEXT.v.get())[i] }
}
fn hex(d: u64) -> u8 { if d < 10 { b'0' + d as u8 } else { b'A' + d as u8 - 10 } }
/// The byte order and position of an entry; returns where the rest begins.
fn head(e: Endian, pos: u64) -> usize {
    let n = match e {
        Endian::Big => { wrote(b"BigEndian();\n", 0); 13 }
        Endian::Little => { wrote(b"LittleEndian();\n", 0); 16 }
        _ => { wrote(b"\n", 0); 1 }
    };
    wrote(b"FSeek(0x", n);
    assert!(at(n + 8) == hex(pos >> 4) && at(n + 9) == hex(pos & 15), "the position, in hexadecimal");
    wrote(b");\n", n + 10);
    n + 13
}
/// A colour and the end of the entry.
fn tail(n: usize) {
    wrote(b"<bgcolor=0x", n);
    let mut i = 0;
    while i < 6 { assert!(matches!(at(n + 11 + i), b'0'..=b'9' | b'A'..=b'F'), "a colour"); i += 1; }
    wrote(b">;\n\n", n + 17);
    assert!(LEN.get() == n + 21, "nothing else");
}
/// A made-up name at `n`; returns where it ends.
fn made_up(n: usize) -> usize {
    if cfg!(kani) { return n; } // format! is cut
    wrote(b"var", n);
    let mut i = n + 3;
    while i < n + 6 && i < LEN.get() && matches!(at(i), b'0'..=b'9') { i += 1; }
    assert!(i > n + 3, "a number");
    i
}
/// Any position of two digits.
fn somewhere() -> u64 {
    let p = sym::sym_u8() as u64;
    sym::assume(p >= 16);
    p
}

raw! {
    text_big [70] {
        let p = somewhere();
        open();
        bt::write_named(Endian::Big, p, "u16", "n");
        let n = head(Endian::Big, p);
        wrote(b"u16 n", n);
        tail(n + 5);
        reach!(p == 0xaf, "written");
    }
    text_little [70] {
        let p = somewhere();
        open();
        bt::write_named(Endian::Little, p, "u16", "n");
        let n = head(Endian::Little, p);
        wrote(b"u16 n", n);
        tail(n + 5);
        reach!(p == 0xaf, "written");
    }
    text_native [70] {
        let p = somewhere();
        open();
        bt::write_named(Endian::Native, p, "i8", "long_name");
        let n = head(Endian::Native, p);
        wrote(b"i8 long_name", n);
        tail(n + 12);
        reach!(p == 0xaf, "written");
    }
    text_far [70] {
        open();
        bt::write_named(Endian::Big, u64::MAX, "u8", "n");
        wrote(b"BigEndian();\nFSeek(0xFFFFFFFFFFFFFFFF);\nu8 n", 0);
        tail(44);
        reach!(LEN.get() == 65, "written");
    }
    text_unnamed [70] {
        let p = somewhere();
        open();
        bt::write(Endian::Little, p, "f32");
        let n = head(Endian::Little, p);
        wrote(b"f32 ", n);
        tail(made_up(n + 4));
        reach!(p == 0xaf, "written");
    }
    text_list [70] {
        let p = somewhere();
        let c = sym::upto(9);
        open();
        bt::write_vec_named(Endian::Big, p, "u16", c as usize, "n");
        let n = head(Endian::Big, p);
        wrote(b"u16 n[", n);
        assert!(at(n + 6) == b'0' + c as u8, "the count");
        wrote(b"]", n + 7);
        tail(n + 8);
        reach!(c == 7, "written");
    }
    text_struct [70] {
        open();
        bt::write_start_struct("Rec");
        wrote(b"struct Rec_", 0);
        let mut i = 11;
        while i < 14 && matches!(at(i), b'0'..=b'9') { i += 1; }
        assert!(i > 11, "a number");
        wrote(b" {\n", i);
        i += 3;
        assert!(LEN.get() == i);
        bt::write_comment("oh");
        wrote(b"// oh\n", i);
        i += 6;
        assert!(LEN.get() == i);
        bt::write_end_struct(Some("field"));
        wrote(b"} field;\n", i);
        i += 9;
        assert!(LEN.get() == i);
        bt::write_end_struct(None);
        wrote(b"} root;\n", i);
        assert!(LEN.get() == i + 8);
        reach!(LEN.get() == i + 8, "written");
    }
    // Without an output nothing is written.
    text_none [70] {
        open();
        bt::unset_output();
        bt::write_named(Endian::Big, sym::sym_u64(), "u8", "n");
        bt::write(Endian::Big, 3, "u8");
        bt::write_vec(Endian::Big, 3, "u8", 4);
        bt::write_start_struct("S");
        bt::write_comment("c");
        bt::write_end_struct(None);
        assert!(LEN.get() == 0, "nothing");
        reach!(LEN.get() == 0, "silent");
    }
}
