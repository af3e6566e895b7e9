//! C28: the debug template records the positions and byte orders actually used.
use crate::{harnesses, reach, rd::*, rec::{self, Kind}, sym};
use alloc::{boxed::Box, vec::Vec};
use binread::{binary_template as bt, derive_binread, io::{Read, Seek, SeekFrom}, FilePtr, FilePtr16, FilePtr8, NullString, NullWideString, PosValue};

const B: Endian = Endian::Big;
const L: Endian = Endian::Little;

/// Reads the log from the front.
struct Log { i: usize }
impl Log {
    fn val(&mut self, e: Endian, pos: u64, ty: &str, name: &str) {
        assert!(self.i < rec::len(), "an entry for every read");
        let x = rec::get(self.i);
        self.i += 1;
        assert!(x.kind == Kind::Value && x.ty.is(ty), "what was read");
        assert!(x.endian == e, "its byte order");
        assert!(x.pos == pos, "where it began");
        assert!(if name == "" { x.name.made_up() } else if name.len() > 7 && &name.as_bytes()[..7] == b"ptr_to_" { x.name.formatted(name) } else { x.name.is(name) }, "its name");
    }
    fn list(&mut self, e: Endian, pos: u64, ty: &str, count: usize, name: &str) {
        assert!(self.i < rec::len(), "an entry for every list");
        let x = rec::get(self.i);
        self.i += 1;
        assert!(x.kind == Kind::List && x.ty.is(ty) && x.count == count, "what was read");
        assert!(x.endian == e, "its byte order");
        assert!(x.pos == pos, "where it began");
        assert!(if name == "" { x.name.made_up() } else { x.name.is(name) }, "its name");
    }
    fn mark(&mut self, kind: Kind, name: &str) {
        assert!(self.i < rec::len(), "an entry for every struct");
        let x = rec::get(self.i);
        self.i += 1;
        assert!(x.kind == kind && (kind == Kind::Comment || x.name.is(name)), "start, end or error of a struct");
    }
    fn end(self) { assert!(self.i == rec::len(), "nothing else"); }
}

/// Parses `$t` from `$pos` with `$len` bytes after it; `$ok` gets the log.
macro_rules! written {
    ($t:ty, $pos:literal, $len:literal, |$r:ident, $e:ident, $v:ident, $l:ident| $ok:block) => {{
        let mut $r = Rd::<16>::over(sym::bytes(), $pos + $len, $pos);
        let $e = some_endian();
        rec::start();
        let got = binread::error::read_options_then_after_parse::<_, $t, _>(&mut $r, &opts($e), ());
        rec::stop();
        let mut $l = Log { i: 0 };
        if let Ok($v) = &got {
            $ok
            $l.end();
        }
        reach!(got.is_ok() && !is_be($e), "accepted");
        core::mem::forget(got);
    }};
}

#[derive(BinRead)]
struct Plain { a: u8, #[br(big)] b: u16, #[br(little)] c: i32, #[br(is_little = a == 1)] d: u16, e: f32 }
#[derive(BinRead)]
#[br(big, magic = 0x41u8)]
struct Outer { n: u8, i: In, #[br(pad_before = 1)] j: In, #[br(little)] k: (u8, i16) }
#[derive(BinRead, Clone, Copy, Default)]
struct In { x: u8, #[br(if(x & 1 == 1))] y: Option<u16> }
#[derive(BinRead)]
struct Lists { n: u8, #[br(count = n & 3, big)] v: Vec<u16>, #[br(little)] w: [i16; 2], #[br(count = 2)] x: Vec<In> }
#[derive(BinRead)]
struct Ptrs { #[br(big)] p: FilePtr8<u16>, #[br(offset = 1, little)] q: FilePtr16<u8>, z: i8 }
#[derive(BinRead)]
struct Now { #[br(deref_now, big)] p: FilePtr8<u16>, #[br(parse_with = FilePtr8::<i8>::parse)] q: i8 }
#[derive(BinRead)]
struct Strs { #[br(little)] s: NullString, #[br(big)] w: NullWideString, z: u8 }
#[derive(BinRead)]
struct Moves { #[br(align_before = 4)] a: u8, #[br(restore_position)] b: u16, #[br(pad_size_to = 3)] c: u8, #[br(calc = 3)] d: u8, #[br(ignore)] e: u8, #[br(map = |x: i16| x)] f: i16, #[br(seek_before = SeekFrom::Start(2))] g: Box<u8>, h: PosValue<u8> }
#[derive(BinRead)]
#[br(big)]
enum En { #[br(magic = 1u8)] A(u8), #[br(magic = 2u8)] B { #[br(little)] x: u16 } }

/// Truncated: entries up to the read that failed.
macro_rules! cut {
    ($n:literal) => {{
        let mut r = Rd::<16>::over(sym::bytes(), 1 + $n, 1);
        let e = some_endian();
        rec::start();
        let got = Cut::read_options(&mut r, &opts(e), ());
        rec::stop();
        let mut l = Log { i: 0 };
        l.mark(Kind::Start, "Cut");
        l.val(e, 1, "u8", "a");
        if $n > 0 { l.val(L, 2, "u16", "b"); }
        if $n > 2 { l.val(e, 4, "i8", "c"); }
        if $n < 4 { l.mark(Kind::Comment, ""); }
        l.mark(Kind::End, "root");
        l.end();
        assert!(got.is_ok() == ($n == 4));
        reach!(is_be(e), "cut");
        core::mem::forget(got);
    }};
}
#[derive(BinRead)]
struct Cut { a: u8, #[br(little)] b: u16, c: i8 }

harnesses! {
    plain [5] { written!(Plain, 1, 13, |r, e, v, l| {
        l.mark(Kind::Start, "Plain");
        l.val(e, 1, "u8", "a");
        l.val(B, 2, "u16", "b");
        l.val(L, 4, "i32", "c");
        l.val(if v.a == 1 { L } else { B }, 8, "u16", "d");
        l.val(e, 10, "f32", "e");
        l.mark(Kind::End, "root");
    }); }
    nested [5] { written!(Outer, 1, 12, |r, e, v, l| {
        l.mark(Kind::Start, "Outer");
        l.val(B, 1, "u8", "magic");
        l.val(B, 2, "u8", "n");
        l.mark(Kind::Start, "In");
        l.val(B, 3, "u8", "x");
        let mut p = 4;
        if v.i.y.is_some() { l.val(B, 4, "u16", "y"); p = 6; }
        l.mark(Kind::End, "i");
        l.mark(Kind::Start, "In");
        l.val(B, p + 1, "u8", "x");
        p += 2;
        if v.j.y.is_some() { l.val(B, p, "u16", "y"); p += 2; }
        l.mark(Kind::End, "j");
        l.val(L, p, "u8", "k");
        l.val(L, p + 1, "i16", "k");
        l.mark(Kind::End, "root");
    }); }
    lists [5] { written!(Lists, 1, 15, |r, e, v, l| {
        let n = (v.n & 3) as usize;
        l.mark(Kind::Start, "Lists");
        l.val(e, 1, "u8", "n");
        l.list(B, 2, "u16", n, "");
        l.list(L, 2 + 2 * n as u64, "i16", 2, "w");
        let x = rec::get(l.i);
        assert!(x.kind == Kind::List && x.endian == e && x.pos == 6 + 2 * n as u64 && x.count == 2, "a list of structs");
        l.i += 1;
        // structs in a list are bracketed, their fields are not entered again
        l.mark(Kind::Start, "In");
        l.mark(Kind::End, "x");
        l.mark(Kind::Start, "In");
        l.mark(Kind::End, "x");
        l.mark(Kind::End, "root");
    }); }
    pointers [9] { written!(Ptrs, 1, 10, |r, e, v, l| {
        l.mark(Kind::Start, "Ptrs");
        l.val(B, 1, "u8", "ptr_to_p");
        l.val(L, 2, "u16", "ptr_to_q");
        l.val(e, 4, "i8", "z");
        l.val(B, v.p.ptr as u64, "u16", "p");
        l.val(L, 1 + v.q.ptr as u64, "u8", "q");
        l.mark(Kind::End, "root");
    }); }
    pointers_now [9] { written!(Now, 1, 6, |r, e, v, l| {
        l.mark(Kind::Start, "Now");
        l.val(B, 1, "u8", "ptr_to_p");
        l.val(B, v.p.ptr as u64, "u16", "p");
        l.val(e, 2, "u8", "ptr_to_q");
        l.val(e, r.b(2) as u64, "i8", "q");
        l.mark(Kind::End, "root");
    }); }
    strings [8] { written!(Strs, 1, 5, |r, e, v, l| {
        let n = v.s.len() as u64;
        let w = v.w.len() as u64;
        l.mark(Kind::Start, "Strs");
        l.val(L, 1, "string", "s");
        l.val(B, 2 + n, "wstring", "w");
        l.val(e, 4 + n + 2 * w, "u8", "z");
        l.mark(Kind::End, "root");
    }); }
    moves [5] { written!(Moves, 1, 12, |r, e, v, l| {
        l.mark(Kind::Start, "Moves");
        l.val(e, 4, "u8", "a");
        l.val(e, 5, "u16", "b");
        l.val(e, 5, "u8", "c");
        l.val(e, 8, "i16", "f");
        l.val(e, 2, "u8", "g");
        l.val(e, 3, "u8", "h");
        l.mark(Kind::End, "root");
    }); }
    cut_short [5] { cut!(0); cut!(1); cut!(2); cut!(3); cut!(4); }
}
