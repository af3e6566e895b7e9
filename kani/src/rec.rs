//! What a parse writes to the debug template (configuration c_dt only). Under Kani the functions of
//! `binread::binary_template` are replaced by recorders; natively the text they write is captured
//! and read back. C28 decides the text itself.
use crate::sym::Static;
use binread::Endian;

pub const MAX: usize = 14;
const W: usize = 10;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { None = 0x5c, Value, List, Start, End, Comment }
#[derive(Clone, Copy, Debug)]
pub struct Rec { pub kind: Kind, pub endian: Endian, pub pos: u64, pub ty: Text, pub name: Text, pub count: usize }
/// The first bytes of a text.
#[derive(Clone, Copy, Debug)]
pub struct Text { len: usize, b: [u8; W] }
impl Text {
    fn of(s: &str) -> Text {
        let mut t = Text { len: s.len(), b: [0; W] };
        let s = s.as_bytes();
        macro_rules! put { ($($i:literal)*) => { $(if s.len() > $i { t.b[$i] = s[$i]; })* } }
        put!(0 1 2 3 4 5 6 7 8 9);
        t
    }
    pub fn is(&self, s: &str) -> bool {
        let o = Text::of(s);
        let mut same = self.len == o.len;
        macro_rules! cmp { ($($i:literal)*) => { $(same &= self.b[$i] == o.b[$i];)* } }
        cmp!(0 1 2 3 4 5 6 7 8 9);
        same
    }
    /// No name: made up by the template writer (`var7`), or formatted, which the stubs leave empty.
    pub fn made_up(&self) -> bool {
        #[cfg(kani)]
        return self.len == 0;
        #[cfg(not(kani))]
        return self.len >= 4 && &self.b[..3] == b"var";
    }
    /// Some formatted text.
    pub fn formatted(&self, s: &str) -> bool {
        #[cfg(kani)]
        return self.len == 0;
        #[cfg(not(kani))]
        return self.is(s);
    }
}
const BLANK: Rec = Rec { kind: Kind::None, endian: Endian::Big, pos: 0, ty: Text { len: 0, b: [0; W] }, name: Text { len: 0, b: [0; W] }, count: 0 };

#[cfg(kani)]
mod imp {
    use super::*;
    static LOG: Static<[Rec; MAX]> = Static::new(0x7ec, [BLANK; MAX]);
    static LEN: Static<usize> = Static::new(0x7ed, OFF);
    /// Nothing is recorded until `start`.
    const OFF: usize = usize::MAX;
    fn push(kind: Kind, endian: Endian, pos: u64, ty: &str, name: &str, count: usize) {
        let i = LEN.get();
        if i == OFF { return; }
        assert!(i < MAX, "more template entries than expected");
        unsafe { (*LOG.v.get())[i] = Rec { kind, endian, pos, ty: Text::of(ty), name: Text::of(name), count } };
        LEN.set(i + 1);
    }
    pub fn write_named(endian: Endian, pos: u64, ty: &str, name: &str) { push(Kind::Value, endian, pos, ty, name, 0) }
    pub fn write(endian: Endian, pos: u64, ty: &str) { push(Kind::Value, endian, pos, ty, "", 0) }
    pub fn write_vec_named(endian: Endian, pos: u64, ty: &str, count: usize, name: &str) { push(Kind::List, endian, pos, ty, name, count) }
    pub fn write_vec(endian: Endian, pos: u64, ty: &str, count: usize) { push(Kind::List, endian, pos, ty, "", count) }
    pub fn write_start_struct(name: &str) { push(Kind::Start, Endian::Big, 0, "", name, 0) }
    pub fn write_end_struct(name: Option<&str>) { push(Kind::End, Endian::Big, 0, "", name.unwrap_or("root"), 0) }
    pub fn write_comment(_: &str) { push(Kind::Comment, Endian::Big, 0, "", "", 0) }
    pub fn get_next_var_name() -> alloc::string::String { alloc::string::String::new() }
    pub fn start() { LEN.set(0) }
    pub fn stop() {}
    pub fn len() -> usize { LEN.get() }
    pub fn get(i: usize) -> Rec { unsafe { (*LOG.v.get())[i] } }
}

#[cfg(not(kani))]
mod imp {
    use super::*;
    use std::{io::Write, string::String, sync::{Arc, Mutex}, vec::Vec};
    struct Sink(Arc<Mutex<Vec<u8>>>);
    impl Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    static TEXT: Mutex<Option<Arc<Mutex<Vec<u8>>>>> = Mutex::new(None);
    static LOG: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
    pub fn start() {
        let a = Arc::new(Mutex::new(Vec::new()));
        *TEXT.lock().unwrap() = Some(a.clone());
        LOG.lock().unwrap().clear();
        binread::binary_template::set_output(Sink(a));
    }
    pub fn stop() {
        binread::binary_template::unset_output();
        let raw = TEXT.lock().unwrap().take().expect("start before stop");
        let text = String::from_utf8(raw.lock().unwrap().clone()).expect("text");
        let mut log = LOG.lock().unwrap();
        let (mut endian, mut pos) = (Endian::Native, 0);
        for l in text.lines().skip_while(|l| !l.starts_with("typedef double")).skip(1) {
            let l = l.trim();
            let mut rec = BLANK;
            if l.is_empty() {
                endian = Endian::Native;
                continue;
            } else if l == "BigEndian();" {
                endian = Endian::Big;
                continue;
            } else if l == "LittleEndian();" {
                endian = Endian::Little;
                continue;
            } else if let Some(x) = l.strip_prefix("FSeek(0x") {
                pos = u64::from_str_radix(x.strip_suffix(");").expect("FSeek"), 16).expect("FSeek");
                continue;
            } else if l.starts_with("//") {
                rec.kind = Kind::Comment;
            } else if let Some(x) = l.strip_prefix("struct ") {
                rec.kind = Kind::Start;
                rec.name = Text::of(x.strip_suffix(" {").expect("struct").rsplit_once('_').expect("struct").0);
            } else if let Some(x) = l.strip_prefix("} ") {
                rec.kind = Kind::End;
                rec.name = Text::of(x.strip_suffix(';').expect("end"));
            } else {
                let (x, _) = l.split_once("<bgcolor=").expect("entry");
                let (ty, name) = x.rsplit_once(' ').expect("entry");
                rec = Rec { kind: Kind::Value, endian, pos, ty: Text::of(ty), name: Text::of(name), count: 0 };
                if let Some((n, c)) = name.split_once('[') {
                    rec.kind = Kind::List;
                    rec.name = Text::of(n);
                    rec.count = c.strip_suffix(']').expect("count").parse().expect("count");
                }
            }
            log.push(rec);
        }
    }
    pub fn len() -> usize { LOG.lock().unwrap().len() }
    pub fn get(i: usize) -> Rec { LOG.lock().unwrap()[i] }
}
pub use imp::*;
