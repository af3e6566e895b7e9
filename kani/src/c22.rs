//! C22: the no_std read_exact and bytes under short reads, interruptions and errors, with std's own
//! code run over the same schedule as the oracle.
use crate::{harnesses, reach, sym};
use binread::io as n;
use binread::io::Read as _;
use std::io as s;

/// Steps with a chosen behaviour; after them every read is as long as possible.
const STEPS: usize = 3;
const LEN: usize = 5;
#[derive(Clone, Copy, PartialEq)]
enum Step { Interrupted, Fail, Empty, Give(usize) }
#[derive(Clone)]
struct Script { data: [u8; LEN], len: usize, pos: usize, step: [Step; STEPS], calls: usize, asked: u64 }
impl Script {
    fn any() -> Self {
        let len = sym::upto(LEN as u64) as usize;
        let data = sym::bytes();
        let mut step = [Step::Empty; STEPS];
        let mut i = 0;
        while i < STEPS {
            step[i] = match sym::upto(5) { 0 => Step::Interrupted, 1 => Step::Fail, 2 => Step::Empty, k => Step::Give(k as usize - 2) };
            i += 1;
        }
        Script { data, len, pos: 0, step, calls: 0, asked: 0 }
    }
    /// Bytes given, or the error: 0 for an interruption, 1 for a failure.
    fn act(&mut self, buf: &mut [u8]) -> Result<usize, u8> {
        let c = self.calls;
        assert!(c < 8, "more calls than the schedule allows");
        self.asked = self.asked << 8 | buf.len() as u64;
        self.calls = c + 1;
        let max = if c < STEPS {
            match self.step[c] { Step::Interrupted => return Err(0), Step::Fail => return Err(1), Step::Empty => return Ok(0), Step::Give(k) => k }
        } else { LEN };
        let left = self.len - self.pos;
        let k = if max < left { max } else { left };
        let k = if k < buf.len() { k } else { buf.len() };
        // straight-line: buffers hold at most 4 bytes here
        if k > 0 { buf[0] = self.data[self.pos]; }
        if k > 1 { buf[1] = self.data[self.pos + 1]; }
        if k > 2 { buf[2] = self.data[self.pos + 2]; }
        if k > 3 { buf[3] = self.data[self.pos + 3]; }
        self.pos += k;
        Ok(k)
    }
}
struct N(Script);
impl n::Read for N {
    fn read(&mut self, b: &mut [u8]) -> n::Result<usize> {
        self.0.act(b).map_err(|e| n::Error::new(if e == 0 { n::ErrorKind::Interrupted } else { n::ErrorKind::TimedOut }, ()))
    }
}
struct S(Script);
impl s::Read for S {
    fn read(&mut self, b: &mut [u8]) -> s::Result<usize> {
        self.0.act(b).map_err(|e| s::Error::from(if e == 0 { s::ErrorKind::Interrupted } else { s::ErrorKind::TimedOut }))
    }
}
fn kinds(a: n::ErrorKind, b: s::ErrorKind) -> bool {
    match b {
        s::ErrorKind::TimedOut => a == n::ErrorKind::TimedOut,
        s::ErrorKind::UnexpectedEof => a == n::ErrorKind::UnexpectedEof,
        s::ErrorKind::Interrupted => a == n::ErrorKind::Interrupted,
        _ => false,
    }
}
fn same_reader(a: &Script, b: &Script) {
    assert!(a.pos == b.pos && a.calls == b.calls && a.asked == b.asked, "the same calls, in order");
}
/// How a reader is passed on.
#[derive(Clone, Copy, PartialEq)]
enum Via { Itself, Ref, ByRef }
fn exact<const K: usize>(via: Via) {
    let sc = Script::any();
    let fill = sym::sym_u8();
    let (mut a, mut b) = (N(sc.clone()), S(sc));
    let (mut x, mut y) = ([fill; K], [fill; K]);
    let p = match via {
        Via::Itself => a.read_exact(&mut x),
        Via::Ref => n::Read::read_exact(&mut &mut a, &mut x),
        Via::ByRef => a.by_ref().read_exact(&mut x),
    };
    let q = s::Read::read_exact(&mut b, &mut y);
    same_reader(&a.0, &b.0);
    match (&p, &q) {
        (Ok(()), Ok(())) => {
            assert!(x == y, "same bytes");
            let mut i = 0;
            while i < K { assert!(x[i] == a.0.data[i], "the bytes of the stream, in order"); i += 1; }
        }
        (Err(e), Err(f)) => {
            assert!(kinds(e.kind(), f.kind()) && e.kind() != n::ErrorKind::Interrupted, "same error");
            reach!(a.0.calls == 3 && a.0.pos == 1 && e.kind() == n::ErrorKind::TimedOut, "fails half way");
            reach!(a.0.calls == 2 && a.0.pos == 1 && e.kind() == n::ErrorKind::UnexpectedEof, "ends half way");
        }
        _ => panic!("one fails and the other does not"),
    }
    reach!(p.is_ok() && a.0.calls == 4 && a.0.step[1] == Step::Interrupted, "in pieces, interrupted");
    core::mem::forget((p, q));
}
fn bytes_of(via: Via) {
    let sc = Script::any();
    let (mut a, mut b) = (N(sc.clone()), S(sc));
    let mut given = 0;
    {
        let mut i = match via { Via::ByRef => a.by_ref().bytes(), _ => (&mut a).bytes() };
        let mut j = s::Read::bytes(s::Read::by_ref(&mut b));
        let mut k = 0;
        while k < 3 {
            let (x, y) = (i.next(), j.next());
            match (&x, &y) {
                (None, None) => {}
                (Some(Ok(x)), Some(Ok(y))) => { assert!(x == y, "same byte"); given += 1; }
                (Some(Err(x)), Some(Err(y))) => assert!(kinds(x.kind(), y.kind()) && x.kind() != n::ErrorKind::Interrupted, "same error"),
                _ => panic!("one ends or fails and the other does not"),
            }
            core::mem::forget((x, y));
            k += 1;
        }
    }
    assert!(a.0.pos == given && a.0.pos == b.0.pos && a.0.calls == b.0.calls, "each byte once");
    reach!(given == 2 && a.0.calls == 5, "two interruptions, one end or error");
    reach!(given == 3, "all bytes");
}
/// A reader that provides its own read_exact.
struct Own(u8);
impl n::Read for Own {
    fn read(&mut self, _: &mut [u8]) -> n::Result<usize> { Ok(0) }
    fn read_exact(&mut self, b: &mut [u8]) -> n::Result<()> { let v = self.0; for x in b { *x = v; } Ok(()) }
}

harnesses! {
    exact0 [9] {
        let sc = Script::any();
        let mut a = N(sc);
        let p = a.read_exact(&mut []);
        assert!(p.is_ok() && a.0.calls == 0, "nothing to read");
        reach!(true, "nothing");
        core::mem::forget(p);
    }
    exact1 [9] {
        let sc = Script::any();
        let (mut a, mut b) = (N(sc.clone()), S(sc));
        let (mut x, mut y) = ([0u8; 1], [0u8; 1]);
        let (p, q) = (a.read_exact(&mut x), s::Read::read_exact(&mut b, &mut y));
        same_reader(&a.0, &b.0);
        assert!(p.is_ok() == q.is_ok() && (p.is_err() || x == y));
        reach!(p.is_ok() && a.0.calls == 4, "interrupted three times"); reach!(p.is_err() && a.0.calls == 3, "then fails");
        core::mem::forget((p, q));
    }
    exact3 [9] { exact::<3>(Via::Itself); }
    exact4 [9] { exact::<4>(Via::Itself); }
    exact_ref [9] { exact::<3>(Via::Ref); }
    exact_by_ref [9] { exact::<3>(Via::ByRef); }
    bytes_ref [9] { bytes_of(Via::Ref); }
    bytes_by_ref [9] { bytes_of(Via::ByRef); }
    forwarded [4] {
        let v = sym::sym_u8();
        let mut o = Own(v);
        let mut b = [0; 3];
        let p = n::Read::read_exact(&mut &mut o, &mut b);
        assert!(p.is_ok() && b == [v; 3], "a reference uses the reader's own read_exact");
        reach!(v == 3, "own");
        core::mem::forget(p);
    }
}
