//! C21: the no_std Cursor behaves like std::io::Cursor, which is executed alongside as the oracle.
use crate::{harnesses, reach, sym};
use binread::io::{self as n, Read as _, Seek as _};
use std::io as s;
use std::io::{Read as _, Seek as _};

type Slice<'a> = (n::Cursor<&'a [u8]>, s::Cursor<&'a [u8]>);

fn pair(d: &[u8], pos: u64) -> Slice<'_> {
    let mut a = (n::Cursor::new(d), s::Cursor::new(d));
    assert!(a.0.position() == 0, "starts at 0");
    a.0.set_position(pos);
    a.1.set_position(pos);
    a
}
fn kind(k: s::ErrorKind) -> Option<n::ErrorKind> {
    match k {
        s::ErrorKind::InvalidInput => Some(n::ErrorKind::InvalidInput),
        s::ErrorKind::UnexpectedEof => Some(n::ErrorKind::UnexpectedEof),
        _ => None,
    }
}
fn same(a: &n::Result<u64>, b: &s::Result<u64>) {
    match (a, b) {
        (Ok(x), Ok(y)) => assert!(x == y, "same position returned"),
        (Err(x), Err(y)) => assert!(Some(x.kind()) == kind(y.kind()), "same kind of error"),
        _ => panic!("one fails and the other does not"),
    }
}
fn agree(c: &Slice<'_>, d: &[u8]) {
    assert!(c.0.position() == c.1.position(), "same position");
    assert!(c.0.get_ref().len() == d.len() && c.0.get_ref().as_ptr() == d.as_ptr(), "same buffer");
}
fn seeked(c: &mut Slice<'_>, which: u64, off: u64) -> bool {
    let (a, b) = match which {
        0 => (c.0.seek(n::SeekFrom::Start(off)), c.1.seek(s::SeekFrom::Start(off))),
        1 => (c.0.seek(n::SeekFrom::End(off as i64)), c.1.seek(s::SeekFrom::End(off as i64))),
        _ => (c.0.seek(n::SeekFrom::Current(off as i64)), c.1.seek(s::SeekFrom::Current(off as i64))),
    };
    same(&a, &b);
    let ok = a.is_ok();
    core::mem::forget((a, b));
    ok
}
/// One read into a buffer of `K` bytes.
fn read<const K: usize>(c: &mut Slice<'_>) -> usize {
    let fill = sym::sym_u8();
    let (mut x, mut y) = ([fill; K], [fill; K]);
    let (a, b) = (c.0.read(&mut x), c.1.read(&mut y));
    assert!(x == y, "same bytes");
    let (Ok(i), Ok(j)) = (&a, &b) else { panic!("a cursor never fails to read") };
    assert!(i == j, "same count");
    let i = *i;
    core::mem::forget((a, b));
    i
}

harnesses! {
    seek_any [3] {
        let data: [u8; 4] = sym::bytes();
        let len = sym::upto(4) as usize;
        let d = &data[..len];
        let mut c = pair(d, sym::sym_u64());
        let (which, off) = (sym::upto(2), sym::sym_u64());
        let before = c.0.position();
        let ok = seeked(&mut c, which, off);
        agree(&c, d);
        assert!(ok || c.0.position() == before, "a refused seek does not move");
        reach!(!ok && which == 1, "before the start");
        reach!(!ok && which == 2 && (off as i64) > 0, "past the largest position");
        reach!(ok && which == 2 && (off as i64) < 0, "backwards");
        reach!(ok && which == 1 && off == 1 << 63 >> 1, "far past the end");
        reach!(!ok && off == 1 << 63, "the most negative offset");
        reach!(ok && which == 2 && off == 1 << 63, "the most negative offset from far away");
    }
    position [2] {
        let data: [u8; 4] = sym::bytes();
        let mut c = pair(&data, sym::sym_u64());
        let (a, b) = (c.0.stream_position(), c.1.stream_position());
        same(&a, &b);
        agree(&c, &data);
        let (a, b) = (n::StreamPosition::stream_pos(&mut c.0), c.1.stream_position());
        same(&a, &b);
        let (mut rn, mut rs) = (&mut c.0, &mut c.1);
        let (off, which) = (sym::sym_u64(), sym::flag());
        let (p, q) = if which {
            (n::SeekFrom::Current(off as i64), s::SeekFrom::Current(off as i64))
        } else {
            (n::SeekFrom::Start(off), s::SeekFrom::Start(off))
        };
        let (a, b) = (n::Seek::seek(&mut rn, p), s::Seek::seek(&mut rs, q));
        same(&a, &b);
        let (a, b) = (n::Seek::stream_position(&mut rn), s::Seek::stream_position(&mut rs));
        same(&a, &b);
        agree(&c, &data);
        reach!(c.0.position() > 1 << 63, "huge");
    }
    read0 [10] { one_read::<0>(); }
    read1 [10] { one_read::<1>(); }
    read3 [10] { one_read::<3>(); }
    read5 [10] { one_read::<5>(); }
    history [7] {
        let data: [u8; 3] = sym::bytes();
        let len = sym::upto(3) as usize;
        let d = &data[..len];
        let mut c = pair(d, 0);
        let mut i = 0;
        let mut moved = 0;
        while i < 4 {
            match sym::upto(4) {
                0 => { moved += read::<2>(&mut c); }
                1 => { let p = sym::sym_u64(); c.0.set_position(p); c.1.set_position(p); }
                w => { seeked(&mut c, w - 2, sym::sym_u64()); }
            }
            agree(&c, d);
            i += 1;
        }
        reach!(moved == 3, "read twice");
        reach!(moved == 5, "read again after a seek back");
    }
    owned [7] {
        let data: [u8; 4] = sym::bytes();
        let len = sym::upto(2) as usize;
        let pos = sym::sym_u64();
        let (mut a, mut b) = (n::Cursor::new(data[..len].to_vec()), s::Cursor::new(data[..len].to_vec()));
        a.set_position(pos);
        b.set_position(pos);
        // the buffer can grow and change under the cursor
        let v = sym::sym_u8();
        a.get_mut().push(v);
        b.get_mut().push(v);
        let (mut x, mut y) = ([0u8; 2], [0u8; 2]);
        let (p, q) = (a.read(&mut x), b.read(&mut y));
        assert!(p.is_ok() && q.is_ok() && p.as_ref().ok() == q.as_ref().ok() && x == y && a.position() == b.position());
        let (va, vb) = (a.into_inner(), b.into_inner());
        assert!(va.len() == len + 1 && vb.len() == len + 1 && va[len] == v);
        reach!(len == 1 && pos == 0 && x[1] == 9, "read what was added");
        core::mem::forget((p, q, va, vb));
    }
    array [7] {
        let data: [u8; 3] = sym::bytes();
        let pos = sym::sym_u64();
        let (mut a, mut b) = (n::Cursor::new(data), s::Cursor::new(data));
        a.set_position(pos);
        b.set_position(pos);
        let mut a2 = a.clone();
        let k = sym::sym_u8();
        a2.get_mut()[0] = k;
        let (mut x, mut y) = ([1u8; 2], [1u8; 2]);
        let (p, q) = (a.read(&mut x), b.read(&mut y));
        assert!(p.is_ok() && p.as_ref().ok() == q.as_ref().ok() && x == y && a.position() == b.position());
        assert!(a2.position() == pos && a2.get_ref()[0] == k && *a.get_ref() == data, "a clone is independent");
        let d: n::Cursor<&[u8]> = Default::default();
        assert!(d.position() == 0 && d.get_ref().is_empty());
        reach!(pos == 2, "last byte"); reach!(pos > 3, "past the end");
        core::mem::forget((p, q));
    }
}
fn one_read<const K: usize>() {
    let data: [u8; 8] = sym::bytes();
    let len = sym::upto(8) as usize;
    let d = &data[..len];
    let mut c = pair(d, sym::sym_u64());
    let before = c.0.position();
    let got = read::<K>(&mut c);
    agree(&c, d);
    assert!(c.0.position() == before + got as u64);
    let more = read::<K>(&mut c);
    agree(&c, d);
    reach!(got == K && before == 1, "full");
    reach!(got == 0 && before == u64::MAX, "at the largest position");
    reach!(more == 0 && before == 2, "then nothing");
}
