//! C02: a failed primitive read restores the position and reports the I/O error.
use crate::{harnesses, reach, rd::*, sym};

macro_rules! fail {
    ($($t:ty, $w:literal);* $(;)?) => {{
        // any content, any length up to 8, any 64-bit position; any one operation may fail
        let kind = if sym::flag() { some_kind() } else { binread::io::ErrorKind::UnexpectedEof };
        let (at, eat, start, len) = (sym::upto(4) as u8, sym::upto(3), sym::sym_u64(), sym::upto(8));
        let data = sym::bytes::<8>();
        let e = some_endian();
        $({
            let mut r = Rd::<8>::over(data, len, start);
            r.kind = kind;
            r.eat = eat;
            r.fault_at = if at == 4 { NEVER } else { at };
            let got = <$t>::read_options(&mut r, &opts(e), ());
            match got {
                Ok(_) => {
                    assert!(r.hit == Hit::No, "a failed operation was ignored");
                    assert!(r.has(start, $w), "value from fewer bytes than its width");
                    assert!(r.pos == start + $w);
                }
                Err(BErr::Io(x)) => {
                    let x = x.kind();
                    if r.restore_refused(start) {
                        assert!(x == kind || x == binread::io::ErrorKind::UnexpectedEof);
                    } else {
                        assert!(r.pos == start, "position restored");
                        if r.hit == Hit::No {
                            assert!(!r.has(start, $w), "enough bytes but failed");
                            assert!(x == binread::io::ErrorKind::UnexpectedEof, "short stream is UnexpectedEof");
                        } else {
                            assert!(x == kind, "kind preserved");
                        }
                    }
                    reach!(r.hit == Hit::Read && eat > 0, "read fails after consuming");
                    reach!(r.hit == Hit::No && len > start && len - start < $w || $w == 1, "short stream");
                    reach!(start > len && r.hit == Hit::No, "past the end");
                }
                Err(_) => panic!("not an I/O error"),
            }
        })*
    }};
}

harnesses! {
    w8 [10] { fail!(u8, 1; i8, 1; char, 1) }
    w16 [10] { fail!(u16, 2; i16, 2) }
    w32 [10] { fail!(u32, 4; i32, 4) }
    w64 [10] { fail!(u64, 8; i64, 8) }
    w128 [18] { fail!(u128, 16; i128, 16) }
    wf [10] { fail!(f32, 4; f64, 8) }
}
