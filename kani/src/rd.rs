//! The environment: a seekable byte source with symbolic content, length and position, which can
//! fail any one operation.
use crate::sym;
use binread::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
pub use binread::{BinRead, BinReaderExt, BinResult, Endian, ReadOptions};
pub type BErr = binread::Error;

pub const NEVER: u8 = u8::MAX;

pub struct Rd<const N: usize> {
    pub data: [u8; N],
    /// Bytes available: `data[..len]`.
    pub len: u64,
    pub pos: u64,
    /// Number of operations performed so far.
    pub ops: u8,
    /// The operation with this index fails (`NEVER`: none does).
    pub fault_at: u8,
    /// ... with this kind.
    pub kind: ErrorKind,
    /// How far a failing read moves the position before it fails.
    pub eat: u64,
    /// The operation that was made to fail.
    pub hit: Hit,
    /// Positions seen by reads: the highest end of a read.
    pub high: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hit {
    No,
    Read,
    /// A seek to this absolute position.
    Start(u64),
    Other,
}

pub fn io_err(kind: ErrorKind) -> Error {
    #[cfg(not(feature = "c_nostd"))]
    {
        Error::from(kind)
    }
    #[cfg(feature = "c_nostd")]
    {
        Error::new(kind, ())
    }
}

/// A kind that binread itself never produces or interprets.
pub fn some_kind() -> ErrorKind {
    match sym::upto(4) {
        0 => ErrorKind::Other,
        1 => ErrorKind::BrokenPipe,
        2 => ErrorKind::InvalidData,
        3 => ErrorKind::WouldBlock,
        _ => ErrorKind::PermissionDenied,
    }
}

impl<const N: usize> Rd<N> {
    pub fn over(data: [u8; N], len: u64, pos: u64) -> Self {
        Rd { data, len, pos, ops: 0, fault_at: NEVER, kind: ErrorKind::Other, eat: 0, hit: Hit::No, high: 0 }
    }
    /// Arbitrary content, any length up to `N`, position 0.
    pub fn any() -> Self {
        let data = sym::bytes::<N>();
        let len = sym::upto(N as u64);
        Self::over(data, len, 0)
    }
    /// As `any`, at an arbitrary position up to `maxpos`.
    pub fn any_at(maxpos: u64) -> Self {
        let mut r = Self::any();
        r.pos = sym::upto(maxpos);
        r
    }
    /// Makes an arbitrary operation fail (or none).
    pub fn faulty(mut self) -> Self {
        self.fault_at = sym::sym_u8();
        self
    }
    pub fn b(&self, p: u64) -> u8 {
        self.data[p as usize]
    }
    /// The bytes at `p..p+W`, as an array, for use with `from_be_bytes` and friends.
    pub fn at<const W: usize>(&self, p: u64) -> [u8; W] {
        let mut a = [0; W];
        let mut i = 0;
        while i < W {
            a[i] = self.data[p as usize + i];
            i += 1;
        }
        a
    }
    pub fn has(&self, p: u64, w: u64) -> bool {
        p <= self.len && self.len - p >= w
    }
    /// Was the failing operation one that tried to go back to `start`?
    pub fn restore_refused(&self, start: u64) -> bool {
        self.hit == Hit::Start(start)
    }
    fn tick(&mut self, what: Hit) -> Result<()> {
        let o = self.ops;
        self.ops = o.saturating_add(1);
        if o == self.fault_at && self.fault_at != NEVER {
            self.hit = what;
            Err(io_err(self.kind))
        } else {
            Ok(())
        }
    }
}

impl<const N: usize> Read for Rd<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.tick(Hit::Read)?;
        let avail = if self.pos >= self.len { 0 } else { self.len - self.pos };
        let n = if avail < buf.len() as u64 { avail as usize } else { buf.len() };
        if n == 1 {
            buf[0] = self.data[self.pos as usize];
        } else {
            let mut i = 0;
            while i < n {
                buf[i] = self.data[self.pos as usize + i];
                i += 1;
            }
        }
        self.pos += n as u64;
        if self.pos > self.high {
            self.high = self.pos;
        }
        Ok(n)
    }

    // The contract of `read_exact` given directly, so that its retry loop (std's code, or the
    // no_std copy decided by C22) is not unrolled in every harness. C23 uses a reader without it.
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        if let Err(e) = self.tick(Hit::Read) {
            self.pos = self.pos.saturating_add(self.eat);
            return Err(e);
        }
        let n = buf.len();
        if !self.has(self.pos, n as u64) {
            if n > 0 && self.pos < self.len {
                self.pos = self.len;
            }
            if n > 0 {
                return Err(io_err(ErrorKind::UnexpectedEof));
            }
            return Ok(());
        }
        let p = self.pos as usize;
        match n {
            0 => {}
            1 => buf[0] = self.data[p],
            2 => {
                buf[0] = self.data[p];
                buf[1] = self.data[p + 1];
            }
            3 => {
                buf[0] = self.data[p];
                buf[1] = self.data[p + 1];
                buf[2] = self.data[p + 2];
            }
            4 => {
                buf[0] = self.data[p];
                buf[1] = self.data[p + 1];
                buf[2] = self.data[p + 2];
                buf[3] = self.data[p + 3];
            }
            _ => {
                let mut i = 0;
                while i < n {
                    buf[i] = self.data[p + i];
                    i += 1;
                }
            }
        }
        self.pos += n as u64;
        if self.pos > self.high {
            self.high = self.pos;
        }
        Ok(())
    }
}

impl<const N: usize> Seek for Rd<N> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.tick(match to {
            SeekFrom::Start(n) => Hit::Start(n),
            _ => Hit::Other,
        })?;
        let (base, off) = match to {
            SeekFrom::Start(n) => {
                self.pos = n;
                return Ok(n);
            }
            SeekFrom::End(n) => (self.len, n),
            SeekFrom::Current(n) => (self.pos, n),
        };
        match base.checked_add_signed(off) {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(io_err(ErrorKind::InvalidInput)),
        }
    }
}

pub fn opts(endian: Endian) -> ReadOptions {
    let mut o = ReadOptions::default();
    o.endian = endian;
    o
}
pub fn some_endian() -> Endian {
    match sym::upto(2) {
        0 => Endian::Big,
        1 => Endian::Little,
        _ => Endian::Native,
    }
}
/// What `e` means for multi-byte values on this host.
pub fn is_be(e: Endian) -> bool {
    match e {
        Endian::Big => true,
        Endian::Little => false,
        Endian::Native => cfg!(target_endian = "big"),
    }
}
pub fn u16e(b: [u8; 2], e: Endian) -> u16 {
    if is_be(e) { (b[0] as u16) << 8 | b[1] as u16 } else { (b[1] as u16) << 8 | b[0] as u16 }
}
pub fn u32e(b: [u8; 4], e: Endian) -> u32 {
    if is_be(e) {
        (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32
    } else {
        (b[3] as u32) << 24 | (b[2] as u32) << 16 | (b[1] as u32) << 8 | b[0] as u32
    }
}
pub fn is_eof<T>(r: &BinResult<T>) -> bool {
    is_io(r, ErrorKind::UnexpectedEof)
}
pub fn is_io<T>(r: &BinResult<T>, k: ErrorKind) -> bool {
    matches!(r, Err(BErr::Io(e)) if e.kind() == k)
}
