//! `Read + Seek` over a virtual file, with the semantics of `std::io::Cursor<&[u8]>`.

use super::sym::{self, Data};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// Upper bound on the calls one detection may make on its stream.
pub const MAX_OPS: u64 = 100_000;
/// Upper bound on the bytes it may ask for.
pub const MAX_BYTES: u64 = 256 << 20;

#[derive(Clone)]
pub struct SymFile {
    pub d: Data,
    pub len: u64,
    pub pos: u64,
    pub ops: u64,
    /// Bytes asked for, if they are counted.
    pub asked: u64,
    pub count: bool,
    /// Positions below are split into cases, one per value.
    pub grain: u64,
    /// The medium rejects positions above.
    pub max: u64,
}

impl SymFile {
    pub fn new(d: Data, len: u64) -> SymFile {
        SymFile { d, len, pos: 0, ops: 0, asked: 0, count: false, grain: 0, max: u64::MAX }
    }
    fn op(&mut self) {
        self.ops += 1;
        sym::assert("bound:stream-calls", self.ops <= MAX_OPS);
    }
}

/// `min(left, want)`, as two paths: a short read is a different course of events.
pub fn avail(len: u64, pos: u64, want: usize) -> u64 {
    if sym::split(pos >= len) {
        return 0;
    }
    let left = len - pos;
    if sym::split(left < want as u64) {
        left
    } else {
        want as u64
    }
}

/// `p`, as one path per value if it is below `grain`.
pub fn settle(grain: u64, p: u64) -> u64 {
    if grain > 0 && sym::split(p < grain) {
        sym::concretize(p)
    } else {
        p
    }
}

pub fn seek_to(len: u64, pos: u64, to: SeekFrom) -> Result<u64> {
    let (base, off) = match to {
        SeekFrom::Start(n) => return Ok(n),
        SeekFrom::End(n) => (len, n),
        SeekFrom::Current(n) => (pos, n),
    };
    match base.checked_add_signed(off) {
        Some(n) => Ok(n),
        None => Err(Error::from(ErrorKind::InvalidInput)),
    }
}

impl Read for SymFile {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op();
        if self.count {
            self.asked += buf.len() as u64;
            sym::assert("bound:bytes", self.asked <= MAX_BYTES);
        }
        let n = avail(self.len, self.pos, buf.len());
        if n == 0 {
            return Ok(0);
        }
        self.d.fill(self.pos, buf, n);
        self.pos += n;
        Ok(n as usize)
    }
}

impl Seek for SymFile {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op();
        let p = seek_to(self.len, self.pos, to)?;
        if self.max < u64::MAX && sym::split(p > self.max) {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = settle(self.grain, p);
        Ok(self.pos)
    }
}
