//! Laying out file contents.

use super::sym::{self, Data};

#[derive(Clone, Copy)]
pub struct Build {
    pub d: Data,
    pub p: u64,
}

pub fn file(magic: &[u8]) -> Build {
    Build { d: Data::new(), p: 0 }.put(magic)
}

impl Build {
    /// Everything not laid out holds `b`.
    pub fn filler(mut self, b: u8) -> Build {
        self.d = self.d.default(b);
        self
    }
    pub fn put(mut self, b: &[u8]) -> Build {
        self.d = self.d.put(self.p, b);
        self.p += b.len() as u64;
        self
    }
    /// `N` arbitrary bytes.
    pub fn any<const N: usize>(self) -> Build {
        self.put(&sym::bytes::<N>())
    }
    pub fn to(mut self, p: u64) -> Build {
        self.p = p;
        self
    }
    pub fn skip(mut self, n: u64) -> Build {
        self.p += n;
        self
    }
    pub fn le16(self, v: u64) -> Build {
        self.put(&(v as u16).to_le_bytes())
    }
    pub fn le32(self, v: u64) -> Build {
        self.put(&(v as u32).to_le_bytes())
    }
    pub fn le64(self, v: u64) -> Build {
        self.put(&v.to_le_bytes())
    }
    pub fn be32(self, v: u64) -> Build {
        self.put(&(v as u32).to_be_bytes())
    }
    pub fn be64(self, v: u64) -> Build {
        self.put(&v.to_be_bytes())
    }
    /// `b` with one byte, at any place, replaced by an arbitrary one.
    pub fn blur(self, b: &[u8]) -> Build {
        let s = self.put(b);
        let k = sym::choice(b.len() as u64);
        s.to(self.p + k).any::<1>().to(s.p)
    }
}

/// Every length in turn.
pub fn cut(lo: u64, hi: u64) -> u64 {
    sym::concretize(sym::u64(lo, hi))
}

/// One of the values.
pub fn one<const N: usize>(v: [u64; N]) -> u64 {
    v[sym::choice(N as u64) as usize]
}
