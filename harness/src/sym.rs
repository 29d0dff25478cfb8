//! Symbolic inputs, assumptions and assertions.
//!
//! Under the symbolic executor these are intrinsics; in the replay binary the same symbols are
//! defined natively and return the recorded values.

mod ffi {
    extern "C" {
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_bool() -> bool;
        pub fn sym_bytes(p: *mut u8, n: u64);
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(p: *const u8, n: u64, c: bool);
        pub fn sym_report(p: *const u8, n: u64, v: u64);
        pub fn sym_cover(p: *const u8, n: u64);
        pub fn sym_cover_if(p: *const u8, n: u64, c: bool);
        pub fn sym_case(p: *const u8, n: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_alloc_limit(v: u64);
        pub fn sym_file_new() -> u32;
        pub fn sym_file_default(f: u32, b: u8);
        pub fn sym_file_zone(f: u32, lo: u64, hi: u64, b: u8);
        pub fn sym_file_bytes(f: u32, pos: u64, p: *const u8, n: u64);
        pub fn sym_file_pattern(f: u32, start: u64, p: *const u8, n: u64);
        pub fn sym_at(f: u32, pos: u64) -> u8;
        pub fn sym_fill(f: u32, pos: u64, p: *mut u8, n: u64);
        pub fn sym_path(f: u32, len: u64) -> u64;
        pub fn sym_trace(p: *const u8, n: u64, v: u64);
    }
}

/// Any value in `lo..=hi`.
pub fn u64(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::sym_u64(lo, hi) }
}
pub fn bool() -> bool {
    unsafe { ffi::sym_bool() }
}
/// `N` arbitrary bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { ffi::sym_bytes(b.as_mut_ptr(), N as u64) };
    b
}
/// `N` arbitrary ASCII characters, no white space.
pub fn visible<const N: usize>() -> [u8; N] {
    let b = bytes::<N>();
    let mut i = 0;
    let mut ok = true;
    while i < N {
        ok &= b[i] > b' ' && b[i] < 0x7f;
        i += 1;
    }
    assume(ok);
    b
}
/// One of `0..n`, explored one by one.
pub fn choice(n: u64) -> u64 {
    unsafe { ffi::sym_choice(n) }
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
pub fn assert(id: &str, c: bool) {
    unsafe { ffi::sym_assert(id.as_ptr(), id.len() as u64, c) }
}
/// A value compared between the symbolic execution and its native replay.
pub fn report(id: &str, v: u64) {
    unsafe { ffi::sym_report(id.as_ptr(), id.len() as u64, v) }
}
/// Vacuity witness: this point is reached.
pub fn cover(id: &str) {
    unsafe { ffi::sym_cover(id.as_ptr(), id.len() as u64) }
}
/// Vacuity witness: this point is reached with `c` true.
pub fn cover_if(id: &str, c: bool) {
    unsafe { ffi::sym_cover_if(id.as_ptr(), id.len() as u64, c) }
}
pub fn case(id: &str) {
    unsafe { ffi::sym_case(id.as_ptr(), id.len() as u64) }
}
/// Splits the exploration on the value.
pub fn concretize(v: u64) -> u64 {
    unsafe { ffi::sym_concretize(v) }
}
/// The condition, as two paths.
pub fn split(c: bool) -> bool {
    concretize(c as u64) != 0
}
/// Any single allocation above the limit is a violation.
pub fn alloc_limit(v: u64) {
    unsafe { ffi::sym_alloc_limit(v) }
}
pub fn trace(id: &str, v: u64) {
    unsafe { ffi::sym_trace(id.as_ptr(), id.len() as u64, v) }
}

/// Contents of a virtual file: an arbitrary byte at every 64-bit position unless fixed.
/// A file is completely described before it is first read.
#[derive(Clone, Copy)]
pub struct Data(pub u32);

impl Data {
    pub fn new() -> Data {
        Data(unsafe { ffi::sym_file_new() })
    }
    /// Positions not set otherwise hold `b`.
    pub fn default(self, b: u8) -> Data {
        unsafe { ffi::sym_file_default(self.0, b) };
        self
    }
    /// Positions `lo..hi` not set otherwise hold `b`.
    pub fn zone(self, lo: u64, hi: u64, b: u8) -> Data {
        unsafe { ffi::sym_file_zone(self.0, lo, hi, b) };
        self
    }
    pub fn put(self, pos: u64, b: &[u8]) -> Data {
        if !b.is_empty() {
            unsafe { ffi::sym_file_bytes(self.0, pos, b.as_ptr(), b.len() as u64) };
        }
        self
    }
    /// `N` arbitrary bytes at `pos`.
    pub fn any<const N: usize>(self, pos: u64) -> Data {
        self.put(pos, &bytes::<N>())
    }
    /// The byte sequence repeats from `start` on.
    pub fn pattern(self, start: u64, b: &[u8]) -> Data {
        unsafe { ffi::sym_file_pattern(self.0, start, b.as_ptr(), b.len() as u64) };
        self
    }
    pub fn at(self, pos: u64) -> u8 {
        unsafe { ffi::sym_at(self.0, pos) }
    }
    pub fn fill(self, pos: u64, buf: &mut [u8], n: u64) {
        unsafe { ffi::sym_fill(self.0, pos, buf.as_mut_ptr(), n) }
    }
    /// Registers the file under a path the executor's `open` knows; returns its index.
    /// A directory if the length is `u64::MAX`.
    pub fn path(self, len: u64) -> u64 {
        unsafe { ffi::sym_path(self.0, len) }
    }
}
