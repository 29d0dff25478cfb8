//! Running the library on a virtual file.

use super::file::SymFile;
use super::spec::{Src, ALL};
use super::sym::{self, Data};
use file_format::FileFormat as F;

/// Largest single allocation a detection may request.
pub const MAX_ALLOC: u64 = 1 << 20;

/// Detects the format of the first `len` bytes of `d` through the public entry point.
pub fn detect(d: Data, len: u64, grain: u64) -> F {
    sym::alloc_limit(MAX_ALLOC);
    let mut f = SymFile::new(d, len);
    f.grain = grain;
    let r = F::from_reader(&mut f);
    sym::alloc_limit(u64::MAX);
    sym::assert("ok:no-error-without-io-error", r.is_ok());
    r.unwrap_or(F::Empty)
}

/// Compares the library with the reference.
pub fn same(got: F, want: u64) {
    sym::report("got", got as u64);
    sym::assert("eq:reference", got as u64 == want);
    sym::cover("end");
}

/// Detection agrees with the reference on the first `len` bytes of `d`.
pub fn agree(d: Data, len: u64) {
    agree_src(Src { d, len, zones: ALL, grain: 0 });
}

/// Same; positions below `grain` are taken one by one.
pub fn agree_small(d: Data, len: u64, grain: u64) {
    agree_src(Src { d, len, zones: ALL, grain });
}

/// Same; whatever lies outside the zones is NUL.
pub fn agree_zones(d: Data, len: u64, zones: [(u64, u64); 4]) {
    agree_src(Src { d, len, zones, grain: 0 });
}

pub fn agree_src(s: Src) {
    let sig = super::spec::signature(s);
    let got = detect(s.d, s.len, s.grain);
    same(got, super::spec::reference_after(s, sig));
}
