//! Detections do not influence each other.

use super::build::*;
use super::file::SymFile;
use super::h_api::{self as api, Sample};
use super::run::*;
use super::spec::*;
use super::sym::{self, Data};
use file_format::FileFormat as F;

/// The answer is that of the first detection, whatever was detected since.
fn after(first: Sample, then: Sample) {
    let a = detect(then.d, then.len, 0);
    let b = detect(first.d, first.len, 0);
    let c = detect(then.d, then.len, 0);
    sym::report("got", a as u64);
    sym::report("first", b as u64);
    sym::assert("hist:same", c as u64 == a as u64);
    sym::cover("end");
}

/// One sample of each container, contents fixed but for one byte in some.
fn some(lo: u64, hi: u64) -> Sample {
    match lo + sym::choice(hi - lo) {
        0 => api::asf::<10_000>(),
        1 => api::cfb::<100>(),
        2 => api::ebml::<0x2000>(),
        3 => api::exe::<9_000>(),
        4 => api::id3v2::<12_288>(),
        5 => api::mp4::<9_000>(),
        6 => api::rm::<9_000>(),
        7 => api::zip::<40_000>(),
        8 => api::sig(),
        9 => api::pdf::<32_768>(),
        10 => api::sqlite3::<20_000>(),
        11 => api::xml(),
        _ => api::txt(),
    }
}

fn wild(magic: &[u8], len: u64) -> Sample {
    Sample { d: Data::new().put(0, magic), len, zones: ALL }
}

/// The answer stays the same, however often it is asked for.
fn often(s: Sample, n: u64) {
    let a = detect(s.d, s.len, 0);
    sym::report("got", a as u64);
    let mut same = true;
    let mut i = 0;
    while i < n {
        same &= detect(s.d, s.len, 0) as u64 == a as u64;
        i += 1;
    }
    sym::assert("hist:often", same);
    sym::cover("end");
}

/// Detections that failed leave nothing behind.
fn after_failure(s: Sample, n: u64) {
    struct Dead;
    impl std::io::Read for Dead {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
            Err(std::io::Error::from(std::io::ErrorKind::PermissionDenied))
        }
    }
    impl std::io::Seek for Dead {
        fn seek(&mut self, _: std::io::SeekFrom) -> std::io::Result<u64> {
            Err(std::io::Error::from(std::io::ErrorKind::PermissionDenied))
        }
    }
    let a = detect(s.d, s.len, 0);
    let mut i = 0;
    while i < n {
        sym::assert("hist:error", F::from_reader(Dead).is_err());
        i += 1;
    }
    let b = detect(s.d, s.len, 0);
    let mut f = SymFile::new(s.d, s.len);
    let c = F::from_reader(&mut f).unwrap_or(F::Empty);
    sym::report("got", a as u64);
    sym::assert("hist:after-error", b as u64 == a as u64);
    sym::assert("hist:again", c as u64 == a as u64);
    sym::cover("end");
}

harnesses! {
    // Any two samples, one after the other, twice.
    hist_samples { after(some(0, 7), some(0, 13)); }
    hist_samples_more { after(some(7, 13), some(0, 13)); }
    hist_error { after_failure(some(0, 13), one([1, 20])); }
    hist_often { often(some(0, 9), 40); }
    hist_often_more { often(some(9, 13), 6); }
    hist_often_sig { often(api::sig(), 300); }
    // Any short files of the same length and beginning.
    hist_any { let n = cut(1, if cfg!(feature = "txt") { 2 } else { 7 }); after(wild(b"", n), wild(b"", n)); }
    hist_exe { after(wild(b"MZ", 70), wild(b"MZ", 70)); }
    hist_id3 { after(wild(b"ID3", 14), wild(b"ID3", one([12, 14]))); }
    hist_cfb { let m = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"; after(wild(m, 80), wild(m, 80)); }
    hist_xml { after(wild(b"<?xml", 9), wild(b"<?xml", 9)); }
    hist_pdf { after(wild(b"%PDF-", 20), wild(b"%PDF-", 20)); }
    hist_zip { after(wild(b"PK\x03\x04", 21), wild(b"PK\x03\x04", 21)); }
    hist_txt { after(wild(b"zz", 4), wild(b"zz", 4)); }
}
