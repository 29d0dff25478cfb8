//! Guarantees of the entry points, on short files of any contents.

use super::build::*;
use super::h_api::{chunked, entry, faulty, Sample};
use super::spec::*;
use super::sym::Data;

/// Any file of the given length that begins with `magic`.
fn wild(magic: &[u8], len: u64) -> Sample {
    Sample { d: Data::new().put(0, magic), len, zones: ALL }
}

/// Harnesses for short files of any contents.
macro_rules! wilds {
    ($($entry:ident $chunk:ident $fault:ident $magic:expr, $len:expr, $less:expr;)*) => {
        harnesses! {
            $(
                $entry { entry(wild($magic, $len)); }
                $chunk { chunked(wild($magic, $less), 4); }
                $fault { faulty(wild($magic, $less), 4); }
            )*
        }
    };
}

wilds! {
    entry_wild_asf chunk_wild_asf fault_wild_asf super::h_asf::MAGIC, cut(16, 30), cut(16, 30);
    entry_wild_cfb chunk_wild_cfb fault_wild_cfb b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1", cut(8, 80), cut(8, 80);
    entry_wild_ebml chunk_wild_ebml fault_wild_ebml b"\x1A\x45\xDF\xA3", cut(4, 9), cut(4, 8);
    entry_wild_exe chunk_wild_exe fault_wild_exe b"MZ", one([2, 3, 30, 63, 64, 65, 90]), one([2, 30, 63, 64, 65, 90]);
    entry_wild_id3 chunk_wild_id3 fault_wild_id3 b"ID3", cut(3, 14), cut(3, 14);
    entry_wild_mp4 chunk_wild_mp4 fault_wild_mp4 b"\0\0\0\x0cftypMSNV", cut(12, 20), cut(12, 19);
    entry_wild_rm chunk_wild_rm fault_wild_rm super::h_rm::MAGIC, cut(8, 18), cut(8, 18);
    entry_wild_pdf chunk_wild_pdf fault_wild_pdf b"%PDF-", cut(5, 40), one([5, 18, 24]);
    entry_wild_sql chunk_wild_sql fault_wild_sql b"SQLite format 3\0", one([16, 99, 100, 101, 125, 126]), one([16, 99, 100, 101, 125, 126]);
    entry_wild_xml chunk_wild_xml fault_wild_xml b"<?xml", one([5, 6, 9, 12, 16]), one([5, 6, 9]);
    entry_wild_zip chunk_wild_zip fault_wild_zip b"PK\x03\x04", cut(4, 21), cut(4, 21);
    entry_wild_txt chunk_wild_txt fault_wild_txt b"zz", cut(2, 6), cut(2, 4);
    entry_wild_any chunk_wild_any fault_wild_any b"", cut(0, if cfg!(feature = "txt") { 3 } else { 7 }), cut(0, if cfg!(feature = "txt") { 2 } else { 7 });
}
