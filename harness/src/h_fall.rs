//! The generic answer: no signature, or a reader that gives up.

use super::build::*;
use super::run::*;
use super::sym;

harnesses! {
    // An ID3v2 tag that does not end, or is followed by nothing.
    fall_id3 {
        let b = file(b"ID3").filler(b'a');
        match sym::choice(3) {
            0 => agree_small(b.any::<3>().d, cut(3, 8), 1 << 10),
            1 => agree_small(b.to(6).put(b"\t\t\t").any::<1>().d, one([10, 12, 100]), 1 << 10),
            _ => agree_small(b.to(6).put(b"    ").any::<2>().d, one([11, 12, 100]), 1 << 10),
        }
    }
    // MZ and no header.
    fall_exe {
        let b = file(b"MZ").filler(b'a').any::<3>();
        agree_small(b.d, one([2, 3, 5, 63, 64, 100]), 1 << 10);
    }
    // A box that does not end.
    fall_mp4 {
        let b = file(b"").filler(b'a').any::<2>().to(4).put(b"ftypMSNV").any::<2>();
        agree_small(b.d, cut(12, 18), 1 << 10);
    }
    // An archive without directory.
    fall_zip {
        let b = file(b"PK\x03\x04").filler(b'a').any::<2>();
        agree_small(b.d, one([4, 5, 21, 22, 40]), 1 << 10);
    }
    // Chunks that do not end.
    fall_rm {
        let b = file(b".RMF\0\0\0\x12").filler(b'a').any::<2>();
        agree_small(b.d, one([8, 10, 17, 18, 30]), 1 << 10);
    }
    // Any file of up to three bytes.
    fall_none {
        let b = file(b"").any::<3>();
        agree_small(b.d, cut(0, 3), 1 << 10);
    }
    // Binary and text behind any signature of two bytes.
    fall_after {
        let b = file(b"zz").filler(b'a').to(60).any::<2>();
        agree_small(b.d, one([60, 61, 62, 70]), 1 << 10);
    }
}
