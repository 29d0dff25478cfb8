//! `reader-ebml`.

use super::build::*;
use super::run::*;
use super::sym;

const ID: &[u8] = b"\x1A\x45\xDF\xA3";
const CLUSTER: &[u8] = b"\x1F\x43\xB6\x75";

fn head() -> Build {
    file(ID).filler(0).put(b"\x80\0\0").to(5)
}

fn codec(b: Build) -> Build {
    match sym::choice(4) {
        0 => b.put(b"\x86\x82A_"),
        1 => b.put(b"\x86\x85V_ABC"),
        2 => b.put(b"\x86\x40\x04S_TE"),
        _ => b.put(b"\x86\x82").any::<2>(),
    }
}

fn element(b: Build) -> Build {
    match sym::choice(7) {
        0 => codec(b),
        1 => b.put(b"\xAE\x90"),
        2 => b.put(b"\x42\x82\x88matroska"),
        3 => b.put(b"\x53\xB8\x81").any::<1>(),
        4 => b.put(b"\xEC\x82").any::<2>(),
        5 => b.put(CLUSTER).put(b"\x81"),
        _ => b.any::<1>().put(b"\x81").any::<1>(),
    }
}

harnesses! {
    // One element of any identifier and size.
    ebml_step {
        let b = head();
        let b = match sym::choice(3) {
            0 => b.any::<4>(),
            1 => b.put(b"\xEC\x01").any::<8>(),
            _ => b.put(b"\x86").any::<4>().put(b"_"),
        };
        agree_small(b.d, one([8, 16, 5000]), 32);
    }
    // Any truncation of the first element.
    ebml_cut {
        let b = head();
        let b = if sym::choice(2) == 0 { b.any::<4>() } else { b.put(b"\x86").any::<2>().put(b"_") };
        agree_small(b.d, cut(4, 12), 16);
    }
    // Every element of up to three bytes of identifier and size, and its first bytes of data.
    ebml_doctype {
        let b = file(ID).filler(0).any::<1>().put(b"\x42\x82").any::<1>();
        let b = b.blur(if sym::choice(2) == 0 { b"matroska" } else { b"webm\0\0\0\0" });
        agree_small(b.d, one([8, 11, 12, 15, 16, 40]), 256);
    }
    // Codec identifiers of any size.
    ebml_codec {
        let s = cut(0, 100);
        let b = head().put(b"\x86\x40").put(&[s as u8]);
        let t = sym::choice(3);
        let b = b.put(&[b"AVS"[t as usize]]).any::<1>().to(b.p + 100).put(b"\x86\x82V_");
        agree_small(b.d, one([9, 60, 72, 73, 300]), 1 << 12);
    }
    // Codec identifiers and document types of arbitrary bytes.
    ebml_codec_any {
        let s = one([2, 5, 9, 16, 22, 40, 64, 70]);
        let b = head().put(b"\x86").put(&[0x80 | s as u8]).any::<64>().to(s + 6).put(b"\x86\x82A_");
        agree(b.d, b.p);
    }
    ebml_doctype_any {
        let s = cut(1, 12);
        let b = head().put(b"\x42\x82").put(&[0x80 | s as u8]).any::<12>().to(s + 7).put(b"\x86\x82A_");
        agree(b.d, b.p);
    }
    // Stereo mode of any size; some byte is not NUL.
    ebml_stereo {
        let s = one([0, 1, 2, 7, 8, 9, 20]);
        let b = head().put(b"\x53\xB8").put(&[0x80 | s as u8]);
        let k = sym::choice(10);
        let d = b.to(b.p + k).any::<1>().to(b.p + s).put(b"\x86\x82A_");
        agree_small(d.d, sym::u64(8, d.p), 1 << 12);
    }
    // Up to three elements; any truncation.
    ebml_chain {
        let mut b = head();
        for _ in 0..sym::choice(3) {
            b = element(b);
        }
        agree_small(b.d, cut(b.p - 3, b.p + 1), 256);
    }
    // Sizes in every number of bytes.
    ebml_sizes {
        let k = sym::choice(8) + 1;
        let mut b = head().put(if sym::choice(2) == 0 { b"\x86" } else { b"\xEC" });
        let mut i = 0;
        while i < k {
            let v = if i == k - 1 { 3 } else { 0 };
            b = b.put(&[v | if i == 0 { 0x80 >> (k - 1) } else { 0 }]);
            i += 1;
        }
        let b = b.put(b"V_x").put(b"\x86\x82").any::<2>();
        agree_small(b.d, b.p, 1 << 12);
    }
    // The 256th and the 257th element.
    ebml_limit {
        let k = one([252, 253, 254, 255, 256, 257]);
        let mut b = head();
        for _ in 0..k {
            b = b.put(b"\xEC\x80");
        }
        let b = b.put(b"\x86\x82").any::<2>();
        agree_small(b.d, sym::u64(b.p - 1, b.p), 1 << 12);
    }
    // Elements whose data is read, of any 56-bit size.
    ebml_huge {
        let b = head();
        let b = match sym::choice(3) {
            0 => b.put(b"\x42\x82\x01").any::<7>().put(b"matroska"),
            1 => b.put(b"\x86\x01").any::<7>().put(b"A_"),
            _ => b.put(b"\x53\xB8\x01").any::<7>().skip(7).any::<1>(),
        };
        agree_small(b.d, one([15, 30, 90, 200]), 256);
    }
}
