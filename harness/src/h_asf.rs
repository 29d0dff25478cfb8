//! `reader-asf`.

use super::build::*;
use super::run::*;
use super::sym;

pub const MAGIC: &[u8] = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C";
pub const STREAM: &[u8] = b"\x91\x07\xdc\xb7\xb7\xa9\xcf\x11\x8e\xe6\x00\xc0\x0c\x20\x53\x65";
pub const EXT: &[u8] = b"\x40\xa4\xd0\xd2\x07\xe3\xd2\x11\x97\xf0\x00\xa0\xc9\x5e\xa8\x50";
pub const AUDIO: &[u8] = b"\x40\x9e\x69\xf8\x4d\x5b\xcf\x11\xa8\xfd\x00\x80\x5f\x5c\x44\x2b";
pub const VIDEO: &[u8] = b"\xc0\xef\x19\xbc\x4d\x5b\xcf\x11\xa8\xfd\x00\x80\x5f\x5c\x44\x2b";
pub const DVR: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0";

/// Header with the given number of objects.
fn head(n: u64) -> Build {
    file(MAGIC).filler(0).any::<8>().le32(n).any::<2>()
}

/// One object of a chain, 64 bytes or less.
fn object(b: Build) -> Build {
    match sym::choice(6) {
        0 => b.put(STREAM).le64(40).put(AUDIO),
        1 => b.put(STREAM).le64(40).put(VIDEO),
        2 => b.put(STREAM).le64(48).any::<16>().skip(8),
        3 => b.any::<16>().le64(24),
        // 26 + 6 + 2
        4 => b.put(EXT).le64(34).le16(1).le16(2).any::<2>().le16(0).le16(0).skip(0),
        _ => b.put(EXT).le64(26).le16(0),
    }
}

harnesses! {
    // One object of any size and type.
    asf_step {
        let b = head(one([0, 1]));
        let b = match sym::choice(3) {
            0 => b.any::<16>().any::<8>(),
            1 => b.put(STREAM).any::<8>().any::<16>(),
            _ => b.put(EXT).any::<8>().le16(one([0, 1])).le16(0).any::<2>().le16(0),
        };
        agree(b.d, one([70, 1 << 40]));
    }
    // The object after one of any size is a video stream at any place.
    asf_jump {
        let n = sym::u64(0, 4000);
        let b = head(2);
        let b = match sym::choice(3) {
            0 => b.put(&[7; 16]).le64(n),
            1 => b.put(STREAM).le64(n).put(AUDIO),
            _ => b.put(EXT).le64(n).le16(0),
        };
        let b = b.to(1000).put(STREAM).any::<8>().put(VIDEO);
        agree(b.d, 5000);
    }
    // Two objects of six types; the count may be larger.
    asf_chain {
        let mut b = head(one([1, 2, 3]));
        for _ in 0..2 {
            b = object(b);
        }
        agree_small(b.d, b.p, 250);
    }
    asf_chain_deep {
        let mut b = head(one([2, 3, 4]));
        for _ in 0..3 {
            b = object(b);
        }
        agree_small(b.d, b.p, 250);
    }
    // Any truncation.
    asf_cut {
        let b = object(head(2));
        let b = b.put(STREAM).le64(40).put(AUDIO);
        agree_small(b.d, cut(16, b.p), 250);
    }
    // Stream types one byte away from the known ones.
    asf_types {
        let b = head(1).put(STREAM).le64(40);
        let b = b.blur(if sym::choice(2) == 0 { AUDIO } else { VIDEO });
        agree(b.d, b.p);
    }
    asf_guids {
        let b = head(1);
        let b = match sym::choice(2) {
            0 => b.blur(STREAM).le64(40).put(VIDEO),
            _ => b.blur(EXT).le64(500).le16(1).le16(34).put(DVR).skip(2).le16(0).le16(0),
        };
        agree(b.d, 600);
    }
    // Descriptors: names of any length up to 70, values of any length.
    asf_name {
        let l = one([0, 1, 31, 32, 33, 34, 63, 64, 65, 66, 300]);
        let b = head(1).put(EXT).le64(1000).le16(1);
        let b = b.le16(l).blur(DVR);
        agree(b.d, one([58, 89, 90, 91, 500]));
    }
    // Descriptor names of arbitrary bytes.
    asf_name_any {
        let l = one([2, 10, 24, 32, 34, 40, 64, 70]);
        let b = head(1).put(EXT).le64(1000).le16(1).le16(l).any::<70>();
        agree(b.d, 1000);
    }
    asf_descriptors {
        let b = head(1).put(EXT).le64(1000).le16(one([0, 1, 2, 3]));
        let l = one([0, 1, 63, 64, 65, 192, 40_000]);
        let v = one([0, 1, 200, 65535]);
        let b = b.le16(l).skip(l).any::<2>().le16(v).skip(v).le16(one([32, 31, 40])).put(DVR);
        agree(b.d, one([b.p - 1, b.p, b.p + 50]));
    }
    // The 32nd and the 33rd descriptor.
    asf_descriptor_limit {
        let k = one([30, 31, 32, 33]);
        let b = head(1).put(EXT).le64(1000).any::<2>();
        let b = b.skip(6 * k).le16(32).put(DVR);
        agree(b.d, 1000);
    }
    // The 256th and the 257th object.
    asf_object_limit {
        let k = one([254, 255, 256, 257]);
        let mut b = head(one([255, 256, 257, 258, 0x10000, 0xffff_ffff]));
        for _ in 0..k {
            b = b.put(&[7; 16]).le64(24);
        }
        let b = b.put(STREAM).le64(40).put(VIDEO);
        agree(b.d, b.p);
    }
}
