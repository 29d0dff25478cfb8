//! `reader-id3v2`.

use super::build::*;
use super::run::*;
use super::sym;

fn tag(b: Build, size: u64) -> Build {
    b.put(b"ID3").put(&[3, 0]).any::<1>().put(&[(size >> 21) as u8 & 127, (size >> 14) as u8 & 127, (size >> 7) as u8 & 127, size as u8 & 127])
}

/// What follows the tags.
fn stream(b: Build) -> Build {
    match sym::choice(4) {
        0 => b.any::<4>(),
        1 => b.put(b"\xff").any::<1>(),
        2 => b.blur(b"fLaC"),
        _ => b.put(b"ID").any::<1>(),
    }
}

harnesses! {
    // One tag of any version, flags and size; the stream is at a fixed place.
    id3_jump {
        let b = file(b"ID3").filler(0).put(&[2 + sym::choice(3) as u8]).any::<6>();
        let b = stream(b.to(1000));
        agree(b.d, 1004 + one([0, 3, 6, 1 << 30]));
    }
    // The same with a second tag at a fixed place, of any size.
    id3_second {
        let b = file(b"ID3\x04\0").filler(0).any::<5>();
        let b = b.to(500).put(b"ID3\x03\0").any::<5>().to(1000).put(b"fLaC");
        agree(b.d, 2000);
    }
    // Any truncation.
    id3_cut {
        let s = one([0, 5, 127, 128]);
        let b = tag(file(b"").filler(0), s).skip(s);
        let b = stream(b);
        agree_small(b.d, cut(4, b.p + 8), 1 << 12);
    }
    // Up to three tags.
    id3_chain {
        let n = 1 + sym::choice(3);
        let mut b = file(b"").filler(0);
        for _ in 0..n {
            let s = one([0, 10, 128]);
            b = tag(b, s);
            b = b.skip(s);
        }
        let b = stream(b.skip(if sym::bool() { 10 } else { 0 }));
        agree_small(b.d, b.p + one([0, 8]), 1 << 12);
    }
    // The 256th and the 257th tag.
    id3_limit {
        let k = one([254, 255, 256, 257]);
        let mut b = file(b"").filler(0);
        for _ in 0..k {
            b = b.put(b"ID3\x04\0\0\0\0\0\0");
        }
        let b = stream(b);
        agree_small(b.d, b.p + 8, 1 << 12);
    }
}
