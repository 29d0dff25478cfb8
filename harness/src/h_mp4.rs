//! `reader-mp4`.

use super::build::*;
use super::run::*;
use super::sym;

/// `ftyp` box of 16 bytes.
fn head() -> Build {
    file(b"").filler(0xff).be32(16).put(b"ftypMSNV").any::<4>()
}

fn handler(b: Build) -> Build {
    match sym::choice(6) {
        0 => b.put(b"vide"),
        1 => b.put(b"soun"),
        2 => b.put(b"sbtl"),
        3 => b.put(b"subt"),
        4 => b.put(b"text"),
        _ => b.any::<4>(),
    }
}

fn element(b: Build) -> Build {
    match sym::choice(6) {
        0 => b.be32(one([8, 24])).put(b"moov"),
        1 => b.be32(24).put(if sym::choice(2) == 0 { b"trak" } else { b"mdia" }),
        2 => handler(b.be32(24).put(b"hdlr").any::<8>()).skip(4),
        3 => handler(b.be32(1).put(b"hdlr").be64(32).any::<8>()).skip(4),
        4 => b.be32(1).put(b"free").be64(16),
        _ => b.be32(12).any::<4>().skip(4),
    }
}

harnesses! {
    // The first box has any size, in 32 or 64 bits.
    mp4_step {
        let b = file(b"").filler(0xff);
        let b = match sym::choice(2) {
            0 => b.any::<4>().put(b"ftypMSNV"),
            _ => b.be32(1).put(b"ftypMSNV").any::<4>().to(8).any::<8>(),
        };
        agree(b.d, sym::u64(12, 1 << 33));
    }
    // A second box of any type and size.
    mp4_second {
        agree_small(head().any::<8>().d, one([16, 23, 24, 5000]), 64);
    }
    mp4_second_wide {
        agree_small(head().be32(1).any::<12>().d, one([31, 32, 5000]), 64);
    }
    mp4_handler {
        let b = head().any::<4>().put(b"hdlr").any::<4>().skip(4).any::<4>();
        agree_small(b.d, one([35, 36, 5000]), 64);
    }
    mp4_handler_wide {
        let b = head().be32(1).put(b"hdlr").any::<8>().any::<8>().put(b"vide");
        agree_small(b.d, one([43, 44, 5000]), 64);
    }
    // The box after one of any size is a handler at a fixed place.
    mp4_jump {
        let n = sym::u64(16, 2000);
        let b = head();
        let b = match sym::choice(4) {
            0 => b.be32(n).put(b"free"),
            1 => b.be32(1).put(b"free").be64(n),
            2 => b.be32(n).put(b"hdlr").skip(8).put(b"soun"),
            _ => b.be32(1).put(b"hdlr").be64(n).skip(8).put(b"soun"),
        };
        let b = b.to(1000).be32(32).put(b"hdlr").skip(8).put(b"vide");
        agree(b.d, 3000);
    }
    // Containers with 64-bit sizes are entered after 16 bytes.
    mp4_enter {
        let b = head();
        let t = [b"moov", b"trak", b"mdia", b"mdii"][sym::choice(4) as usize];
        let b = if sym::choice(2) == 0 { b.be32(8).put(t) } else { b.be32(1).put(t).be64(16) };
        let b = handler(b.be32(24).put(b"hdlr").any::<8>()).skip(4);
        agree_small(b.d, sym::u64(12, b.p), 1 << 12);
    }
    // Types one byte away from the known ones.
    mp4_types {
        let b = head();
        let b = match sym::choice(6) {
            0 => b.be32(24).blur(b"moov").be32(16).put(b"hdlr").put(b"soun"),
            1 => b.be32(24).blur(b"trak").be32(16).put(b"hdlr").put(b"soun"),
            2 => b.be32(24).blur(b"mdia").be32(16).put(b"hdlr").put(b"soun"),
            3 => b.be32(24).blur(b"hdlr").skip(8).put(b"vide").skip(4),
            4 => b.be32(24).put(b"hdlr").skip(8).blur(b"vide").skip(4),
            _ => b.be32(24).put(b"hdlr").skip(8).blur(b"soun").skip(4),
        };
        let b = b.be32(24).put(b"hdlr").skip(8).put(b"text").skip(4);
        agree(b.d, b.p);
    }
    // Up to two boxes.
    mp4_chain {
        let mut b = head();
        for _ in 0..1 + sym::choice(2) {
            b = element(b);
        }
        agree_small(b.d, b.p, 1 << 12);
    }
    // Any truncation.
    mp4_cut {
        let b = element(head());
        let b = b.be32(24).put(b"hdlr").any::<8>().put(b"vide").skip(4);
        agree_small(b.d, cut(12, b.p), 1 << 12);
    }
    // The 256th and the 257th box.
    mp4_limit {
        let k = one([253, 254, 255, 256]);
        let mut b = head();
        for _ in 0..k {
            b = b.be32(8).put(b"free");
        }
        let b = b.be32(24).put(b"hdlr").any::<8>().put(b"vide").skip(4);
        agree_small(b.d, sym::u64(b.p - 1, b.p), 1 << 12);
    }
}
