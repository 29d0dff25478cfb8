//! `reader-rm`.

use super::build::*;
use super::run::*;
use super::sym;

pub const MAGIC: &[u8] = b".RMF\0\0\0\x12";

fn head(n: u64) -> Build {
    file(MAGIC).filler(0).any::<6>().be32(n)
}

fn mime(b: Build, l: u64) -> Build {
    let b = b.put(&[l as u8]);
    let e = b.p + l;
    match sym::choice(3) {
        0 => b.put(b"audio/"),
        1 => b.put(b"video/"),
        _ => b.any::<6>(),
    }
    .to(e)
}

fn chunk(b: Build) -> Build {
    match sym::choice(3) {
        0 => b.any::<4>().be32(12).any::<4>(),
        1 => {
            let k = 3;
            let l = one([5, 9]);
            let e = 40 + 1 + k + 1 + l;
            mime(b.put(b"MDPR").be32(e).any::<32>().put(&[k as u8]).skip(k), l)
        }
        _ => b.put(b"PROP").be32(one([8, 10])).skip(2),
    }
}

harnesses! {
    // One chunk of any type and size, in a file with any contents.
    rm_step {
        let d = file(MAGIC).to(14).be32(one([0, 1, 2])).d;
        agree(d, sym::u64(8, 1 << 40));
    }
    // The chunk after one of any size is a video stream at a fixed place.
    rm_jump {
        let n = sym::u64(0, 3000);
        let b = head(3);
        let b = match sym::choice(2) {
            0 => b.put(b"PROP").be32(n),
            _ => b.put(b"MDPR").be32(n).skip(33).put(b"\x06audio/"),
        };
        let b = b.to(1000).put(b"MDPR").be32(8).skip(33).put(b"\x06video/");
        agree(b.d, 4000);
    }
    // Stream names and MIME types of any length.
    rm_mime {
        let (k, l) = (one([0, 1, 127, 128, 255]), one([0, 1, 5, 6, 7, 128, 255]));
        let b = head(2).put(b"MDPR").be32(600).any::<32>().put(&[k as u8]);
        let e = b.p;
        let b = b.skip(k).put(&[l as u8]).blur(if sym::choice(2) == 0 { b"audio/" } else { b"video/" });
        agree(b.d, e + k + 1 + one([0, l, 400]));
    }
    // MIME types of arbitrary bytes.
    rm_mime_any {
        let l = cut(1, 40);
        let b = head(2).put(b"MDPR").be32(600).skip(32).put(&[3]).skip(3).put(&[l as u8]).any::<40>();
        agree(b.d, 700);
    }
    // Chunk types one byte away from the known one.
    rm_types {
        let b = head(2).blur(b"MDPR").be32(50).skip(33).put(b"\x06video/");
        agree(b.d, 100);
    }
    // Two chunks; any number of headers.
    rm_chain {
        let mut b = head(one([0, 1, 2, 3, 4]));
        for _ in 0..2 {
            b = chunk(b);
        }
        agree_small(b.d, b.p, 1 << 12);
    }
    // Any number of headers.
    rm_count {
        let b = file(MAGIC).filler(0).skip(6).any::<4>().put(b"PROP").be32(10).skip(2);
        let b = b.put(b"MDPR").be32(50).skip(33).put(b"\x06video/").skip(2);
        let b = b.put(b"CONT").be32(8);
        agree(b.d, b.p);
    }
    // Any truncation.
    rm_cut {
        let b = head(one([2, 3])).put(b"PROP").be32(9).skip(1);
        let b = mime(b.put(b"MDPR").be32(60).any::<32>().put(&[3]).skip(3), one([0, 6, 9]));
        agree_small(b.d, cut(8, b.p), 1 << 12);
    }
    // The 64th and the 65th chunk.
    rm_limit {
        let k = one([62, 63, 64, 65]);
        let mut b = head(one([63, 64, 65, 66, 0x10000, 0xffff_ffff]));
        for _ in 0..k {
            b = b.put(b"PROP").be32(8);
        }
        let b = b.put(b"MDPR").be32(8).skip(33).put(b"\x06video/");
        agree(b.d, b.p);
    }
}
