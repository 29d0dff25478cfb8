//! `reader-txt`.

use super::build::*;
use super::run::*;
use super::sym;

const LIMIT: u64 = 65_536;

fn text() -> Build {
    file(b"zz ").filler(b'a')
}

/// `n` arbitrary bytes; line feeds are separate cases.
fn bytes(mut b: Build, n: u64) -> Build {
    for _ in 0..n {
        b = if sym::choice(2) == 0 {
            b.put(b"\n")
        } else {
            let c = sym::bytes::<1>();
            sym::assume(c[0] != b'\n');
            b.put(&c)
        };
    }
    b
}

fn limit(k: u64) {
    let lead = [0xc3u8, 0xe0, 0xe1, 0xf0, 0xf1, b'\n', 0x80];
    let b = text().to(LIMIT - k).put(&[lead[sym::choice(7) as usize]]);
    let b = b.put(&[0xa0, 0x80, 0x80]);
    let b = b.to(LIMIT - k + 1 + sym::choice(2));
    let b = bytes(b, 1);
    agree(b.d, one([LIMIT, LIMIT + 9]));
}

harnesses! {
    // Any contents in a window at the start; any truncation.
    txt_start {
        let b = text().any::<5>();
        agree(b.d, cut(1, 10));
    }
    // Any contents of four bytes.
    txt_any {
        let b = text().to(100).any::<4>();
        agree(b.d, 200);
    }
    // Sequences of a lead byte and any others.
    txt_sequence {
        let lead = [0xc2u8, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5];
        let b = text().put(&[lead[sym::choice(13) as usize]]).any::<4>();
        agree(b.d, 200);
    }
    // Sequences cut by the read limit: a lead byte and one arbitrary byte at each distance.
    txt_limit_1 {
        limit(1);
    }
    txt_limit_2 {
        limit(2);
    }
    txt_limit_3 {
        limit(3);
    }
    txt_limit_any {
        let b = bytes(text().to(LIMIT - 2), 2);
        agree(b.d, one([LIMIT, LIMIT + 2]));
    }
    txt_limit_past {
        let b = bytes(text().to(LIMIT - 1), 2);
        agree(b.d, LIMIT + 1);
    }
    txt_limit_short {
        let b = bytes(text().to(LIMIT - 3), 2);
        agree(b.d, LIMIT - 1);
    }
    txt_limit_deep {
        let b = bytes(text().to(LIMIT - 3), 4);
        agree(b.d, one([LIMIT, LIMIT + 1]));
    }
    // Any contents around the end of the buffer.
    txt_buffer {
        let b = bytes(text().to(8190), 3);
        agree(b.d, one([8191, 8192, 8193, 8300]));
    }
    // Any contents around the last line that counts.
    txt_lines {
        let n = one([13, 14, 15, 16, 17]);
        let mut b = text();
        for _ in 0..n {
            b = b.skip(2).put(b"\n");
        }
        let b = b.any::<4>();
        agree(b.d, b.p + one([0, 20]));
    }
    // An invalid byte at any place.
    txt_place {
        let k = one([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 40, 1000, 8191, 8192, 8193, 16384, 40_000, 65_535, 65_536]);
        let b = bytes(text().to(k), 1);
        agree(b.d, k + 50);
    }
    // Long lines.
    txt_long {
        let mut b = text();
        for _ in 0..4 {
            b = b.skip(one([10, 9000])).put(b"\n");
        }
        let b = bytes(b, 1);
        agree(b.d, b.p + 20);
    }
}
