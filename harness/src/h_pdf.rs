//! `reader-pdf`.

use super::build::*;
use super::run::*;
use super::sym;

pub const AI: &[u8] = b"AIPrivateData";
const CHUNK: u64 = 32_768;

fn pdf() -> Build {
    file(b"%PDF-").filler(0)
}

/// Runs on a file whose only bytes other than NUL, after the signature, are at `lo..hi`.
fn within(b: Build, lo: u64, hi: u64, len: u64) {
    agree_zones(b.d, len, [(lo, hi), (0, 5), (0, 0), (0, 0)]);
}

fn limit(k: u64, blurred: bool) {
    let s = 5 + 33_554_432 - k;
    let b = pdf().to(s);
    let b = if blurred { b.blur(AI) } else { b.put(AI) };
    within(b, s, b.p, s + 50);
}

harnesses! {
    // Any contents in a window at the start; any truncation within it.
    pdf_start {
        let b = pdf().any::<64>();
        within(b, 5, 69, cut(6, 70));
    }
    // Any contents in a window across a chunk boundary.
    pdf_boundary {
        let e = 5 + CHUNK * (1 + sym::choice(2));
        let b = pdf().to(e - 34).any::<64>();
        within(b, e - 34, e + 30, 5 + 3 * CHUNK);
    }
    // The same where the file ends near the boundary.
    pdf_end {
        let e = 5 + CHUNK;
        let b = pdf().to(e - 20).any::<40>();
        within(b, e - 20, e + 20, cut(e - 20, e + 22));
    }
    // The marker at any place around a chunk boundary, one byte of it arbitrary, after arbitrary bytes.
    pdf_marker {
        let e = 5 + CHUNK * (1 + sym::choice(2));
        let s = e - 13 + sym::choice(3) * 6;
        let b = pdf().to(s - 2).any::<2>().blur(AI);
        within(b, s - 2, s + 13, one([s + 12, s + 13, s + 14, s + 30]));
    }
    // The marker after another beginning of it.
    pdf_restart {
        let k = 1 + sym::choice(12);
        let e = 5 + CHUNK;
        let s = one([5, 100, e - 20, e - 13, e - 7, e]);
        let b = pdf().to(s).put(&AI[..k as usize]).blur(AI);
        within(b, s, b.p, b.p + 40);
    }
    // The marker around the read limit.
    pdf_limit_in {
        limit(13, false);
    }
    pdf_limit_out {
        limit(12, false);
    }
    pdf_limit {
        limit(one([14, 1, 0]), false);
    }
    pdf_limit_blur {
        limit(one([13, 1]), true);
    }
}
