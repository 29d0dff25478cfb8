//! `reader-sqlite3`.

use super::build::*;
use super::run::*;
use super::sym;

const SKETCH: &[u8] = b"com.bohemiancoding.sketch3";
const END: u64 = 100 + 32_768;

fn db() -> Build {
    file(b"SQLite format 3\0").filler(0)
}

fn within(b: Build, lo: u64, hi: u64, len: u64) {
    agree_zones(b.d, len, [(lo, hi), (0, 16), (0, 0), (0, 0)]);
}

harnesses! {
    // Any contents in a window at the start and at the end of the buffer.
    sql_start {
        let b = db().to(98).any::<64>();
        within(b, 98, 162, one([120, 125, 126, 140, 161, 162, 200]));
    }
    sql_end {
        let b = db().to(END - 50).any::<64>();
        within(b, END - 50, END + 14, one([END - 1, END, END + 100]));
    }
    // The marker at any place near the ends of the buffer, one byte of it arbitrary.
    sql_marker {
        let s = if sym::choice(2) == 0 { 98 + sym::choice(4) } else { END - 28 + sym::choice(5) };
        let b = db().to(s - 1).any::<1>().blur(SKETCH);
        within(b, s - 1, s + 26, one([s + 25, s + 26, s + 50]));
    }
    // The marker after another beginning or end of it.
    sql_restart {
        let k = 1 + sym::choice(25) as usize;
        let s = 100;
        let b = db().to(s).put(if sym::choice(2) == 0 { &SKETCH[..k] } else { &SKETCH[k..] }).blur(&SKETCH[..6]).put(&SKETCH[6..]);
        within(b, s, b.p, b.p + 10);
    }
    // Any truncation.
    sql_cut {
        let b = db().to(99).any::<30>();
        within(b, 99, 129, cut(14, 140));
    }
}
