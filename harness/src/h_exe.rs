//! `reader-exe`.

use super::run::agree;
use super::sym::{self, Data};

harnesses! {
    // Any contents of any length after the magic number.
    exe_any {
        let d = Data::new().put(0, if sym::choice(2) == 0 { b"MZ" } else { b"ZM" }).put(4, b"\0");
        agree(d, sym::u64(3, 1 << 40));
    }
}
