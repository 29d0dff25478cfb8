//! Signature stage.

use super::run::*;
use super::spec::*;
use super::sym::{self, Data};

harnesses! {
    // Any contents of any length.
    sig_any {
        agree(Data::new(), sym::u64(0, 1 << 40));
    }
    // Any contents of any length that match a signature.
    sig_text {
        let (d, len) = (Data::new(), sym::u64(1, 1 << 40));
        let s = Src { d, len, zones: ALL, grain: 0 };
        let sig = signature(s);
        sym::assume(sig != NONE);
        let got = detect(d, len, 0);
        same(got, reference_after(s, sig));
    }
    // Any contents of any length with a signature that no enabled reader is for.
    sig_other {
        let (d, len) = (Data::new(), sym::u64(0, 1 << 40));
        let s = Src { d, len, zones: ALL, grain: 0 };
        let sig = signature(s);
        sym::assume(!has_reader(sig));
        if cfg!(feature = "txt") {
            sym::assume(sig != NONE);
        }
        let got = detect(d, len, 0);
        same(got, reference_after(s, sig));
    }
}
