use super::run::agree;
use super::sym::{self, Data};

harnesses! {
    cfb_any {
        let d = Data::new().put(0, b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
        agree(d, sym::u64(8,1<<40));
    }
}
