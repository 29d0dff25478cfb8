//! Replacement for `<u8 as LowerHex>::fmt`, used by the executor only for `{:02x}`; `h_hex_stub`
//! shows that it produces the same text as the real implementation for every byte.

use std::fmt::{Formatter, LowerHex, Result};

#[inline(always)]
fn digit(n: u8) -> u8 {
    let hi = n.wrapping_add(b'a' - 10);
    let lo = n.wrapping_add(b'0');
    if n < 10 {
        lo
    } else {
        hi
    }
}

#[no_mangle]
#[inline(never)]
pub fn sym_stub_hex_u8(x: &u8, f: &mut Formatter<'_>) -> Result {
    if f.width() == Some(2) && f.sign_aware_zero_pad() && !f.alternate() && !f.sign_plus() && f.precision().is_none() {
        let b = [digit(*x >> 4), digit(*x & 15)];
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
    } else {
        hex_stub_real(x, f)
    }
}

#[no_mangle]
#[inline(never)]
pub fn hex_stub_real(x: &u8, f: &mut Formatter<'_>) -> Result {
    LowerHex::fmt(x, f)
}

struct Stub(u8);
struct Real(u8);
impl std::fmt::Display for Stub {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        let _ = f;
        unreachable!()
    }
}
impl LowerHex for Stub {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        sym_stub_hex_u8(&self.0, f)
    }
}
impl LowerHex for Real {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        hex_stub_real(&self.0, f)
    }
}

harnesses! {
    h_hex_stub {
        let x = super::sym::bytes::<1>()[0];
        let a = format!("{:02x}", Stub(x));
        let b = format!("-{:02x}", Real(x));
        super::sym::assert("stub:equals-real", a.as_bytes() == &b.as_bytes()[1..]);
        super::sym::report("len", b.len() as u64);
        super::sym::cover("end");
    }
}
