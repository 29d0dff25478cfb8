//! Information on formats.

use super::meta::*;
use super::sym;
use core::fmt::{self, Write};
use file_format::FileFormat as F;

/// Keeps what is written to it, up to `room` bytes.
struct Sink {
    buf: [u8; 128],
    len: usize,
    room: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            if self.len >= self.room {
                return Err(fmt::Error);
            }
            self.buf[self.len] = b;
            self.len += 1;
        }
        Ok(())
    }
}

fn sink(room: usize) -> Sink {
    Sink { buf: [0; 128], len: 0, room }
}

fn token(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b.len() <= 127
        && b[0].is_ascii_alphanumeric()
        && b.iter().all(|&c| c.is_ascii_alphanumeric() || b"!#$&-^_.+".contains(&c))
}

/// `type/subtype`, in lower case.
fn media_type(s: &str) -> bool {
    let mut p = s.split('/');
    matches!((p.next(), p.next(), p.next()), (Some(a), Some(b), None) if token(a) && token(b)) && !s.bytes().any(|c| c.is_ascii_uppercase())
}

/// Any format, and what is documented about it.
fn any() -> Entry {
    let i = sym::concretize(sym::u64(0, META.len() as u64 - 1)) as usize;
    let e = META[i];
    sym::report("format", e.0 as u64);
    e
}

/// Any format.
fn any_format() -> (u64, F) {
    let i = sym::u64(0, META.len() as u64 - 1);
    (i, META[i as usize].0)
}

harnesses! {
    // Every format: what is said about it is what is documented, and well formed.
    meta_entry {
        let (f, kind, name, short, media, ext) = any();
        sym::assert("meta: name", f.name() == name);
        sym::assert("meta: short name", f.short_name() == if short.is_empty() { None } else { Some(short) });
        sym::assert("meta: media type", f.media_type() == media);
        sym::assert("meta: well-formed media type", media_type(f.media_type()));
        let top = media.split('/').next().unwrap_or("");
        sym::assert("meta: top-level media type", ["application", "audio", "font", "image", "model", "text", "video"].contains(&top));
        sym::assert("meta: extension", f.extension() == ext);
        sym::assert("meta: kind", f.kind() == kind);
        sym::cover("end");
    }
    // Every format is displayed as its name.
    meta_display {
        let (f, _, name, ..) = any();
        let mut s = sink(128);
        let r = write!(s, "{}", f);
        sym::assert("meta: displayed", r.is_ok());
        sym::assert("meta: displayed name", &s.buf[..s.len] == name.as_bytes());
        sym::cover("end");
    }
    // ... and a failure to write it is passed on.
    meta_sink {
        let (f, _, name, ..) = any();
        let room = sym::concretize(sym::u64(0, 4)) as usize;
        sym::assume(room < name.len());
        let mut s = sink(room);
        sym::assert("meta: failure to write", write!(s, "{}", f).is_err());
        sym::cover("end");
    }
    // Any two formats are equal exactly if they are the same one.
    meta_eq {
        let ((i, a), (j, b)) = (any_format(), any_format());
        sym::assert("meta: equality", (a == b) == (i == j));
        sym::assert("meta: copies", a.clone() == a);
        sym::assert("meta: default", (a == F::default()) == (a == F::ArbitraryBinaryData));
        sym::cover("end");
    }
    // Any two formats of different names are different.
    meta_unique {
        let (f, _, name, ..) = any();
        let mut k = 0;
        let mut n = 0;
        while k < META.len() {
            n += (META[k].0.name() == name) as u64;
            k += 1;
        }
        sym::assert("meta: unique name", n == 1 && f.name() == name);
        sym::cover("end");
    }
}
