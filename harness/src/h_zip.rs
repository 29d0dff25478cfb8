//! `reader-zip`.

use super::build::*;
use super::run::*;
use super::sym;
use super::tables::{ZIP_NAMES, ZIP_TYPES};

fn zip() -> Build {
    file(b"PK\x03\x04").filler(0).to(30)
}

/// Central directory header up to the name.
fn header(b: Build, c: u64, u: u64, l: u64, x: u64, k: u64, o: u64) -> Build {
    b.put(b"PK\x01\x02").skip(16).le32(c).le32(u).le16(l).le16(x).le16(k).skip(8).le32(o)
}

/// Header of an entry of which only the name matters.
fn plain(b: Build, l: u64) -> Build {
    b.put(b"PK\x01\x02").skip(16).any::<8>().le16(l).skip(16)
}

fn entry(b: Build, name: &[u8]) -> Build {
    header(b, 5, 6, name.len() as u64, 0, 0, 0).put(name)
}

/// End of central directory record: number of entries and offset of the first.
fn eocd(b: Build, n: u64, o: u64) -> Build {
    b.put(b"PK\x05\x06").skip(6).le16(n).skip(4).le32(o).skip(2)
}

fn run(b: Build, n: u64) {
    let b = eocd(b, n, 30);
    agree_small(b.d, b.p, 64);
}

/// Names that decide by their beginning and end.
const RULES: &[(&[u8], &[u8])] = &[
    (b"Fusion[Active]/", b"x"),
    (b"circuitdiagram/", b""),
    (b"dwf/", b"x"),
    (b"x", b".fb2"),
    (b"FusionAssetName[Active]/", b""),
    (b"Payload/", b"x.app/y"),
    (b"word/", b"x"),
    (b"visio/", b""),
    (b"ppt/", b"x"),
    (b"xl/", b"x"),
    (b"Documents/", b"1.fpage"),
    (b"SpaceClaim/", b""),
    (b"3D/", b"x.model"),
    (b"", b".usd"),
    (b"x", b".usda"),
    (b"x", b".usdc"),
];

fn rule(b: Build, r: u64, blurred: bool) -> Build {
    let (s, t) = RULES[r as usize];
    let mut n = [0u8; 40];
    n[..s.len()].copy_from_slice(s);
    n[s.len()..s.len() + t.len()].copy_from_slice(t);
    let n = &n[..s.len() + t.len()];
    let b = plain(b, n.len() as u64);
    if blurred {
        b.blur(n)
    } else {
        b.put(n)
    }
}

fn free(b: Build, name: &[u8]) -> Build {
    plain(b, name.len() as u64).put(name)
}

/// An entry of one of several kinds.
fn some(b: Build) -> Build {
    match sym::choice(7) {
        0 => free(b, b"META-INF/MANIFEST.MF"),
        1 => entry(b, b"mimetype"),
        2 => free(b, b"word/"),
        3 => free(b, b"doc.kml"),
        4 => free(b, b"x/y"),
        5 => free(b, b""),
        _ => free(b, b".usda"),
    }
}

/// `mimetype` entry whose contents are at 200, behind a local header at 100.
fn mimetype(c: u64) -> Build {
    let b = file(b"PK\x03\x04").filler(0).to(126).le16(8).le16(62).to(400);
    header(b, c, c, 8, 0, 0, 100).put(b"mimetype")
}

fn run_type(b: Build) {
    let b = eocd(b.to(460), 1, 400);
    agree_small(b.d, b.p, 64);
}

harnesses! {
    // Any ASCII name of several lengths.
    zip_ascii {
        let l = cut(4, 14);
        let b = header(zip(), 5, 6, l, 0, 0, 0).put(&sym::visible::<14>()[..l as usize]);
        run(b, 1);
    }
    zip_ascii_wide {
        let l = one([16, 18, 20, 24, 28]);
        let b = header(zip(), 5, 6, l, 0, 0, 0).put(&sym::visible::<28>()[..l as usize]);
        run(b, 1);
    }
    zip_ascii_deep {
        let l = cut(4, 40);
        let b = header(zip(), 5, 6, l, 0, 0, 0).put(&sym::visible::<40>()[..l as usize]);
        run(b, 1);
    }
    // Any ASCII media type of several lengths.
    zip_type_ascii {
        let l = cut(1, 36);
        run_type(mimetype(l).to(200).put(&sym::visible::<36>()[..l as usize]));
    }
    zip_type_ascii_more {
        let l = one([37, 40, 43, 46, 50, 62, 73]);
        run_type(mimetype(l).to(200).put(&sym::visible::<73>()[..l as usize]));
    }
    zip_type_ascii_deep {
        let l = cut(37, 80);
        run_type(mimetype(l).to(200).put(&sym::visible::<80>()[..l as usize]));
    }
    // The record at any distance from the end, any contents after it, any truncation.
    zip_eocd {
        let b = entry(zip(), b"word/");
        let b = eocd(b, 1, 30).any::<6>();
        agree(b.d, cut(b.p - 10, b.p));
    }
    // Any contents before and after the record.
    zip_around {
        let b = entry(zip(), b"word/").any::<5>();
        let b = eocd(b, 1, 30).any::<3>();
        let b = b.put(b"PK\x05").any::<2>();
        agree(b.d, b.p + one([0, 13, 14]));
    }
    // The record at the far end of the region that is searched.
    zip_far {
        let a = entry(zip(), b"word/");
        let b = eocd(a, 1, 30);
        let len = b.p + one([65_534, 65_535, 65_536]);
        agree_zones(b.d, len, [(0, b.p), (0, 0), (0, 0), (0, 0)]);
    }
    // No record, or a file shorter than one.
    zip_none {
        let b = file(if sym::choice(2) == 0 { b"PK\x03\x04" } else { b"PK\x05\x06" }).filler(0).any::<4>();
        agree(b.d, cut(1, 40));
    }
    // Any number of entries and offset in the record.
    zip_record {
        let b = entry(entry(zip(), b"x"), b"word/").to(150).put(b"PK\x05\x06").any::<6>();
        let b = match sym::choice(3) {
            0 => b.any::<2>().skip(4).le32(30).skip(2),
            1 => b.le16(1).skip(4).any::<4>().skip(2),
            _ => b.le16(2).skip(4).any::<1>().skip(5),
        };
        agree_small(b.d, 172, 100);
    }
    // ZIP64: any offset of the record in the locator.
    zip_wide {
        let b = entry(entry(zip(), b"x"), b"word/").to(150).skip(32).le64(one([1, 2])).skip(8).le64(30).to(250);
        let b = b.put(b"PK\x06\x07").skip(4);
        let p = b.p;
        let b = b.le64(150).to(p + sym::choice(8)).any::<1>().to(p + 12);
        let b = eocd(b, 0, 30);
        agree_small(b.d, b.p, 250);
    }
    zip_wide_mark {
        let b = entry(zip(), b"word/").to(150).skip(32).le64(1).skip(8).le64(30).to(250);
        let b = b.blur(b"PK\x06\x07").skip(4).le64(150).skip(4);
        let b = eocd(b, 0, 30);
        agree_small(b.d, b.p, 250);
    }
    // ZIP64: any number of entries and offset in the record.
    zip_wide_record {
        let b = entry(zip(), b"word/").to(150).skip(32);
        let b = if sym::choice(2) == 0 { b.any::<8>().skip(8).le64(30) } else { b.le64(1).skip(8).any::<8>() };
        let b = eocd(b.to(250).put(b"PK\x06\x07").skip(4).le64(150).skip(4), 0, 30);
        agree_small(b.d, b.p, 100);
    }
    // The locator does not fit before the record.
    zip_locator {
        let k = one([17, 18, 19, 20, 21, 22]);
        let mut b = file(b"PK\x06\x07").filler(0);
        if k > 20 {
            b = file(b"PK\x03\x04").to(k - 20).put(b"PK\x06\x07");
        }
        let b = eocd(b.to(k), 1, 60).to(60);
        let b = entry(b, b"word/");
        let b = b.skip(one([0, 30]));
        // a file that begins with the record is one
        let b = if k > 20 { b } else { b.to(0).put(b"PK\x03\x04").to(b.p) };
        agree_small(b.d, b.p, 300);
    }
    // Names of up to three arbitrary bytes.
    zip_name {
        let l = sym::choice(4);
        let b = header(zip(), 0, 0, l, 0, 0, 0);
        let b = match l {
            0 => b,
            1 => b.any::<1>(),
            2 => b.any::<2>(),
            _ => b.any::<3>(),
        };
        run(b, 1);
    }
    // Each name that decides, one byte of it arbitrary.
    zip_names {
        let (n, _) = ZIP_NAMES[sym::choice(ZIP_NAMES.len() as u64) as usize];
        run(plain(zip(), n.len() as u64).blur(n), 1);
    }
    // Whatever else the headers and the record say.
    zip_fields {
        let n: &[u8] = match sym::choice(6) {
            0 => b"META-INF/MANIFEST.MF",
            1 => b"AndroidManifest.xml",
            2 => b"word/",
            3 => b"doc.kml",
            4 => b"x.usda",
            _ => b"a/b",
        };
        let b = file(b"PK\x03\x04").filler(0).to(12).any::<18>();
        let b = b.put(b"PK\x01\x02").any::<24>().le16(n.len() as u64).le16(0).le16(0).any::<12>().put(n);
        let b = b.put(b"PK\x01\x02").any::<24>().le16(3).le16(0).le16(0).any::<12>().put(b"ppt").skip(30);
        let b = b.put(b"PK\x05\x06").any::<6>().le16(2).any::<4>().le32(30).any::<2>();
        agree_small(b.d, b.p, 64);
    }
    // Each name that decides, longer or shorter.
    zip_lengths {
        let k = sym::choice(ZIP_NAMES.len() as u64 + 2) as usize;
        let n = if k < ZIP_NAMES.len() { ZIP_NAMES[k].0 } else if k == ZIP_NAMES.len() { &b"mimetype"[..] } else { &b"META-INF/MANIFEST.MF"[..] };
        let l = n.len() as u64;
        let b = match sym::choice(3) {
            0 => header(zip(), 0, 0, l - 1, 0, 0, 0).put(&n[..n.len() - 1]),
            1 => header(zip(), 0, 0, l + 1, 0, 0, 0).put(n).any::<1>(),
            _ => header(zip(), 0, 0, l + 1, 0, 0, 0).any::<1>().put(n),
        };
        run(b, 1);
    }
    // Each rule on the beginning and the end of names, one byte arbitrary.
    zip_rules {
        let r = sym::choice(RULES.len() as u64);
        run(rule(zip(), r, true), 1);
    }
    // Rules with arbitrary bytes before, between and after.
    zip_rules_wide {
        let (s, t) = RULES[sym::choice(RULES.len() as u64) as usize];
        let (s, t) = match sym::choice(4) {
            0 => (s, t),
            1 => (s, &b""[..]),
            2 => (&b""[..], t),
            _ => (&s[..s.len() - (s.len() > 0) as usize], t),
        };
        let l = (s.len() + t.len()) as u64;
        let b = match sym::choice(3) {
            0 => plain(zip(), l + 1).any::<1>().put(s).put(t),
            1 => plain(zip(), l + 1).put(s).any::<1>().put(t),
            _ => plain(zip(), l + 1).put(s).put(t).any::<1>(),
        };
        run(b, 1);
    }
    // Names that satisfy two rules.
    zip_rules_both {
        let (s, _) = RULES[sym::choice(RULES.len() as u64) as usize];
        let (_, t) = RULES[sym::choice(RULES.len() as u64) as usize];
        let l = (s.len() + t.len()) as u64;
        run(plain(zip(), l).put(s).put(t), 1);
    }
    // Three entries of several kinds; the number of entries may be smaller.
    zip_order {
        let b = some(some(some(zip())));
        run(b, 1 + sym::choice(3));
    }
    // The entry after one with an extra field and a comment of any size is at a fixed place.
    zip_next {
        let b = header(zip(), 0, 0, 3, 0, 0, 0).put(b"a/b");
        let b = b.to(60).any::<4>().to(120);
        let b = entry(b, b"word/").to(200);
        let b = eocd(b, one([1, 2]), 30);
        agree_small(b.d, b.p, 300);
    }
    // Extra fields and comments of several lengths.
    zip_next_far {
        let (x, k) = (one([0, 1, 0x7fff, 0xffff]), one([0, 1, 0x8000, 0xffff]));
        let b = header(zip(), 0, 0, 3, x, k, 0).put(b"a/b").skip(x + k);
        let p = b.p;
        let b = entry(b, b"word/").skip(one([0, 70_000]));
        let e = b.p;
        let b = eocd(b, 2, 30);
        agree_zones(b.d, b.p, [(0, 200), (p, p + 100), (e, b.p), (0, 0)]);
    }
    // Names of any length.
    zip_name_length {
        let l = one([0, 1, 2, 255, 256, 1000, 65_535]);
        let b = header(zip(), 0, 0, l, 0, 0, 0).put(b"word/");
        let b = entry(b.to(76 + l), b"xl/");
        let b = if sym::choice(2) == 0 { b } else { b.to(b.p + 70_000) };
        let b = eocd(b, 2, 30);
        agree_zones(b.d, b.p, [(0, 200), (76 + l, 76 + l + 100), (b.p - 22, b.p), (0, 0)]);
    }
    // Each media type, one byte of it arbitrary.
    zip_type {
        let (n, _) = ZIP_TYPES[sym::choice(ZIP_TYPES.len() as u64 / 2) as usize];
        run_type(mimetype(n.len() as u64).to(200).blur(n));
    }
    zip_type_more {
        let h = ZIP_TYPES.len() as u64 / 2;
        let (n, _) = ZIP_TYPES[(h + sym::choice(ZIP_TYPES.len() as u64 - h)) as usize];
        run_type(mimetype(n.len() as u64).to(200).blur(n));
    }
    // Each media type, longer or shorter, or between arbitrary bytes.
    zip_type_around {
        let (n, _) = ZIP_TYPES[sym::choice(ZIP_TYPES.len() as u64) as usize];
        let l = n.len() as u64;
        match sym::choice(5) {
            0 => run_type(mimetype(l - 1).to(200).put(n)),
            1 => run_type(mimetype(l + 1).to(200).put(n).any::<1>()),
            2 => run_type(mimetype(l + 1).to(200).any::<1>().put(n)),
            3 => run_type(mimetype(0).to(200).put(n)),
            _ => run_type(mimetype(l).to(199).put(n)),
        }
    }
    // White space of up to three bytes on both sides.
    zip_type_space {
        let n = b"image/openraster";
        let l = n.len() as u64;
        match sym::choice(3) {
            0 => run_type(mimetype(l + 3).to(200).any::<3>().put(n)),
            1 => run_type(mimetype(l + 3).to(200).put(n).any::<3>()),
            _ => run_type(mimetype(l + 2).to(200).any::<1>().put(n).any::<1>()),
        }
    }
    // Any sizes of the entry: stored if they are equal.
    zip_stored {
        let b = file(b"PK\x03\x04").filler(0).to(126).le16(8).le16(62).to(200).put(b"image/openraster").to(400);
        let b = b.put(b"PK\x01\x02").skip(16);
        let b = if sym::choice(2) == 0 { b.le32(16).any::<4>() } else { b.put(&[16]).any::<1>().skip(2).put(&[16]).any::<1>().skip(2) };
        let b = b.le16(8).le16(0).le16(0).skip(8).le32(100).put(b"mimetype");
        let b = eocd(entry(b, b"word/"), 2, 400);
        agree_small(b.d, b.p, 64);
    }
    // Any place of the local header, any lengths in it.
    zip_local {
        let b = file(b"PK\x03\x04").filler(0).to(126).any::<4>().to(200).put(b"image/openraster").to(400);
        let b = header(b, 16, 16, 8, 0, 0, 100).put(b"mimetype");
        run_type(b);
    }
    zip_offset {
        let b = file(b"PK\x03\x04").filler(0).to(126).le16(8).le16(62).to(200).put(b"image/openraster").to(400);
        let b = b.put(b"PK\x01\x02").skip(16).le32(16).le32(16).le16(8).le16(0).le16(0).skip(8).any::<4>().put(b"mimetype");
        let b = eocd(b.to(460), 1, 400);
        agree_small(b.d, b.p, 250);
    }
    // The media type is read up to a limit.
    zip_type_limit {
        let n = b"image/openraster";
        let s = one([0, 1]);
        let c = one([255, 256, 257, 258, 70_000, 0xffff_ffff]);
        let mut b = mimetype(c).to(500);
        let mut i = 0;
        while i < 240 + s {
            b = b.put(b" ");
            i += 1;
        }
        let b = b.put(n).put(b"  x");
        let b = b.to(126).le16(8).le16(362).to(900 + one([0, 70_000]));
        let e = b.p;
        let b = eocd(b, 1, 400);
        agree_zones(b.d, b.p, [(0, 800), (e, b.p), (0, 0), (0, 0)]);
    }
    // Any truncation of the entries.
    zip_cut {
        // the record comes first
        let b = eocd(file(b"PK\x03\x04").filler(0), 2, 30).to(30);
        let b = entry(entry(b, b"x"), b"word/");
        agree_small(b.d, cut(26, b.p), 300);
    }
    // The 1024th and the 1025th entry.
    zip_limit {
        let k = one([1022, 1023, 1024, 1025]);
        let mut b = zip();
        for _ in 0..k {
            b = entry(b, b"x");
        }
        run(entry(b, b"word/"), one([1023, 1024, 1025, 65_535]));
    }
}
