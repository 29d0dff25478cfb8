//! Short files with any contents, and endless ones: no panic, bounded work, answers within the family.

use super::build::*;
use super::file::SymFile;
use super::run::*;
use super::spec::*;
use super::sym::{self, Data};
use file_format::FileFormat as F;

/// Any file of the given length that begins with `magic`.
fn wild(magic: &[u8], len: u64, grain: u64) {
    let d = Data::new().put(0, magic);
    refined(Src { d, len, zones: ALL, grain });
}

/// The answer lies within the family of the signature's format.
pub fn refined(s: Src) {
    let sig = signature(s);
    let got = detect(s.d, s.len, s.grain);
    sym::report("got", got as u64);
    sym::assert("ref:family", in_family(sig, got as u64));
    sym::cover("end");
}

/// The same with some more bytes given.
fn wild_with(magic: &[u8], p: u64, b: &[u8], len: u64, grain: u64) {
    let d = Data::new().put(0, magic).put(p, b);
    refined(Src { d, len, zones: ALL, grain });
}

// ----------------------------------------------------------------------------------------- endless

const N: usize = 10_000;

struct Cell([u8; N]);

impl Cell {
    fn put(&mut self, p: usize, b: &[u8]) -> &mut Cell {
        let mut i = 0;
        while i < b.len() {
            self.0[p + i] = b[i];
            i += 1;
        }
        self
    }
}

/// A file of 2^40 bytes in which the same record follows itself forever.
fn endless(b: Build, f: fn(&mut Cell)) {
    let mut c = Cell([0; N]);
    f(&mut c);
    finish(Build { d: b.d.pattern(b.p, &c.0), p: b.p });
}

fn finish(b: Build) {
    sym::alloc_limit(MAX_ALLOC);
    let mut f = SymFile::new(b.d, 1 << 40);
    f.count = true;
    let got = F::from_reader(&mut f);
    sym::alloc_limit(u64::MAX);
    sym::report("got", got.unwrap_or(F::Empty) as u64);
    sym::report("calls", f.ops);
    sym::cover("end");
}

fn asf_head() -> Build {
    file(super::h_asf::MAGIC).filler(0).skip(8).le32(one([0xffff_ffff, 300])).skip(2)
}

fn zip_endless(f: fn(&mut Cell)) {
    let len = 1u64 << 40;
    let b = file(b"PK\x03\x04").filler(0).to(len - 200).skip(32).le64(u64::MAX).skip(8).le64(1 << 20);
    let b = b.to(len - 42).put(b"PK\x06\x07").skip(4).le64(len - 200).skip(4);
    let b = b.put(b"PK\x05\x06").skip(6).le16(65_535).skip(4).le32(1 << 20).skip(2);
    endless(b.to(1 << 20), f);
}

harnesses! {
    wild_asf { wild_with(super::h_asf::MAGIC, 24, &[1, 0, 0, 0], one([30, 53, 54, 60, 70]), 90); }
    wild_asf_24 { wild(super::h_asf::MAGIC, cut(16, 30), 90); }
    wild_cfb { wild(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1", cut(8, 80), 90); }
    wild_ebml { wild(b"\x1A\x45\xDF\xA3", cut(4, 9), 20); }
    wild_ebml_11 { wild(b"\x1A\x45\xDF\xA3", cut(10, 11), 20); }
    wild_exe { wild(b"MZ", one([2, 3, 30, 63, 64, 65]), 70); }
    wild_exe_90 { wild(b"MZ", 90, 100); }
    wild_id3 { wild(b"ID3", one([3, 4, 9, 10, 12, 13, 14]), 20); }
    wild_id3_24 { wild(b"ID3", one([20, 24]), 30); }
    wild_mp4 { wild(b"\0\0\0\x0cftypMSNV", one([12, 16, 20, 24]), 60); }
    wild_mp4_28 { wild(b"\0\0\0\x0cftypMSNV", 28, 60); }
    wild_rm { wild_with(super::h_rm::MAGIC, 14, b"\0\0\0\x02", one([18, 26, 40, 60]), 70); }
    wild_rm_17 { wild(super::h_rm::MAGIC, cut(8, 18), 70); }
    wild_rm_68 { wild_with(super::h_rm::MAGIC, 14, b"\0\0\0\x02", 68, 80); }
    wild_pdf { wild(b"%PDF-", cut(5, 80), 90); }
    wild_sql { wild(b"SQLite format 3\0", one([14, 99, 100, 101, 125, 126, 180]), 200); }
    wild_xml { wild(b"<?xml", one([5, 6, 9, 16, 30, 40]), 50); }
    wild_zip { wild(b"PK\x03\x04", cut(4, 21), 30); }
    wild_txt { wild(b"zz", cut(2, 6), 200); }

    endless_asf {
        match sym::choice(3) {
            0 => endless(asf_head(), |c| {
                c.put(0, &sym::bytes::<1>()).put(1, &[9; 15]).put(16, &(N as u64).to_le_bytes());
            }),
            1 => endless(asf_head(), |c| {
                c.put(0, super::h_asf::STREAM).put(16, &(N as u64).to_le_bytes()).put(24, &sym::bytes::<1>());
            }),
            _ => endless(asf_head(), |c| {
                c.put(0, super::h_asf::EXT).put(16, &[0; 8]).put(24, &[40]).put(25, &[sym::choice(2) as u8]);
            }),
        }
    }
    endless_asf_descriptors {
        endless(asf_head(), |c| {
            c.put(0, super::h_asf::EXT).put(16, &(N as u64).to_le_bytes()).put(24, b"\xff\xff");
            c.put(26, &9000u16.to_le_bytes()).put(26 + 2 + 9000 + 2, &994u16.to_le_bytes());
        });
    }
    endless_ebml {
        let b = file(b"\x1A\x45\xDF\xA3").filler(0).put(b"\x80");
        match sym::choice(4) {
            0 => endless(b, |c| {
                c.put(0, &[0xEC, 0x20, (9_996 >> 8) as u8, (9_996 & 255) as u8]);
            }),
            1 => endless(b, |c| {
                c.put(0, &[0x86, 0x20, (9_996 >> 8) as u8, (9_996 & 255) as u8]).put(4, &sym::bytes::<2>());
            }),
            2 => endless(b, |c| {
                c.put(0, &[0x53, 0xB8, 0x20, (9_995 >> 8) as u8, (9_995 & 255) as u8]);
            }),
            _ => endless(b, |c| {
                c.put(0, &[0x42, 0x82, 0x20, (9_995 >> 8) as u8, (9_995 & 255) as u8]).put(5, b"matroska");
            }),
        }
    }
    endless_id3 {
        endless(file(b"").filler(0), |c| {
            c.put(0, b"ID3\x04\0\0").put(6, &[0, 0, (9_990 >> 7) as u8, (9_990 & 127) as u8]);
        });
    }
    endless_mp4 {
        let b = file(b"").filler(0).be32(16).put(b"ftypMSNV").skip(4);
        match sym::choice(5) {
            0 => endless(b, |c| {
                c.put(0, &(N as u32).to_be_bytes()).put(4, &sym::bytes::<1>()).put(5, b"ree");
            }),
            1 => endless(b, |c| {
                c.put(0, &(N as u32).to_be_bytes()).put(4, b"hdlr").put(16, &sym::bytes::<4>());
            }),
            2 => endless(b, |c| {
                c.put(3, &[1]).put(4, b"free").put(8, &(N as u64).to_be_bytes());
            }),
            // a box that ends where it begins
            3 => endless(b, |c| {
                c.put(0, &0u32.to_be_bytes()).put(4, b"free");
            }),
            _ => endless(b, |c| {
                c.put(3, &[1]).put(4, b"hdlr").put(8, &(N as u64).to_be_bytes()).put(24, b"text");
            }),
        }
    }
    endless_rm {
        let b = file(super::h_rm::MAGIC).filler(0).to(14).be32(one([0xffff_ffff, 100])).to(18);
        match sym::choice(4) {
            0 => endless(b, |c| {
                c.put(0, b"PROP").put(4, &(N as u32).to_be_bytes());
            }),
            1 => endless(b, |c| {
                c.put(0, b"MDPR").put(4, &(N as u32).to_be_bytes()).put(40, &[200]).put(241, &[6]).put(242, &sym::bytes::<6>());
            }),
            2 => endless(b, |c| {
                c.put(0, &sym::bytes::<1>()).put(1, b"ROP").put(4, &0u32.to_be_bytes());
            }),
            _ => endless(b, |c| {
                c.put(0, b"MDPR").put(4, &0u32.to_be_bytes()).put(40, &[200]).put(241, &[6]);
            }),
        }
    }
    endless_zip {
        match sym::choice(3) {
            0 => zip_endless(|c| {
                c.put(0, b"PK\x01\x02").put(30, &((N - 46) as u16).to_le_bytes());
            }),
            1 => zip_endless(|c| {
                c.put(0, b"PK\x01\x02").put(28, &[1, 0]).put(30, &((N - 47) as u16).to_le_bytes()).put(46, &sym::bytes::<1>());
            }),
            // a media type of the largest size, over and over
            _ => zip_endless(|c| {
                c.put(0, b"PK\x01\x02").put(20, &[255; 4]).put(24, &[255; 4]);
                c.put(28, &[8, 0]).put(30, &((N - 54) as u16).to_le_bytes()).put(46, b"mimetype");
            }),
        }
    }
    endless_pdf {
        finish(file(b"%PDF-").filler(0).any::<1>());
    }
    endless_sql {
        finish(file(b"SQLite format 3\0").filler(0));
    }
    endless_xml {
        finish(file(b"<?xml").filler(b' '));
    }
    endless_txt {
        match sym::choice(3) {
            0 => finish(file(b"zz").filler(b'a')),
            1 => finish(file(b"zz").filler(b'\n')),
            _ => endless(file(b"zz").filler(b'a'), |c| {
                let mut i = 0;
                while i < N {
                    c.0[i] = if i % 5_000 == 0 { b'\n' } else { b'b' };
                    i += 1;
                }
            }),
        }
    }
}
