//! Longer sequences of records, as real files have them.

use super::build::*;
use super::run::*;
use super::spec::{reference_after, Src, ALL};
use super::sym;
use file_format::FileFormat as F;

/// A file with the signature of `f`.
fn check(f: F, b: Build, len: u64) {
    let s = Src { d: b.d, len, zones: ALL, grain: 0 };
    same(detect(s.d, s.len, 0), reference_after(s, f as u64));
}

/// A track with a codec and perhaps a stereo mode, before or after it.
fn ebml_track(b: Build, rich: bool) -> Build {
    let codec: &[u8] = match sym::choice(4) {
        0 => b"\x86\x88V_MPEG4x",
        1 => b"\x86\x86A_OPUS",
        2 => b"\x86\x86S_TEXT",
        _ => b"\x86\x86B_VOBB",
    };
    let b = b.put(b"\xAE\x9C\xD7\x81\x01");
    match if rich { sym::choice(3) } else { 0 } {
        0 => b.put(codec),
        1 => b.put(b"\x53\xB8\x81\0").put(codec),
        _ => b.put(codec).put(b"\xE0\x84\x53\xB8\x81\x02"),
    }
}

fn ebml_head() -> Build {
    let b = file(b"\x1A\x45\xDF\xA3").filler(0).put(b"\xA3\x42\x86\x81\x01\x42\x82\x88matroska\x42\x87\x81\x04");
    b.put(b"\x18\x53\x80\x67\x01\xff\xff\xff\xff\xff\xff\xff\x11\x4D\x9B\x74\x84abcd\x16\x54\xAE\x6B\x40\x90")
}

fn mp4_track(b: Build) -> Build {
    let b = b.be32(200).put(b"trak").be32(20).put(b"tkhd").skip(12).be32(100).put(b"mdia");
    let b = b.be32(12).put(b"mdhd").skip(4).be32(33).put(b"hdlr").skip(8);
    let h = sym::choice(6) as usize;
    b.put(&[b"vide", b"soun", b"sbtl", b"subt", b"text", b"meta"][h][..]).skip(13).be32(8).put(b"minf")
}

fn asf_object(b: Build) -> Build {
    use super::h_asf::*;
    match sym::choice(6) {
        0 => b.put(STREAM).le64(80).put(AUDIO).skip(40),
        1 => b.put(STREAM).le64(80).put(VIDEO).skip(40),
        2 => b.put(STREAM).le64(80).put(&VIDEO[1..]).skip(41),
        3 => b.put(&[9; 16]).le64(104).skip(80),
        4 => b.put(EXT).le64(24 + 2 + 8).le16(1).le16(2).put(b"D\0").le16(0).le16(0),
        _ => b.put(EXT).le64(24 + 2 + 8 + 4 + 36).le16(2).le16(2).put(b"D\0").le16(0).le16(0).le16(36).put(DVR).skip(6).le16(0).le16(0),
    }
}

fn rm_chunk(b: Build) -> Build {
    let stream = |b: Build, name: &[u8], mime: &[u8]| {
        let n = 40 + 1 + name.len() + 1 + mime.len() + 4;
        b.put(b"MDPR").be32(n as u64).skip(32).put(&[name.len() as u8]).put(name).put(&[mime.len() as u8]).put(mime).skip(4)
    };
    match sym::choice(5) {
        0 => b.put(b"PROP").be32(50).skip(42),
        1 => b.put(b"CONT").be32(18).skip(10),
        2 => stream(b, b"Audio Stream", b"audio/x-pn-realaudio"),
        3 => stream(b, b"", b"video/x-pn-realvideo"),
        _ => stream(b, b"x", b"logical-fileinfo"),
    }
}

fn id3_tag(b: Build) -> Build {
    let footer = sym::choice(2) as u8 * 16;
    let size = one([0, 10, 300]);
    let v = one([3, 4]);
    let b = b.put(b"ID3").put(&[v as u8, 0, footer, 0, 0, (size >> 7) as u8, size as u8 & 127]).skip(size);
    if footer != 0 { b.skip(10) } else { b }
}

fn zip_entry(b: Build) -> Build {
    let names: [&[u8]; 8] = [
        b"META-INF/MANIFEST.MF", b"[Content_Types].xml", b"_rels/.rels", b"word/document.xml", b"xl/workbook.xml", b"AndroidManifest.xml", b"a/",
        b"META-INF/x.usd",
    ];
    let k = sym::choice(8);
    let n = names[k as usize];
    let extra = k % 3 * 9;
    let l = n.len() as u64;
    b.put(b"PK\x01\x02").skip(16).le32(5).le32(6).le16(l).le16(extra).le16(2 * extra).skip(12).put(n).skip(3 * extra)
}

fn mp4(n: u64) {
    let mut b = file(b"").filler(0).be32(20).put(b"ftypmp42").skip(4).put(b"isom");
    b = b.be32(24).put(b"free").skip(16).be32(2000).put(b"moov").be32(30).put(b"mvhd").skip(22);
    for _ in 0..n {
        b = mp4_track(b);
    }
    check(F::Mpeg4Part14, b, b.p + 8);
}

harnesses! {
    // A Matroska file with three tracks, and perhaps a cluster before the last.
    seq_ebml {
        let mut b = ebml_head();
        b = ebml_track(b, true);
        b = ebml_track(b, true);
        if sym::choice(2) == 0 {
            b = b.put(b"\x1F\x43\xB6\x75\x81\0");
        }
        b = ebml_track(b, false);
        check(F::ExtensibleBinaryMetaLanguage, b, b.p);
    }
    // Three or four tracks.
    seq_mp4 { mp4(3); }
    seq_mp4_deep { mp4(4); }
    // Four objects.
    seq_asf {
        let mut b = file(super::h_asf::MAGIC).filler(0).skip(8).le32(4).skip(2);
        for _ in 0..4 {
            b = asf_object(b);
        }
        check(F::AdvancedSystemsFormat, b, b.p);
    }
    // Four chunks.
    seq_rm {
        let mut b = file(super::h_rm::MAGIC).filler(0).skip(6).be32(5);
        for _ in 0..4 {
            b = rm_chunk(b);
        }
        check(F::Realmedia, b, b.p);
    }
    // Three tags, with and without footer.
    seq_id3 {
        let mut b = file(b"").filler(0);
        for _ in 0..3 {
            b = id3_tag(b);
        }
        let b = b.put([&b"fLaC"[..], b"\xff\xfb\x90\x44", b"APET"][sym::choice(3) as usize]);
        check(F::Id3v2, b, b.p + 30);
    }
    // Four entries.
    seq_zip {
        let mut b = file(b"PK\x03\x04").filler(0).to(30);
        for _ in 0..4 {
            b = zip_entry(b);
        }
        let b = b.put(b"PK\x05\x06").skip(6).le16(4).skip(4).le32(30).skip(2);
        check(F::Zip, b, b.p);
    }
    // Real files with arbitrary bytes in every field that does not decide.
    fields_asf {
        let mut b = file(super::h_asf::MAGIC).skip(8).le32(2).skip(2);
        for _ in 0..2 {
            b = asf_object(b);
        }
        agree(b.d, b.p);
    }
    fields_ebml {
        let b = file(b"\x1A\x45\xDF\xA3").put(b"\xA3\x42\x86\x81\x01\x42\x82\x88matroska\x42\x87\x81\x04");
        let b = b.put(b"\x18\x53\x80\x67\x01\xff\xff\xff\xff\xff\xff\xff\x11\x4D\x9B\x74\x8A").skip(10);
        let b = b.put(b"\xEC\x84").skip(4).put(b"\x16\x54\xAE\x6B\x40\x90");
        let b = ebml_track(ebml_track(b, true).put(b"\x63\xA2\x89").skip(9), true).put(b"\x1C\x53\xBB\x6B\x85").skip(5);
        agree(b.d, b.p);
    }
    fields_mp4 {
        let b = file(b"").be32(20).put(b"ftypmp42").skip(8);
        let b = b.be32(24).put(b"free").skip(16).be32(2000).put(b"moov").be32(30).put(b"mvhd").skip(22);
        let b = mp4_track(mp4_track(b));
        agree(b.d, b.p);
    }
    fields_rm {
        let mut b = file(super::h_rm::MAGIC).skip(6).be32(3);
        for _ in 0..2 {
            b = rm_chunk(b);
        }
        agree(b.d, b.p);
    }
    fields_id3 {
        let b = id3_tag(id3_tag(file(b"")));
        let b = b.put([&b"fLaC"[..], b"\xff\xfb\x90\x44", b"APET"][sym::choice(3) as usize]);
        agree(b.d, b.p + 30);
    }
    fields_sql {
        let b = file(b"SQLite format 3\0").to(100 + sym::choice(3)).blur(b"com.bohemiancoding.sketch3");
        let len = b.p + 40;
        agree_zones(b.d.zone(100, u64::MAX, 0), len, [(0, b.p), (0, 0), (0, 0), (0, 0)]);
    }
    // The decisive record lies beyond one of a huge size.
    far_asf {
        use super::h_asf::*;
        let n = one([70_000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 78, (1 << 39) + 3]);
        let b = file(MAGIC).filler(0).skip(8).le32(2).skip(2);
        let p = b.p;
        let b = match sym::choice(3) {
            0 => b.put(&[9; 16]).le64(n).put(STREAM).le64(24).put(AUDIO),
            1 => b.put(STREAM).le64(n).put(AUDIO),
            _ => b.put(EXT).le64(n).le16(1).le16(2).put(b"D\0").le16(0).le16(40_000),
        };
        let b = b.to(p + n).put(STREAM).le64(78).put(if sym::choice(2) == 0 { VIDEO } else { AUDIO }).skip(38);
        agree(b.d, b.p);
    }
    far_ebml {
        let (k, n) = [(3, 70_000), (4, (1 << 24) - 1), (4, (1 << 28) - 2), (5, 1 << 31), (5, (1 << 32) - 1), (5, (1 << 32) + 7), (6, 1 << 39), (8, 1 << 31)]
            [sym::choice(8) as usize];
        let mut b = ebml_head().put(if sym::choice(2) == 0 { b"\xEC" } else { b"\xBF" });
        for i in 0..k {
            b = b.put(&[(n >> (8 * (k - 1 - i))) as u8 | if i == 0 { 0x80 >> (k - 1) } else { 0 }]);
        }
        let b = b.put(b"\x86\x82A_").to(b.p + n).put(b"\x86\x82").any::<1>().put(b"_");
        agree(b.d, b.p);
    }
    far_mp4 {
        let n = one([70_000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 40, (1 << 39) + 3]);
        let b = file(b"").filler(0).be32(16).put(b"ftypMSNV").skip(4);
        let b = if sym::choice(2) == 0 { b.be32(40).put(b"moov") } else { b };
        let p = b.p;
        let wide = sym::choice(2) == 0;
        sym::assume(wide | (n < 1 << 32));
        let kind: &[u8] = if sym::choice(2) == 0 { b"free" } else { b"hdlr" };
        let b = if wide { b.be32(1).put(kind).be64(n) } else { b.be32(n).put(kind) };
        let b = b.put(&[0; 24]).be32(32).put(b"hdlr").skip(8).put(b"soun");
        let b = b.to(p + n).be32(32).put(b"hdlr").skip(8).put(if sym::choice(2) == 0 { b"vide" } else { b"text" }).skip(12);
        agree(b.d, b.p);
    }
    far_rm {
        let n = one([70_000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 50, (1 << 32) - 1]);
        let b = file(super::h_rm::MAGIC).filler(0).skip(6).be32(3);
        let p = b.p;
        let b = match sym::choice(3) {
            0 => b.put(b"DATA").be32(n),
            1 => b.put(b"MDPR").be32(n).skip(33).put(b"\x06audio/"),
            _ => b.put(b"MDPR").be32(n).skip(32).put(&[200]).skip(200).put(b"\x06audio/"),
        };
        let b = b.to(p + n).put(b"MDPR").be32(50).skip(33).put(if sym::choice(2) == 0 { b"\x06video/" } else { b"\x06audio/" }).skip(3);
        agree(b.d, b.p);
    }
    far_id3 {
        let n = one([70_000, (1 << 21) - 1, 1 << 21, 1 << 27, (1 << 28) - 1]);
        let f = sym::choice(2);
        let b = file(b"ID3\x04\0").filler(0).put(&[f as u8 * 16]).put(&[(n >> 21) as u8, (n >> 14) as u8 & 127, (n >> 7) as u8 & 127, n as u8 & 127]);
        let b = b.put(b"fLaC").to(b.p + n + 10 * f);
        let b = if sym::choice(2) == 0 { b } else { b.put(b"ID3\x03\0\0\x7f\x7f\x7f\x7f").skip((1 << 28) - 1) };
        let b = b.put([&b"fLaC"[..], b"\xff\xfb\x90\x44", b"APET"][sym::choice(3) as usize]);
        agree(b.d, b.p + 30);
    }
    // The directory of a ZIP archive far into the file; a 64-bit offset; a media type far into the file.
    far_zip {
        let n = one([70_000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, 1 << 32, (1 << 32) + 30, (1 << 39) + 3]);
        let wide = sym::choice(2) == 0;
        sym::assume(wide | (n < 1 << 32));
        let b = file(b"PK\x03\x04").filler(0).to(30).put(b"PK\x01\x02").skip(24).le16(3).skip(16).put(b"xl/").to(n);
        let b = b.put(b"PK\x01\x02").skip(24).le16(5).skip(16).put(if sym::choice(2) == 0 { b"word/" } else { b"a/b/c" }).skip(30);
        let r = b.p;
        let b = if wide {
            b.put(b"PK\x06\x06").skip(28).le64(1).skip(8).le64(n).put(b"PK\x06\x07").skip(4).le64(r).skip(4).put(b"PK\x05\x06").skip(18)
        } else {
            b.put(b"PK\x05\x06").skip(6).le16(1).skip(4).le32(n).skip(2)
        };
        agree(b.d, b.p);
    }
    far_type {
        let n = one([70_000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 2]);
        let (x, y) = (one([0, 8, 65_535]), one([0, 65_535]));
        let t = b"image/openraster";
        let b = file(b"PK\x03\x04").filler(0).to(n + 26).le16(x).le16(y).skip(x + y).put(t).skip(10);
        let c = b.p;
        let b = b.put(b"PK\x01\x02").skip(16).le32(16).le32(16).le16(8).skip(12).le32(n).put(b"mimetype");
        sym::assume(c < 1 << 32);
        let b = b.put(b"PK\x05\x06").skip(6).le16(1).skip(4).le32(c).skip(2);
        agree(b.d, b.p);
    }
}
