//! Reference descriptions of the detectors, written from the format documentation and the limits the
//! library states, as direct functions of the file contents.

use super::sym::{self, Data};
use super::tables::{CLSIDS, SIGS, ZIP_NAMES, ZIP_TYPES};
use file_format::FileFormat as F;

/// A file: contents and length. Markers without NUL bytes are looked for in the `zones` only:
/// whatever lies outside them is NUL (the harness that declares zones guarantees it).
#[derive(Clone, Copy)]
pub struct Src {
    pub d: Data,
    pub len: u64,
    pub zones: [(u64, u64); 4],
    /// See `file::settle`.
    pub grain: u64,
}

/// Every position.
pub const ALL: [(u64, u64); 4] = [(0, u64::MAX), (0, 0), (0, 0), (0, 0)];

/// `None`: the format-specific detector cannot decide (malformed or truncated).
pub type Verdict = Option<F>;

impl Src {
    fn settle(&self, p: u64) -> u64 {
        sym::concretize(0); // keeps the callers out of the summaries
        super::file::settle(self.grain, p)
    }
    /// The `n` bytes at `p` exist.
    pub fn has(&self, p: u64, n: u64) -> Option<()> {
        if n == 0 {
            return Some(());
        }
        match p.checked_add(n) {
            Some(e) if e <= self.len => Some(()),
            _ => None,
        }
    }
    pub fn at(&self, p: u64) -> u8 {
        self.d.at(p)
    }
    pub fn u8(&self, p: u64) -> Option<u8> {
        self.has(p, 1)?;
        Some(self.at(p))
    }
    fn be(&self, p: u64, n: u64) -> u64 {
        let mut v = 0;
        let mut i = 0;
        while i < n {
            v = v << 8 | self.at(p + i) as u64;
            i += 1;
        }
        v
    }
    fn le(&self, p: u64, n: u64) -> u64 {
        let mut v = 0;
        let mut i = 0;
        while i < n {
            v |= (self.at(p + i) as u64) << (8 * i);
            i += 1;
        }
        v
    }
    pub fn be32(&self, p: u64) -> Option<u64> {
        self.has(p, 4)?;
        Some(self.be(p, 4))
    }
    pub fn be64(&self, p: u64) -> Option<u64> {
        self.has(p, 8)?;
        Some(self.be(p, 8))
    }
    pub fn le16(&self, p: u64) -> Option<u64> {
        self.has(p, 2)?;
        Some(self.le(p, 2))
    }
    pub fn le32(&self, p: u64) -> Option<u64> {
        self.has(p, 4)?;
        Some(self.le(p, 4))
    }
    pub fn le64(&self, p: u64) -> Option<u64> {
        self.has(p, 8)?;
        Some(self.le(p, 8))
    }
    /// The bytes at `p` (which exist) are `s`.
    pub fn is(&self, p: u64, s: &[u8]) -> bool {
        is_at(self.d.0, p, s.as_ptr(), s.len())
    }
    /// `s` occurs within `lo..hi`.
    pub fn contains(&self, lo: u64, hi: u64, s: &[u8]) -> bool {
        let mut r = false;
        let mut k = 0;
        while k < 4 {
            let z = self.zones[k];
            let a = if z.0 > lo { z.0 } else { lo };
            let b = if z.1 < hi { z.1 } else { hi };
            if a < b {
                r |= occurs(self.d.0, a, b, hi, s.as_ptr(), s.len());
            }
            k += 1;
        }
        r
    }
    /// The `n` bytes at `p` (which exist) begin with `s`.
    pub fn starts(&self, p: u64, n: u64, s: &[u8]) -> bool {
        n >= s.len() as u64 && self.is(p, s)
    }
    pub fn ends(&self, p: u64, n: u64, s: &[u8]) -> bool {
        n >= s.len() as u64 && self.is(p + n - s.len() as u64, s)
    }
    pub fn equals(&self, p: u64, n: u64, s: &[u8]) -> bool {
        n == s.len() as u64 && self.is(p, s)
    }
    /// Some of the `n` bytes at `p` is `c`.
    pub fn has_byte(&self, p: u64, n: u64, c: u8) -> bool {
        let mut i = 0;
        let mut r = false;
        while i < n {
            r |= self.at(p + i) == c;
            i += 1;
        }
        r
    }
}

#[inline(never)]
#[no_mangle]
fn is_at(f: u32, p: u64, s: *const u8, n: usize) -> bool {
    let s = unsafe { std::slice::from_raw_parts(s, n) };
    let mut i = 0;
    let mut r = true;
    while i < n {
        r &= Data(f).at(p.wrapping_add(i as u64)) == s[i];
        i += 1;
    }
    r
}

/// Some start `a <= i < b` with `i + n <= end` matches.
#[inline(never)]
#[no_mangle]
fn occurs(f: u32, a: u64, b: u64, end: u64, s: *const u8, n: usize) -> bool {
    let mut i = a;
    let mut r = false;
    while i < b {
        r |= (i + n as u64 <= end) & is_at(f, i, s, n);
        i += 1;
    }
    r
}


// --------------------------------------------------------------------------------------- signatures

/// Bytes of the file that signatures may refer to.
pub const WINDOW: u64 = 36_870;

/// Number of the format whose signature matches, or `NONE`: the first alternative in order of
/// precedence all of whose parts lie within the window and the file and match.
#[inline(never)]
#[no_mangle]
fn spec_signature(f: u32, len: u64) -> u64 {
    let end = if len < WINDOW { len } else { WINDOW };
    let mut r = NONE;
    let mut k = SIGS.len();
    while k > 0 {
        k -= 1;
        let (fmt, parts) = SIGS[k];
        let mut m = true;
        let mut i = 0;
        while i < parts.len() {
            let (o, s) = parts[i];
            m &= (o + s.len() as u64 <= end) & is_at(f, o, s.as_ptr(), s.len());
            i += 1;
        }
        r = if m { fmt as u64 } else { r };
    }
    r
}
pub const NONE: u64 = u64::MAX;

pub fn signature(s: Src) -> u64 {
    spec_signature(s.d.0, s.len)
}

macro_rules! dispatch {
    ($s:ident, $sig:ident, $($feature:literal $fmt:ident $f:ident)*) => {
        $(#[cfg(feature = $feature)]
        if $sig == F::$fmt as u64 {
            return match $f($s) {
                Some(f) => f as u64,
                None => generic($s) as u64,
            };
        })*
    };
}

/// What the library must answer, as the number of the format, given `signature(s)`.
pub fn reference_after(s: Src, sig: u64) -> u64 {
    if s.len == 0 {
        return F::Empty as u64;
    }
    dispatch!(s, sig,
        "asf" AdvancedSystemsFormat asf
        "cfb" CompoundFileBinary cfb
        "ebml" ExtensibleBinaryMetaLanguage ebml
        "exe" MsDosExecutable exe
        "id3v2" Id3v2 id3v2
        "mp4" Mpeg4Part14 mp4
        "pdf" PortableDocumentFormat pdf
        "rm" Realmedia rm
        "sqlite3" Sqlite3 sqlite3
        "xml" ExtensibleMarkupLanguage xml
        "zip" Zip zip
    );
    if sig == NONE {
        return generic(s) as u64;
    }
    sig
}

/// No signature, or its reader could not decide.
pub fn generic(s: Src) -> F {
    #[cfg(feature = "txt")]
    if txt(s) {
        return F::PlainText;
    }
    let _ = s;
    F::ArbitraryBinaryData
}

// ------------------------------------------------------------------------------------------ helpers

// ---------------------------------------------------------------------------------------------- ASF

const ASF_STREAM: &[u8] = b"\x91\x07\xdc\xb7\xb7\xa9\xcf\x11\x8e\xe6\x00\xc0\x0c\x20\x53\x65";
const ASF_EXT: &[u8] = b"\x40\xa4\xd0\xd2\x07\xe3\xd2\x11\x97\xf0\x00\xa0\xc9\x5e\xa8\x50";
const ASF_AUDIO: &[u8] = b"\x40\x9e\x69\xf8\x4d\x5b\xcf\x11\xa8\xfd\x00\x80\x5f\x5c\x44\x2b";
const ASF_VIDEO: &[u8] = b"\xc0\xef\x19\xbc\x4d\x5b\xcf\x11\xa8\xfd\x00\x80\x5f\x5c\x44\x2b";
const DVR: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0";

/// Header objects: GUID, size, data. Up to 256 are read; of an extended content description, up to 32
/// descriptors (name length, name, type, value length, value).
pub fn asf(s: Src) -> Verdict {
    let n = s.le32(24)?;
    let n = if n < 256 { n } else { 256 };
    let (mut audio, mut video) = (false, false);
    let mut p = 30;
    let mut i = 0;
    while i < n {
        p = s.settle(p);
        s.has(p, 24)?;
        let size = s.le64(p + 16)?;
        if s.is(p, ASF_STREAM) {
            s.has(p + 24, 16)?;
            if s.is(p + 24, ASF_AUDIO) {
                audio = true;
            } else if s.is(p + 24, ASF_VIDEO) {
                video = true;
            }
            p = p.saturating_add(size);
        } else if s.is(p, ASF_EXT) {
            let count = s.le16(p + 24)?;
            let count = if count < 32 { count } else { 32 };
            let mut q = p + 26;
            let mut k = 0;
            while k < count {
                q = s.settle(q);
                let l = s.le16(q)?;
                s.has(q + 2, if l < 64 { l } else { 64 })?;
                if s.starts(q + 2, l, DVR) {
                    return Some(F::MicrosoftDigitalVideoRecording);
                }
                let v = s.le16(q + 2 + l + 2)?;
                q += 6 + l + v;
                k += 1;
            }
            p = p.saturating_add(size);
        } else {
            p = p.saturating_add(size);
        }
        i += 1;
    }
    Some(if video {
        F::WindowsMediaVideo
    } else if audio {
        F::WindowsMediaAudio
    } else {
        F::AdvancedSystemsFormat
    })
}

// ---------------------------------------------------------------------------------------------- CFB

#[inline(never)]
#[no_mangle]
fn spec_clsid(f: u32, p: u64) -> u64 {
    let mut r = NONE;
    let mut i = 0;
    while i < CLSIDS.len() {
        let (g, fmt) = &CLSIDS[i];
        r = if is_at(f, p, g.as_ptr(), 16) { *fmt as u64 } else { r };
        i += 1;
    }
    r
}

/// Root directory entry at sector `1 + le32(48)` (512 or 4096 bytes), its CLSID at 80; otherwise the
/// names of the second and third entries.
pub fn cfb(s: Src) -> Option<u64> {
    let version = s.le16(26)?;
    let sector = if version == 3 { 512 } else { 4096 };
    let root = sector * (1 + s.le32(48)?);
    s.has(root + 80, 16)?;
    let r = spec_clsid(s.d.0, root + 80);
    if r != NONE {
        return Some(r);
    }
    s.has(root + 128, 64)?;
    if s.is(root + 128, b"M\0a\0t\0O\0S\0T\0") {
        return Some(F::MicrosoftWorksWordProcessor as u64);
    }
    s.has(root + 256, 64)?;
    if s.is(root + 256, b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0") {
        return Some(F::MicrosoftWorks6Spreadsheet as u64);
    }
    Some(F::CompoundFileBinary as u64)
}

// --------------------------------------------------------------------------------------------- EBML

/// Elements in file order (masters are entered): up to 256, until a cluster or the end of the file.
pub fn ebml(s: Src) -> Verdict {
    let (mut audio, mut video, mut subtitle) = (false, false, false);
    let mut p = 0;
    let mut i = 0;
    while i < 256 && p < s.len {
        p = s.settle(p);
        let (id, n) = ebml_id(s, p)?;
        let (size, m) = ebml_size(s, p + n)?;
        let q = p + n + m;
        match id {
            0x1A45DFA3 | 0x18538067 | 0x1654AE6B | 0xAE | 0xE0 => p = q,
            0x4282 => {
                s.has(q, if size < 8 { size } else { 8 })?;
                if s.starts(q, size, b"webm") {
                    return Some(F::Webm);
                }
                if !s.starts(q, size, b"matroska") {
                    return Some(F::ExtensibleBinaryMetaLanguage);
                }
                p = q + size;
            }
            0x86 => {
                s.has(q, if size < 64 { size } else { 64 })?;
                if s.starts(q, size, b"A_") {
                    audio = true;
                } else if s.starts(q, size, b"V_") {
                    video = true;
                } else if s.starts(q, size, b"S_") {
                    subtitle = true;
                }
                p = q + size;
            }
            0x53B8 => {
                let k = if size < 8 { size } else { 8 };
                s.has(q, k)?;
                let mut j = 0;
                while j < k {
                    if s.at(q + j) != 0 {
                        return Some(F::Matroska3dVideo);
                    }
                    j += 1;
                }
                p = q + size;
            }
            0x1F43B675 => break,
            _ => p = q + size,
        }
        i += 1;
    }
    Some(if video {
        F::MatroskaVideo
    } else if audio {
        F::MatroskaAudio
    } else if subtitle {
        F::MatroskaSubtitles
    } else {
        F::ExtensibleBinaryMetaLanguage
    })
}

fn ebml_id(s: Src, p: u64) -> Option<(u64, u64)> {
    let b = s.u8(p)?;
    let n = if b >= 0x80 {
        1
    } else if b >= 0x40 {
        2
    } else if b >= 0x20 {
        3
    } else if b >= 0x10 {
        4
    } else {
        return None;
    };
    s.has(p, n)?;
    Some((s.be(p, n), n))
}

fn ebml_size(s: Src, p: u64) -> Option<(u64, u64)> {
    let b = s.u8(p)?;
    let mut n = 1;
    let mut bit = 0x80;
    while n <= 8 {
        if b & bit != 0 {
            s.has(p, n)?;
            return Some((s.be(p, n) & ((1 << (7 * n)) - 1), n));
        }
        bit >>= 1;
        n += 1;
    }
    None
}

// ---------------------------------------------------------------------------------------------- EXE

/// MZ header, e_lfanew at 60, then NE/LE/LX/PE with the DLL bit of the COFF characteristics.
pub fn exe(s: Src) -> Verdict {
    let off = s.le32(60)?;
    if off + 4 >= s.len {
        return Some(F::MsDosExecutable);
    }
    let (a, b) = (s.at(off), s.at(off + 1));
    if s.is(off, b"PE\0\0") {
        let c = s.le16(off + 22)?;
        return Some(if c & 0x2000 != 0 { F::DynamicLinkLibrary } else { F::PortableExecutable });
    }
    if a == b'L' && (b == b'E' || b == b'X') {
        return Some(F::LinearExecutable);
    }
    if a == b'N' && b == b'E' {
        return Some(F::NewExecutable);
    }
    Some(F::MsDosExecutable)
}

// -------------------------------------------------------------------------------------------- ID3v2

/// Up to 256 tags (syncsafe size, footer flag 0x10) are skipped; the audio stream follows.
pub fn id3v2(s: Src) -> Verdict {
    let mut p = 0;
    let mut i = 0;
    while i < 256 {
        p = s.settle(p);
        s.has(p, 10)?;
        if !s.is(p, b"ID3") {
            break;
        }
        let mut size = 0;
        let mut k = 6;
        while k < 10 {
            size = size << 7 | (s.at(p + k) & 0x7f) as u64;
            k += 1;
        }
        let footer = if s.at(p + 5) & 0x10 != 0 { 10 } else { 0 };
        p += 10 + size + footer;
        i += 1;
    }
    s.has(p, 4)?;
    if s.is(p, b"fLaC") {
        return Some(F::FreeLosslessAudioCodec);
    }
    let b = s.at(p + 1);
    // Sync, MPEG-1/2/2.5, layer III, with or without CRC.
    if s.at(p) == 0xff && (b == 0xe2 || b == 0xe3 || b == 0xf2 || b == 0xf3 || b == 0xfa || b == 0xfb) {
        return Some(F::Mpeg12AudioLayer3);
    }
    Some(F::Id3v2)
}

// ---------------------------------------------------------------------------------------------- MP4

/// Up to 256 boxes (32- or 64-bit size, type); moov, trak and mdia are entered.
pub fn mp4(s: Src) -> Verdict {
    let (mut audio, mut video, mut subtitle) = (false, false, false);
    let mut p = 0;
    let mut i = 0;
    while i < 256 && p < s.len {
        p = s.settle(p);
        s.has(p, 8)?;
        let mut size = s.be32(p)?;
        let mut head = 8;
        if size == 1 {
            size = s.be64(p + 8)?;
            head = 16;
        }
        if s.is(p + 4, b"moov") || s.is(p + 4, b"trak") || s.is(p + 4, b"mdia") {
            p += head;
        } else {
            if s.is(p + 4, b"hdlr") {
                let h = p + head + 8;
                s.has(h, 4)?;
                if s.is(h, b"vide") {
                    video = true;
                } else if s.is(h, b"soun") {
                    audio = true;
                } else if s.is(h, b"sbtl") || s.is(h, b"subt") || s.is(h, b"text") {
                    subtitle = true;
                }
            }
            p = p.saturating_add(size);
        }
        i += 1;
    }
    Some(if video {
        F::Mpeg4Part14Video
    } else if audio {
        F::Mpeg4Part14Audio
    } else if subtitle {
        F::Mpeg4Part14Subtitles
    } else {
        F::Mpeg4Part14
    })
}

// ---------------------------------------------------------------------------------------------- PDF

/// The marker within the first 32 MiB after the signature (the last chunk that is begun is finished).
pub fn pdf(s: Src) -> Verdict {
    let limit = 5 + 33_554_432;
    let end = if s.len < limit { s.len } else { limit };
    Some(if s.contains(5, end, b"AIPrivateData") {
        F::AdobeIllustratorArtwork
    } else {
        F::PortableDocumentFormat
    })
}

// ----------------------------------------------------------------------------------------------- RM

/// Up to 64 chunks (type, size); MDPR holds the stream name and the MIME type.
pub fn rm(s: Src) -> Verdict {
    let n = s.be32(14)?;
    let n = if n == 0 { 0 } else { n - 1 };
    let n = if n < 64 { n } else { 64 };
    let (mut audio, mut video) = (false, false);
    let mut p = 18;
    let mut i = 0;
    while i < n {
        p = s.settle(p);
        s.has(p, 8)?;
        let size = s.be32(p + 4)?;
        if s.is(p, b"MDPR") {
            let m = p + 41 + s.u8(p + 40)? as u64;
            let k = s.u8(m)? as u64;
            s.has(m + 1, k)?;
            if s.starts(m + 1, k, b"audio/") {
                audio = true;
            } else if s.starts(m + 1, k, b"video/") {
                video = true;
            }
        }
        p += size;
        i += 1;
    }
    Some(if video {
        F::Realvideo
    } else if audio {
        F::Realaudio
    } else {
        F::Realmedia
    })
}

// ------------------------------------------------------------------------------------------ SQLite3

pub fn sqlite3(s: Src) -> Verdict {
    let end = if s.len < 100 + 32_768 { s.len } else { 100 + 32_768 };
    Some(if s.contains(100, end, b"com.bohemiancoding.sketch3") { F::Sketch } else { F::Sqlite3 })
}

// ---------------------------------------------------------------------------------------------- TXT

/// The first 16 lines, within the first 65,536 bytes, are UTF-8 without control characters other
/// than white space; a character split by that limit is ignored.
pub fn txt(s: Src) -> bool {
    const LIMIT: u64 = 65_536;
    let end = if s.len < LIMIT { s.len } else { LIMIT };
    let cut = s.len >= LIMIT;
    let mut lines = 0;
    let mut p = 0;
    while p < end && lines < 16 {
        let b = s.at(p);
        if b < 0x80 {
            if b == b'\n' {
                lines += 1;
            } else if b < 0x20 && !(b >= 9 && b <= 13) || b == 0x7f {
                return false;
            }
            p += 1;
            continue;
        }
        // Second byte ranges of well-formed sequences (Unicode, table 3-7).
        let (n, lo, hi) = if b >= 0xc2 && b <= 0xdf {
            (2, 0x80, 0xbf)
        } else if b == 0xe0 {
            (3, 0xa0, 0xbf)
        } else if b == 0xed {
            (3, 0x80, 0x9f)
        } else if b >= 0xe1 && b <= 0xef {
            (3, 0x80, 0xbf)
        } else if b == 0xf0 {
            (4, 0x90, 0xbf)
        } else if b == 0xf4 {
            (4, 0x80, 0x8f)
        } else if b >= 0xf1 && b <= 0xf3 {
            (4, 0x80, 0xbf)
        } else {
            return false;
        };
        let mut k = 1;
        while k < n {
            if p + k >= end {
                return cut;
            }
            let c = s.at(p + k);
            let (lo, hi) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if c < lo || c > hi {
                return false;
            }
            k += 1;
        }
        // U+0080..U+009F are control characters; U+0085 is white space.
        if b == 0xc2 && s.at(p + 1) < 0xa0 && s.at(p + 1) != 0x85 {
            return false;
        }
        p += n;
    }
    true
}

// ---------------------------------------------------------------------------------------------- XML

/// Markers in order of precedence.
pub fn xml(s: Src) -> Verdict {
    let end = if s.len < 5 + 8192 { s.len } else { 5 + 8192 };
    let h = |m: &[u8]| s.contains(5, end, m);
    Some(if h(b"<abiword template=\"false\"") {
        F::Abiword
    } else if h(b"<abiword template=\"true\"") {
        F::AbiwordTemplate
    } else if h(b"<amf") {
        F::AdditiveManufacturingFormat
    } else if h(b"<ASX") || h(b"<asx") {
        F::AdvancedStreamRedirector
    } else if h(b"<feed") {
        F::Atom
    } else if h(b"<COLLADA") {
        F::CollaborativeDesignActivity
    } else if h(b"<mxfile") {
        F::Drawio
    } else if h(b"<X3D") {
        F::Extensible3d
    } else if h(b"<xsl") {
        F::ExtensibleStylesheetLanguageTransformations
    } else if h(b"<FictionBook") {
        F::Fictionbook
    } else if h(b"<gml") {
        F::GeographyMarkupLanguage
    } else if h(b"<gpx") {
        F::GpsExchangeFormat
    } else if h(b"<kml") {
        F::KeyholeMarkupLanguage
    } else if h(b"<math") {
        F::MathematicalMarkupLanguage
    } else if h(b"<MPD") {
        F::MpegDashMpd
    } else if h(b"<score-partwise") {
        F::Musicxml
    } else if h(b"<rss") {
        F::ReallySimpleSyndication
    } else if h(b"<SVG") || h(b"<svg") {
        F::ScalableVectorGraphics
    } else if h(b"<soap") {
        F::SimpleObjectAccessProtocol
    } else if h(b"<map") {
        F::TiledMapXml
    } else if h(b"<tileset") {
        F::TiledTilesetXml
    } else if h(b"<tt") && h(b"xmlns=\"http://www.w3.org/ns/ttml\"") {
        F::TimedTextMarkupLanguage
    } else if h(b"<TrainingCenterDatabase") {
        F::TrainingCenterXml
    } else if h(b"<uof:UOF") && h(b"uof:mimetype=\"vnd.uof.presentation\"") {
        F::UniformOfficeFormatPresentation
    } else if h(b"<uof:UOF") && h(b"uof:mimetype=\"vnd.uof.spreadsheet\"") {
        F::UniformOfficeFormatSpreadsheet
    } else if h(b"<uof:UOF") && h(b"uof:mimetype=\"vnd.uof.text\"") {
        F::UniformOfficeFormatText
    } else if h(b"<USFSubtitles") {
        F::UniversalSubtitleFormat
    } else if h(b"<xliff") {
        F::XmlLocalizationInterchangeFileFormat
    } else if h(b"<playlist") {
        F::XmlShareablePlaylistFormat
    } else {
        F::ExtensibleMarkupLanguage
    })
}

// ---------------------------------------------------------------------------------------------- ZIP

/// The last end-of-central-directory record in the final 65,557 bytes (ZIP64 locator 20 bytes before
/// it), then up to 1,024 entries of the central directory.
pub fn zip(s: Src) -> Verdict {
    if s.len < 22 {
        return None;
    }
    let lo = s.len.saturating_sub(22 + 65_535);
    let e = last_eocd(s, lo)?;
    let (n, mut p) = if e >= 20 && s.is(e - 20, b"PK\x06\x07") {
        let e64 = s.le64(e - 12)?;
        (s.le64(e64.checked_add(32)?)?, s.le64(e64.checked_add(48)?)?)
    } else {
        (s.le16(e + 10)?, s.le32(e + 16)?)
    };
    let n = if n < 1024 { n } else { 1024 };
    let mut fmt = F::Zip;
    let mut i = 0;
    while i < n {
        p = s.settle(p);
        s.has(p, 46)?;
        let (c, u) = (s.le32(p + 20)?, s.le32(p + 24)?);
        let (l, x, k) = (s.le16(p + 28)?, s.le16(p + 30)?, s.le16(p + 32)?);
        let q = p + 46;
        s.has(q, l)?;
        let mut j = 0;
        while j < ZIP_NAMES.len() {
            let (name, f) = ZIP_NAMES[j];
            if s.equals(q, l, name) {
                return Some(f);
            }
            j += 1;
        }
        let top = !s.has_byte(q, l, b'/');
        if s.equals(q, l, b"META-INF/MANIFEST.MF") {
            fmt = F::JavaArchive;
        } else if s.equals(q, l, b"mimetype") && c == u {
            let h = s.le32(p + 42)? + 26;
            let d = h + 4 + s.le16(h)? + s.le16(h + 2)?;
            let m = if c < 256 { c } else { 256 };
            s.has(d, m)?;
            return Some(zip_type(s, d, m));
        } else if s.starts(q, l, b"Fusion[Active]/") {
            return Some(F::Autodesk123d);
        } else if s.starts(q, l, b"circuitdiagram/") {
            return Some(F::CircuitDiagramDocument);
        } else if s.starts(q, l, b"dwf/") {
            return Some(F::DesignWebFormatXps);
        } else if s.ends(q, l, b".fb2") && top {
            return Some(F::FictionbookZip);
        } else if s.starts(q, l, b"FusionAssetName[Active]/") {
            return Some(F::Fusion360);
        } else if s.starts(q, l, b"Payload/") && within(s, q, l, b".app/") {
            return Some(F::IosAppStorePackage);
        } else if s.starts(q, l, b"word/") {
            return Some(F::OfficeOpenXmlDocument);
        } else if s.starts(q, l, b"visio/") {
            return Some(F::OfficeOpenXmlDrawing);
        } else if s.starts(q, l, b"ppt/") {
            return Some(F::OfficeOpenXmlPresentation);
        } else if s.starts(q, l, b"xl/") {
            return Some(F::OfficeOpenXmlSpreadsheet);
        } else if s.starts(q, l, b"Documents/") && s.ends(q, l, b".fpage") {
            return Some(F::Openxps);
        } else if s.starts(q, l, b"SpaceClaim/") {
            return Some(F::SpaceclaimDocument);
        } else if s.starts(q, l, b"3D/") && s.ends(q, l, b".model") {
            return Some(F::ThreeDimensionalManufacturingFormat);
        } else if (s.ends(q, l, b".usd") || s.ends(q, l, b".usda") || s.ends(q, l, b".usdc")) && top {
            return Some(F::UniversalSceneDescriptionZip);
        }
        p = q + l + x + k;
        i += 1;
    }
    Some(fmt)
}

/// Position of the last `PK\5\6` at or after `lo`.
fn last_eocd(s: Src, lo: u64) -> Option<u64> {
    let mut best = None;
    let mut k = 0;
    while k < 4 {
        let z = s.zones[k];
        let a = if z.0 > lo { z.0 } else { lo };
        let b = if z.1 < s.len - 3 { z.1 } else { s.len - 3 };
        let mut i = b;
        while i > a {
            i -= 1;
            if s.is(i, b"PK\x05\x06") {
                if best.map_or(true, |x| x < i) {
                    best = Some(i);
                }
                break;
            }
        }
        k += 1;
    }
    best
}

fn within(s: Src, p: u64, n: u64, m: &[u8]) -> bool {
    occurs(s.d.0, p, p + n, p + n, m.as_ptr(), m.len())
}

/// The media type with white space around it removed.
fn zip_type(s: Src, p: u64, n: u64) -> F {
    let (mut a, mut b) = (p, p + n);
    while a < b {
        match space_at(s, a, b, false) {
            0 => break,
            k => a += k,
        }
    }
    while a < b {
        match space_at(s, a, b, true) {
            0 => break,
            k => b -= k,
        }
    }
    let mut j = 0;
    while j < ZIP_TYPES.len() {
        let (name, f) = ZIP_TYPES[j];
        if s.equals(a, b - a, name) {
            return f;
        }
        j += 1;
    }
    F::Zip
}

/// Length of the white-space character (Unicode White_Space) that begins at `a`, or ends at `b`.
fn space_at(s: Src, a: u64, b: u64, back: bool) -> u64 {
    let at = |n: u64| if back { b - n } else { a };
    let c = s.at(at(1));
    if c >= 9 && c <= 13 || c == 32 {
        return 1;
    }
    if b - a >= 2 {
        let p = at(2);
        if s.at(p) == 0xc2 && (s.at(p + 1) == 0x85 || s.at(p + 1) == 0xa0) {
            return 2;
        }
    }
    if b - a >= 3 {
        let p = at(3);
        let (x, y, z) = (s.at(p), s.at(p + 1), s.at(p + 2));
        let hit = x == 0xe1 && y == 0x9a && z == 0x80
            || x == 0xe2 && y == 0x80 && (z >= 0x80 && z <= 0x8a || z == 0xa8 || z == 0xa9 || z == 0xaf)
            || x == 0xe2 && y == 0x81 && z == 0x9f
            || x == 0xe3 && y == 0x80 && z == 0x80;
        if hit {
            return 3;
        }
    }
    0
}

// ----------------------------------------------------------------------------------------- families

fn enabled(name: &str) -> bool {
    match name {
        "asf" => cfg!(feature = "asf"),
        "cfb" => cfg!(feature = "cfb"),
        "ebml" => cfg!(feature = "ebml"),
        "exe" => cfg!(feature = "exe"),
        "id3v2" => cfg!(feature = "id3v2"),
        "mp4" => cfg!(feature = "mp4"),
        "pdf" => cfg!(feature = "pdf"),
        "rm" => cfg!(feature = "rm"),
        "sqlite3" => cfg!(feature = "sqlite3"),
        "xml" => cfg!(feature = "xml"),
        _ => cfg!(feature = "zip"),
    }
}

/// Whether a reader is enabled for the format of this number.
pub fn has_reader(sig: u64) -> bool {
    let mut r = false;
    for &(name, base, _) in super::tables::FAMILIES {
        r |= enabled(name) & (sig == base as u64);
    }
    r
}

/// Whether `got` may be answered when the signature is that of `sig`: `sig` itself, what its reader
/// is documented to tell apart, or the generic answer if a reader was involved.
pub fn in_family(sig: u64, got: u64) -> bool {
    let text = cfg!(feature = "txt") & (got == F::PlainText as u64);
    let generic = text | (got == F::ArbitraryBinaryData as u64);
    if sig == NONE {
        return generic;
    }
    let mut r = got == sig;
    for &(name, base, members) in super::tables::FAMILIES {
        if enabled(name) {
            let mut m = generic;
            for &x in members {
                m |= got == x as u64;
            }
            r |= (sig == base as u64) & m;
        }
    }
    r
}
