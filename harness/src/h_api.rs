//! Guarantees of the entry points, on samples of every container.

use super::build::*;
use super::file::*;
use super::run::*;
use super::spec::*;
use super::sym::{self, Data};
use file_format::FileFormat as F;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// A file: contents, length and where it is not NUL.
#[derive(Clone, Copy)]
pub struct Sample {
    pub d: Data,
    pub len: u64,
    pub zones: [(u64, u64); 4],
}

impl Sample {
    pub fn src(self) -> Src {
        Src { d: self.d, len: self.len, zones: self.zones, grain: 0 }
    }
}

fn all(b: Build) -> Sample {
    Sample { d: b.d, len: b.p, zones: ALL }
}

fn short(b: Build, n: u64) -> Sample {
    Sample { d: b.d, len: b.p - n, zones: ALL }
}

pub fn asf<const N: u64>() -> Sample {
    use super::h_asf::*;
    let n = sym::choice(5);
    let b = file(MAGIC).filler(0).skip(8).le32(2).any::<2>();
    let b = b.put(&[7; 16]).le64(24 + N).skip(N);
    match n {
        0 => all(b.put(STREAM).le64(40).put(AUDIO)),
        1 => all(b.put(STREAM).le64(40).put(VIDEO)),
        2 => all(b.put(EXT).le64(500).le16(1).le16(34).put(DVR).skip(2).le16(0).le16(0)),
        3 => all(b.any::<1>().put(&STREAM[1..]).le64(40).put(AUDIO)),
        _ => short(b.put(STREAM).le64(40).put(VIDEO), 1),
    }
}

pub fn cfb<const N: u64>() -> Sample {
    let b = file(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1").filler(0).to(26).le16(3).skip(2).le16(9).to(48).le32(N);
    // sector N of 512 bytes: the root entry
    let b = b.to((N + 1) * 512 + 80);
    match sym::choice(3) {
        0 => all(b.put(b"\x84\x10\x0c\0\0\0\0\0\xc0\0\0\0\0\0\0\x46").skip(64)),
        1 => all(b.any::<1>().put(b"\x09\x02\0\0\0\0\0\xc0\0\0\0\0\0\0\x46").skip(64)),
        _ => short(b.put(b"\x06\x09\x02\0\0\0\0\0\xc0\0\0\0\0\0\0\x46"), 1),
    }
}

pub fn ebml<const N: u64>() -> Sample {
    let b = file(b"\x1A\x45\xDF\xA3").filler(0).put(b"\x80");
    let m = b.put(b"\x42\x82\x88matroska").put(b"\xEC").be64(1 << 56 | N).skip(N);
    match sym::choice(5) {
        0 => all(b.put(b"\x42\x82\x84webm")),
        1 => all(m.put(b"\x86\x82V_")),
        2 => all(m.put(b"\x86\x82").any::<1>().put(b"_")),
        3 => all(m.put(b"\x53\xB8\x81").any::<1>()),
        _ => short(m.put(b"\x86\x82A_"), 1),
    }
}

pub fn exe<const N: u64>() -> Sample {
    let b = file(b"MZ").filler(0).to(60).le32(N).to(N);
    match sym::choice(4) {
        0 => all(b.put(b"PE\0\0").skip(18).any::<2>()),
        1 => all(b.put(b"LE").skip(30)),
        2 => all(b.any::<1>().put(b"E").skip(30)),
        _ => short(b.put(b"PE\0\0").skip(18).le16(0x2000), 1),
    }
}

pub fn id3v2<const N: u64>() -> Sample {
    let b = file(b"ID3").filler(0).put(&[3, 0, 0, (N >> 21) as u8 & 127, (N >> 14) as u8 & 127, (N >> 7) as u8 & 127, N as u8 & 127]).skip(N);
    match sym::choice(4) {
        0 => all(b.put(b"fLaC").skip(8)),
        1 => all(b.put(b"\xff\xfb").skip(8)),
        2 => all(b.put(b"ID3\x04\0").any::<1>().put(b"\0\0\0\x05").skip(5).put(b"fLaC").skip(20)),
        _ => short(b.put(b"fLaC"), 1),
    }
}

pub fn mp4<const N: u64>() -> Sample {
    let b = file(b"").filler(0).be32(16).put(b"ftypMSNV").skip(4);
    let b = b.be32(1).put(b"free").be64(16 + N).skip(N).be32(100).put(b"moov").be32(50).put(b"trak");
    match sym::choice(4) {
        0 => all(b.be32(40).put(b"hdlr").skip(8).put(b"vide").skip(20)),
        1 => all(b.be32(40).put(b"hdlr").skip(8).put(b"sou").any::<1>().skip(20)),
        2 => all(b.be32(40).put(b"hdl").any::<1>().skip(8).put(b"soun").skip(20)),
        _ => short(b.be32(40).put(b"hdlr").skip(8).put(b"soun"), 1),
    }
}

pub fn pdf<const N: u64>() -> Sample {
    let b = file(b"%PDF-").filler(0);
    let p = 5 + N - 6;
    let b = match sym::choice(2) {
        0 => b.to(p).put(b"AIPrivateData"),
        _ => b.to(p).put(b"AIPrivateDat").any::<1>(),
    };
    let n = b.p + 2_000;
    Sample { d: b.d, len: n, zones: [(0, 5), (p, p + 13), (0, 0), (0, 0)] }
}

pub fn rm<const N: u64>() -> Sample {
    let b = file(super::h_rm::MAGIC).filler(0).to(14).be32(4).put(b"PROP").be32(N).skip(N - 8);
    match sym::choice(4) {
        0 => all(b.put(b"MDPR").be32(48).skip(32).put(b"\0\x06audio/").put(b"DATA").be32(8)),
        1 => all(b.put(b"MDPR").be32(48).skip(32).put(b"\0\x06").any::<1>().put(b"ideo/").put(b"DATA").be32(8)),
        2 => all(b.put(b"DATA").be32(8).put(b"DATA").be32(8)),
        _ => short(b.put(b"MDPR").be32(48).skip(32).put(b"\0\x06video/"), 1),
    }
}

pub fn sqlite3<const N: u64>() -> Sample {
    let b = file(b"SQLite format 3\0").filler(0);
    let p = N;
    let b = match sym::choice(2) {
        0 => b.to(p).put(b"com.bohemiancoding.sketch3"),
        _ => b.to(p).any::<1>().put(b"om.bohemiancoding.sketch3"),
    };
    Sample { d: b.d, len: p + 20_000, zones: [(0, 16), (p, p + 26), (0, 0), (0, 0)] }
}

pub fn txt() -> Sample {
    match sym::choice(5) {
        0 => all(file(b"zz ").any::<1>().put(b"\n")),
        1 => all(file(b"zz ").put(&[0xc3]).any::<1>().put(b" \n")),
        2 => all(file(b"zz ").filler(b'a').skip(9000).put(&[b'\n', 0xe2, 0x82, 0xac])),
        3 => all(file(b"zz ").filler(b'a').skip(9000).any::<1>()),
        // text that begins like a container
        _ => all(file(match sym::choice(3) {
            0 => b"ID3 zz zz",
            1 => b"MZ\0 zz zz",
            _ => b"zzz ftypMSNV",
        })),
    }
}

pub fn xml() -> Sample {
    let b = file(b"<?xml").filler(0).skip(500);
    let s = match sym::choice(3) {
        0 => all(b.put(b"<svg").skip(300)),
        1 => all(b.put(b"<g").any::<1>().put(b"x")),
        _ => short(b.put(b"<score-partwise"), 1),
    };
    Sample { zones: [(0, 5), (505, 530), (0, 0), (0, 0)], ..s }
}

pub fn zip<const N: u64>() -> Sample {
    let h = |b: Build, n: &[u8]| b.put(b"PK\x01\x02").skip(16).le32(5).le32(6).le16(n.len() as u64).skip(16).put(n);
    let m = |b: Build, n: u64| b.put(b"PK\x01\x02").skip(16).le32(n).le32(n).le16(8).skip(12).le32(100).put(b"mimetype");
    let b = file(b"PK\x03\x04").filler(0);
    let t = b"application/epub+zip";
    let c = N;
    let (b, n) = match sym::choice(6) {
        0 => (h(b.to(c), b"word/x"), 1),
        1 => (h(h(b.to(c), b"x"), b"META-INF/MANIFEST.MF"), 2),
        2 => (h(b.to(c), b"doc.km").to(c + 45).any::<1>().to(c + 52), 1),
        3 => (m(b.to(130).put(t).to(c), 20), 1),
        4 => (m(b.to(130).put(t).to(149).any::<1>().to(c), 20), 1),
        // more entries than there are
        _ => (h(b.to(c), b"x"), 2),
    };
    let e = b.p;
    let b = b.put(b"PK\x05\x06").skip(6).le16(n).skip(4).le32(c).skip(2);
    Sample { d: b.d, len: b.p, zones: [(0, 200), (c, e + 22), (0, 0), (0, 0)] }
}

/// Formats recognised by their signature alone, and others.
pub fn sig() -> Sample {
    match sym::choice(5) {
        0 => all(file(b"\x89PNG\r\n\x1A\n").any::<1>()),
        1 => all(file(b"\xFF\xD8").any::<1>()),
        2 => all(file(b"").filler(0).to(36_864).put(b"\0")),
        3 => all(file(b"").filler(0).to(32_769).put(b"CD00").any::<1>().skip(5_000)),
        _ => Sample { d: file(b"").any::<2>().d, len: sym::choice(3), zones: ALL },
    }
}

/// The answer for the undisturbed stream.
fn plain(s: Sample) -> F {
    detect(s.d, s.len, 0)
}

// ------------------------------------------------------------------------------------ entry points

/// `from_bytes`, `From<&[u8]>`, `from_reader` and `from_file` agree.
pub fn entry(s: Sample) {
    let a = plain(s);
    let mut v = vec![0u8; s.len as usize];
    s.d.fill(0, &mut v, s.len);
    sym::report("got", a as u64);
    sym::assert("entry:bytes", F::from_bytes(&v) as u64 == a as u64);
    sym::assert("entry:slice", F::from(&v[..]) as u64 == a as u64);
    match F::from_reader(Cursor::new(&v)) {
        Ok(f) => sym::assert("entry:reader", f as u64 == a as u64),
        Err(_) => sym::assert("entry:reader-ok", false),
    }
    let path = format!("{}{}", crate::prefix(), s.d.path(s.len));
    match F::from_file(path) {
        Ok(f) => sym::assert("entry:file", f as u64 == a as u64),
        Err(_) => sym::assert("entry:file-ok", false),
    }
    sym::cover("end");
}

/// Endings of file names.
pub const NAMES: [&str; 16] = [
    "", ".txt", ".TXT", ".docx", ".zip", ".jpg", ".png", ".mp3", ".mp4", ".svg", ".exe", ".bin", ".html", ".json", ".tar.gz", ".empty",
];

/// A medium that cannot seek far past its end, and a medium that can, agree.
fn medium(d: Data, len: u64, grain: u64) {
    let mut f = SymFile::new(d, len);
    f.grain = grain;
    let a = F::from_reader(&mut f).unwrap_or(F::Empty);
    let mut f = SymFile::new(d, len);
    f.grain = grain;
    f.max = len + (1 << 33);
    let b = F::from_reader(&mut f).unwrap_or(F::Empty);
    sym::report("got", a as u64);
    sym::assert("entry:medium", a as u64 == b as u64);
    sym::cover("end");
}

// --------------------------------------------------------------------------------------- chunking

/// Every other read is interrupted.
const STUTTER: u64 = 3001;

/// Returns less than asked for, or is interrupted.
struct Chunked {
    f: SymFile,
    reads: u64,
    /// Reads `from..from + width` are disturbed in any way.
    from: u64,
    width: u64,
    /// Bytes at most returned by the others.
    rest: u64,
}

impl Read for Chunked {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let k = self.reads;
        self.reads += 1;
        let mut n = buf.len();
        if k >= self.from && k < self.from + self.width {
            match sym::choice(4) {
                0 => {}
                1 => n = n.min(1),
                2 => n = n.div_ceil(2),
                _ => {
                    return Err(Error::from(ErrorKind::Interrupted));
                }
            }
        } else if self.rest == STUTTER && k % 2 == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        } else {
            n = n.min(self.rest as usize);
        }
        self.f.read(&mut buf[..n])
    }
}

impl Seek for Chunked {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.f.seek(to)
    }
}

/// From the first seek on, reads return a few bytes only, and some are interrupted.
struct Drip {
    f: SymFile,
    most: usize,
    sought: bool,
    /// The read before was interrupted.
    again: bool,
    stutter: bool,
}

impl Read for Drip {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if !self.sought {
            return self.f.read(buf);
        }
        self.again = !self.again && self.stutter;
        if self.again {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = buf.len().min(self.most);
        self.f.read(&mut buf[..n])
    }
}

impl Seek for Drip {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.sought = true;
        self.f.seek(to)
    }
}

fn dripping(s: Sample) {
    let a = plain(s);
    let most = one([1, 3, 17]) as usize;
    let mut c = Drip { f: SymFile::new(s.d, s.len), most, sought: false, again: false, stutter: sym::choice(2) == 0 };
    let r = F::from_reader(&mut c);
    sym::report("got", a as u64);
    match r {
        Ok(f) => sym::assert("chunk:same", f as u64 == a as u64),
        Err(_) => sym::assert("chunk:ok", false),
    }
    sym::cover("end");
}

pub fn chunked(s: Sample, last: u64) {
    chunked_more(s, last, 2);
}

fn chunked_more(s: Sample, last: u64, width: u64) {
    let a = plain(s);
    let mut c = Chunked { f: SymFile::new(s.d, s.len), reads: 0, from: sym::choice(last), width, rest: one([u64::MAX, 1000, STUTTER]) };
    let r = F::from_reader(&mut c);
    sym::report("got", a as u64);
    match r {
        Ok(f) => sym::assert("chunk:same", f as u64 == a as u64),
        Err(_) => sym::assert("chunk:ok", false),
    }
    sym::cover("end");
}

// ----------------------------------------------------------------------------------------- faults

/// Fails at the given call, or from it on.
struct Faulty {
    f: SymFile,
    calls: u64,
    at: u64,
    once: bool,
    kind: ErrorKind,
    /// A seek was made before the failure; a call failed.
    sought: bool,
    failed: bool,
}

impl Faulty {
    fn call(&mut self) -> Result<()> {
        let k = self.calls;
        self.calls += 1;
        if k == self.at || (k > self.at && !self.once) {
            self.failed = true;
            return Err(Error::from(self.kind));
        }
        Ok(())
    }
}

impl Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.call()?;
        self.f.read(buf)
    }
}

impl Seek for Faulty {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        if !self.failed {
            self.sought = true;
        }
        self.call()?;
        self.f.seek(to)
    }
}

pub fn faulty(s: Sample, kinds: u64) {
    let mut f = SymFile::new(s.d, s.len);
    let a = F::from_reader(&mut f).unwrap_or(F::Empty);
    use ErrorKind::*;
    let list = [
        Other, UnexpectedEof, WouldBlock, PermissionDenied, NotFound, ConnectionReset, ConnectionAborted, NotConnected, BrokenPipe,
        AlreadyExists, InvalidInput, InvalidData, TimedOut, WriteZero, Unsupported, OutOfMemory, IsADirectory, NotSeekable,
    ];
    let at = sym::choice(f.ops);
    let once = sym::choice(2) == 0;
    let kind = list[sym::u64(0, if cfg!(feature = "txt") { 3 } else { kinds - 1 }) as usize];
    let mut f = Faulty { f: SymFile::new(s.d, s.len), calls: 0, at, once, kind, sought: false, failed: false };
    let r = F::from_reader(&mut f);
    sym::report("got", a as u64);
    match r {
        Err(e) => {
            sym::assert("fault:only-initial-errors-surface", f.failed & !f.sought);
            sym::assert("fault:same-kind", e.kind() == kind);
        }
        Ok(b) => {
            sym::assert("fault:initial-errors-surface", !f.failed | f.sought);
            sym::report("after", b as u64);
            if !f.failed {
                sym::assert("fault:undisturbed", a as u64 == b as u64);
            } else if cfg!(feature = "txt") && (!once || signature(s.src()) == NONE) {
                // the fallback itself was disturbed
                sym::assert("fault:default", b as u64 == F::ArbitraryBinaryData as u64);
            } else {
                // the reader was disturbed, or the fallback of a reader that gave up
                let gave_up = (a as u64 == F::PlainText as u64) | (a as u64 == F::ArbitraryBinaryData as u64);
                let default = b as u64 == F::ArbitraryBinaryData as u64;
                sym::assert("fault:generic", b as u64 == generic(s.src()) as u64 || gave_up & default);
            }
        }
    }
    sym::cover("end");
}

/// Harnesses for one container.
macro_rules! samples {
    ($($sample:ident $($near:literal $far:literal $entry_far:ident)? , $entry:ident $chunk:ident $late:ident $drip:ident $fault:ident $agree:ident)*) => {
        harnesses! {
            $(
                $entry { entry($sample$(::<$near>)?()); }
                $($entry_far { entry($sample::<$far>()); })?
                $chunk { chunked($sample$(::<$near>)?(), 6); }
                $drip { dripping($sample$(::<$near>)?()); }
                // more reads, later ones too
                $late { chunked_more($sample$(::<$near>)?(), 16, 3); }
                $fault { faulty($sample$(::<$near>)?(), 18); }
                $agree { agree_src($sample$(::<$near>)?().src()); }
            )*
            medium_asf {
                use super::h_asf::*;
                let b = file(MAGIC).filler(0).skip(8).le32(one([1, 2])).skip(2);
                let b = match sym::choice(3) {
                    0 => b.skip(16).any::<8>(),
                    1 => b.put(STREAM).any::<8>().put(AUDIO),
                    _ => b.put(EXT).any::<8>().le16(0).skip(60),
                };
                medium(b.d, b.p + 100, 1 << 10);
            }
            medium_ebml {
                let b = file(b"\x1A\x45\xDF\xA3").filler(0).put(b"\x80\x42\x82\x88matroska");
                let b = match sym::choice(3) {
                    0 => b.put(b"\xEC\x01").any::<7>(),
                    1 => b.put(b"\x86\x01").any::<7>().put(b"A_").skip(100),
                    _ => b.put(b"\x53\xB8\x01").any::<7>().skip(10),
                };
                medium(b.d, b.p + 10, 1 << 10);
            }
            medium_mp4 {
                let b = file(b"").filler(0).be32(16).put(b"ftypMSNV").skip(4);
                let b = match sym::choice(2) {
                    0 => b.be32(1).put(b"free").any::<8>().skip(20),
                    _ => b.be32(1).put(b"hdlr").any::<8>().skip(8).put(b"soun").skip(20),
                };
                medium(b.d, b.p + 10, 1 << 10);
            }
            // The name of a file says nothing.
            entry_name {
                let s = match sym::choice(6) {
                    0 => all(file(b"\x89PNG\r\n\x1A\n").any::<1>()),
                    1 => all(file(b"PK\x05\x06").put(&[0; 18])),
                    2 => all(file(b"PK\x03\x04").put(&[0; 26]).put(b"word/")),
                    3 => all(file(b"<?xml version=\"1.0\"?><svg").any::<1>()),
                    4 => all(file(b"letters").any::<1>()),
                    _ => Sample { d: file(b"").any::<2>().d, len: sym::choice(3), zones: ALL },
                };
                let a = plain(s);
                sym::report("got", a as u64);
                let path = format!("{}{}{}", crate::prefix(), s.d.path(s.len), NAMES[sym::choice(NAMES.len() as u64) as usize]);
                match F::from_file(path) {
                    Ok(f) => sym::assert("entry:file", f as u64 == a as u64),
                    Err(_) => sym::assert("entry:file-ok", false),
                }
                sym::cover("end");
            }
            // A directory: it can be opened, but not read.
            entry_directory {
                let path = format!("{}{}", crate::prefix(), Data::new().path(u64::MAX));
                sym::assert("entry:directory", F::from_file(path).is_err());
                sym::cover("end");
            }
            // A file that does not exist.
            entry_missing {
                let path = format!("{}{}", crate::prefix(), 1_000_000);
                match F::from_file(path) {
                    Ok(_) => sym::assert("entry:missing", false),
                    Err(e) => sym::assert("entry:missing-kind", e.kind() == ErrorKind::NotFound),
                }
                sym::cover("end");
            }
        }
    };
}

samples! {
    asf 10000 20000000 entry_far_asf, entry_asf chunk_asf late_asf drip_asf fault_asf agree_asf
    cfb 100 40000 entry_far_cfb, entry_cfb chunk_cfb late_cfb drip_cfb fault_cfb agree_cfb
    ebml 8192 20000000 entry_far_ebml, entry_ebml chunk_ebml late_ebml drip_ebml fault_ebml agree_ebml
    exe 9000 20000000 entry_far_exe, entry_exe chunk_exe late_exe drip_exe fault_exe agree_exe
    id3v2 12288 20000000 entry_far_id3v2, entry_id3v2 chunk_id3v2 late_id3v2 drip_id3v2 fault_id3v2 agree_id3v2
    mp4 9000 20000000 entry_far_mp4, entry_mp4 chunk_mp4 late_mp4 drip_mp4 fault_mp4 agree_mp4
    pdf 32768 1048576 entry_far_pdf, entry_pdf chunk_pdf late_pdf drip_pdf fault_pdf agree_pdf
    rm 9000 20000000 entry_far_rm, entry_rm chunk_rm late_rm drip_rm fault_rm agree_rm
    sqlite3 20000 30000 entry_far_sqlite3, entry_sqlite3 chunk_sqlite3 late_sqlite3 drip_sqlite3 fault_sqlite3 agree_sqlite3
    txt, entry_txt chunk_txt late_txt drip_txt fault_txt agree_txt
    xml, entry_xml chunk_xml late_xml drip_xml fault_xml agree_xml
    zip 40000 20000000 entry_far_zip, entry_zip chunk_zip late_zip drip_zip fault_zip agree_zip
    sig, entry_sig chunk_sig late_sig drip_sig fault_sig agree_sig
}
