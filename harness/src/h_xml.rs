//! `reader-xml`.

use super::build::*;
use super::run::*;
use super::sym;

pub const MARKERS: &[&[u8]] = &[
    b"<abiword template=\"false\"", b"<abiword template=\"true\"", b"<amf", b"<ASX", b"<asx", b"<feed", b"<COLLADA", b"<mxfile", b"<X3D",
    b"<xsl", b"<FictionBook", b"<gml", b"<gpx", b"<kml", b"<math", b"<MPD", b"<score-partwise", b"<rss", b"<SVG", b"<svg", b"<soap",
    b"<map", b"<tileset", b"<tt", b"<TrainingCenterDatabase", b"<uof:UOF", b"<USFSubtitles", b"<xliff", b"<playlist",
    b"xmlns=\"http://www.w3.org/ns/ttml\"", b"uof:mimetype=\"vnd.uof.presentation\"", b"uof:mimetype=\"vnd.uof.spreadsheet\"",
    b"uof:mimetype=\"vnd.uof.text\"",
];
const END: u64 = 5 + 8192;

fn xml() -> Build {
    file(b"<?xml").filler(0)
}

fn bom() -> Build {
    file(b"\xEF\xBB\xBF<?xml").filler(0)
}

fn marker() -> &'static [u8] {
    MARKERS[sym::choice(MARKERS.len() as u64) as usize]
}

harnesses! {
    // Any contents in a window at the start.
    xml_start {
        let b = xml().any::<14>();
        agree_zones(b.d, 60, [(5, 19), (0, 5), (0, 0), (0, 0)]);
    }
    // Any characters in a wide window.
    xml_wide {
        let b = xml().put(&sym::visible::<18>());
        agree_zones(b.d, 60, [(5, 23), (0, 5), (0, 0), (0, 0)]);
    }
    // Any contents in a window at the end of the buffer.
    xml_end {
        let b = xml().to(END - 12).any::<14>();
        agree_zones(b.d, END + 20, [(END - 12, END + 2), (0, 5), (0, 0), (0, 0)]);
    }
    // Each marker, one byte of it arbitrary.
    xml_markers {
        let b = xml().to(100).any::<1>().blur(marker()).any::<1>();
        agree_zones(b.d, 200, [(100, b.p), (0, 5), (0, 0), (0, 0)]);
    }
    // Any two markers, in any order.
    xml_pairs {
        let b = xml().to(50).put(marker()).to(90).put(marker());
        agree_zones(b.d, 140, [(50, 140), (0, 5), (0, 0), (0, 0)]);
    }
    // Formats that need two markers, one byte of either arbitrary.
    xml_both {
        let k = sym::choice(4) as usize;
        let (m, n) = (MARKERS[if k == 0 { 23 } else { 25 }], MARKERS[29 + k]);
        let b = if sym::choice(2) == 0 { xml().to(50).blur(m).to(70).put(n) } else { xml().to(50).put(m).to(70).blur(n) };
        agree_zones(b.d, 140, [(50, 140), (0, 5), (0, 0), (0, 0)]);
    }
    // Each marker and any contents in a window before it.
    xml_context {
        let b = if sym::choice(2) == 0 { xml() } else { bom() };
        let b = b.to(50).any::<6>().to(150).put(marker());
        agree_zones(b.d, 200, [(50, 56), (150, 200), (0, 10), (0, 0)]);
    }
    // Each marker at the end of the buffer and of the file.
    xml_cut {
        let m = marker();
        let l = m.len() as u64;
        let s = if sym::choice(2) == 0 { END - l + sym::choice(2) } else { 5 };
        let b = xml().to(s).put(m);
        agree_zones(b.d, b.p - one([0, 1]), [(s, b.p), (0, 5), (0, 0), (0, 0)]);
    }
    // Any truncation of a window.
    xml_short {
        let b = xml().any::<12>();
        agree_zones(b.d, cut(5, 20), [(5, 17), (0, 5), (0, 0), (0, 0)]);
    }
}
