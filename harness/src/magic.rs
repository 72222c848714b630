//! Contents of files by their magic numbers: a table written down from the formats' definitions, and a generator of
//! contents that have one, have it only in part, or have none.
use crate::gen;
use proptest::prelude::*;

pub struct Magic {
    /// (offset, bytes)
    pub parts: &'static [(usize, &'static [u8])],
    /// shorter contents are not recognised
    pub least: usize,
    pub mime: &'static str,
}
const fn m(parts: &'static [(usize, &'static [u8])], least: usize, mime: &'static str) -> Magic {
    Magic { parts, least, mime }
}

/// In the order in which they are tried.
pub const MAGICS: &[Magic] = &[
    m(&[(0, b"\0asm\x01\0\0\0")], 8, "application/wasm"),
    m(&[(0, b"\x7fELF")], 53, "application/x-executable"),
    m(&[(0, b"MZ")], 2, "application/vnd.microsoft.portable-executable"),
    m(&[(0, b"\xff\xd8\xff")], 3, "image/jpeg"),
    m(&[(0, b"\x89PNG")], 4, "image/png"),
    m(&[(0, b"GIF")], 3, "image/gif"),
    m(&[(8, b"WEBP")], 12, "image/webp"),
    m(&[(0, b"BM")], 2, "image/bmp"),
    m(&[(0, b"8BPS")], 4, "image/vnd.adobe.photoshop"),
    m(&[(0, b"\0\0\x01\0")], 4, "image/vnd.microsoft.icon"),
    m(&[(4, b"ftyp"), (8, b"isom")], 12, "video/mp4"),
    m(&[(4, b"ftyp"), (8, b"mp42")], 12, "video/mp4"),
    m(&[(4, b"ftyp"), (8, b"M4V")], 11, "video/x-m4v"),
    m(&[(31, b"matroska")], 39, "video/x-matroska"),
    m(&[(0, b"\x1a\x45\xdf\xa3")], 4, "video/webm"),
    m(&[(0, b"RIFF"), (8, b"AVI")], 11, "video/x-msvideo"),
    m(&[(0, b"MThd")], 4, "audio/midi"),
    m(&[(0, b"ID3")], 3, "audio/mpeg"),
    m(&[(4, b"ftyp"), (8, b"M4A")], 11, "audio/m4a"),
    m(&[(0, b"OggS")], 4, "audio/ogg"),
    m(&[(0, b"fLaC")], 4, "audio/x-flac"),
    m(&[(0, b"RIFF"), (8, b"WAVE")], 12, "audio/x-wav"),
    m(&[(0, b"wOFF\0\x01\0\0")], 8, "application/font-woff"),
    m(&[(0, b"\0\x01\0\0\0")], 5, "application/font-sfnt"),
    m(&[(0, b"OTTO\0")], 5, "application/font-sfnt"),
    m(&[(257, b"ustar")], 262, "application/x-tar"),
    m(&[(0, b"Rar!\x1a\x07\x01")], 7, "application/vnd.rar"),
    m(&[(0, b"\x1f\x8b\x08")], 3, "application/gzip"),
    m(&[(0, b"BZh")], 3, "application/x-bzip2"),
    m(&[(0, b"7z\xbc\xaf\x27\x1c")], 6, "application/x-7z-compressed"),
    m(&[(0, b"%PDF")], 4, "application/pdf"),
    m(&[(0, b"{\\rtf")], 5, "application/rtf"),
    m(&[(0, b"SQLi")], 4, "application/vnd.sqlite3"),
    m(&[(128, b"DICM")], 132, "application/dicom"),
    m(&[(0, b"\x28\xb5\x2f\xfd")], 4, "application/zstd"),
    m(&[(0, b"<!DOCTYPE HTML>")], 15, "text/html"),
    m(&[(0, b"\n <html>")], 8, "text/html"),
    m(&[(0, b"<?xml")], 5, "text/xml"),
    m(&[(0, b"#!")], 3, "text/x-shellscript"),
];

fn has(m: &Magic, b: &[u8]) -> bool {
    b.len() >= m.least && m.parts.iter().all(|(at, s)| b.get(*at..at + s.len()) == Some(*s))
}

/// Archives that may turn out to be documents, depending on what follows.
pub fn compound(b: &[u8]) -> bool {
    b.starts_with(b"PK") || b.starts_with(b"\xd0\xcf\x11\xe0")
}

/// The media type of the content, if the table knows it.
pub fn known(b: &[u8]) -> Option<&'static str> {
    MAGICS.iter().find(|m| has(m, b)).map(|m| m.mime)
}

/// Contents: one of the magic numbers (all of it, or cut off somewhere), and more; or something else.
pub fn content(tail: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Vec<u8>> {
    let with = (0..MAGICS.len(), "[zy 0]", tail.clone(), proptest::option::weighted(0.25, any::<u16>()), any::<bool>()).prop_map(|(i, fill, tail, cut, nul)| {
        let m = &MAGICS[i];
        let fill = if nul { 0 } else { fill.as_bytes()[0] };
        let mut v = vec![];
        for (at, s) in m.parts {
            v.resize(*at, fill);
            v.extend_from_slice(s);
        }
        if let Some(cut) = cut {
            v.truncate(v.len() * cut as usize / 65536);
        } else {
            v.extend(tail);
        }
        v
    });
    let short = gen::vec(any::<u8>(), 0..6);
    prop_oneof![
        6 => with,
        2 => tail.prop_map(|t| [&b"zz plain "[..], &t].concat()),
        1 => short,
    ]
    .boxed()
}

/// Archives and compound files that look like office documents, as far as one can see.
pub fn office() -> BoxedStrategy<Vec<u8>> {
    let size = || prop_oneof![2 => Just(0u32), 2 => 0u32..400, 1 => Just(u32::MAX), 1 => any::<u32>(), 1 => u32::MAX - 60..=u32::MAX];
    let zip = (size(), proptest::sample::select(vec![&b"[Content_Types].xml"[..], b"_rels/.rels", b"docProps", b"word/", b"xl/", b"mimetype"]), gen::vec((50usize..600, proptest::sample::select(vec![&b"PK\x03\x04"[..], b"word/", b"xl/", b"ppt/"])), 0..6), 4usize..700)
        .prop_map(|(size, name, more, n)| {
            let mut v = vec![0; 700];
            v[..4].copy_from_slice(b"PK\x03\x04");
            v[18..22].copy_from_slice(&size.to_le_bytes());
            v[30..30 + name.len()].copy_from_slice(name);
            for (at, s) in more {
                v[at..at + s.len()].copy_from_slice(s);
            }
            v.truncate(n);
            v
        });
    let compound = (any::<bool>(), gen::vec((10usize..128, size()), 0..10), 8usize..1600).prop_map(|(v4, words, n)| {
        let mut v = vec![0; 1600];
        v[..8].copy_from_slice(b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1");
        v[24..34].copy_from_slice(&[0x3e, 0, 3 + v4 as u8, 0, 0xfe, 0xff, if v4 { 12 } else { 9 }, 0, 6, 0]);
        for (at, w) in words {
            v[at * 4..at * 4 + 4].copy_from_slice(&w.to_le_bytes());
        }
        v.truncate(n);
        v
    });
    prop_oneof![zip, compound].boxed()
}
