//! E01: errors. M01: well-known MIME types.
use crate::gen::*;
use crate::kit::*;
use crate::p_codec::textish;
use binate::frame::DecodeError;
use binate::mimetype::WellKnownMimeType as W;
use binate::mimetype::DEFAULT_MIMETYPE;
use binate::{Code, Error};
use crate::team::team;
use std::error::Error as _;
use std::io;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn workloads(prop: &str) -> Vec<Workload> {
    match prop {
        "E01" => {
            #[allow(unused_mut)]
            let mut v = vec![
                sweep("codes", CODES.len() as u64, CODES.len() as u64, codes),
                sweep("decode-codes", 65_536, 65_536, e01_type_codes),
                random("decode-errors", 2, e01_decode),
                random("io-errors", 2, e01_io),
            ];
            #[cfg(feature = "h-error")]
            {
                let n = CODES.len() as u64 * CAUSES.len() as u64;
                v.push(sweep("protocol", n, n, hooks::e01_protocol_sweep));
                v.push(random("protocol-causes", 4, hooks::e01_protocol));
            }
            v
        }
        "M01" => {
            let n = TABLE.len() as u64;
            vec![
                sweep("table", n * n, n * n, m01_table),
                sweep("neighbours", n * 256, n * 1024, m01_neighbours),
                sweep("single-edits", n * 100 * 128, n * 100 * 128, m01_edits),
                sweep("look-alikes", look_alikes().len() as u64, look_alikes().len() as u64, m01_look_alikes),
                random("strings", 4, m01_strings),
                custom("collisions", 300, m01_collisions),
            ]
        }
        _ => vec![],
    }
}

// -------------------------------------------------------------------- E01

/// The protocol's error codes.
const CODES: &[(Code, &str, u32)] = &[
    (Code::InvalidSetup, "INVALID_SETUP", 0x0000_0001),
    (Code::UnsupportedSetup, "UNSUPPORTED_SETUP", 0x0000_0002),
    (Code::RejectedSetup, "REJECTED_SETUP", 0x0000_0003),
    (Code::RejectedResume, "REJECTED_RESUME", 0x0000_0004),
    (Code::ConnectionError, "CONNECTION_ERROR", 0x0000_0101),
    (Code::ConnectionClose, "CONNECTION_CLOSE", 0x0000_0102),
    (Code::ApplicationError, "APPLICATION_ERROR", 0x0000_0201),
    (Code::Rejected, "REJECTED", 0x0000_0202),
    (Code::Canceled, "CANCELED", 0x0000_0203),
    (Code::Invalid, "INVALID", 0x0000_0204),
];

const CAUSES: &[Option<&str>] = &[
    None,
    Some(""),
    Some("x"),
    Some(": "),
    Some("peer is gone"),
    Some("é€😀"),
    Some("REJECTED (0x00000202)"),
    Some("a\nb\0c"),
    Some("{} {0} {:?}"),
];

/// Answers of the predicates, in a fixed order.
pub fn answers(e: &Error) -> [(&'static str, bool); 13] {
    [
        ("is_invalid_setup", e.is_invalid_setup()),
        ("is_unsupported_setup", e.is_unsupported_setup()),
        ("is_rejected_setup", e.is_rejected_setup()),
        ("is_rejected_resume", e.is_rejected_resume()),
        ("is_connection_error", e.is_connection_error()),
        ("is_connection_close", e.is_connection_close()),
        ("is_application_error", e.is_application_error()),
        ("is_rejected", e.is_rejected()),
        ("is_cancel", e.is_cancel()),
        ("is_invalid", e.is_invalid()),
        ("is_protocol", e.is_protocol()),
        ("is_setup", e.is_setup()),
        ("is_decode", e.is_decode()),
    ]
}

fn expect_answers(
    e: &Error,
    what: &str,
    yes: impl Fn(&str) -> bool,
) -> Check {
    let got = subj(|| answers(e))?;
    for (name, v) in got {
        ensure!(
            v == yes(name),
            "{what}: {name}() returned {v}, expected {}",
            yes(name)
        );
    }
    Ok(())
}

fn texts(e: &Error) -> Result<(String, String), String> {
    subj(|| (format!("{e}"), format!("{e:?} {e:#?}")))
}

fn codes(cx: &mut Cx) -> Check {
    let (c, name, v) = CODES[cx.idx as usize];
    cx.obs.count("codes", 1);
    ensure!(c as u32 == v, "{name} has code {:#x}, not {v:#x}", c as u32);
    for (d, n, _) in CODES {
        ensure!((c == *d) == (name == *n), "{name} == {n}: {}", c == *d);
    }
    Ok(())
}

fn decode_error(d: DecodeError, numbers: &[u64]) -> Check {
    let text = subj(|| d.to_string())?;
    for n in numbers {
        let forms = [format!("{n}"), format!("{n:x}"), format!("{n:X}")];
        ensure!(
            forms.iter().any(|f| text.contains(f.as_str())),
            "the text '{text}' of {d:?} does not name {n}"
        );
    }
    let e = subj(|| Error::from(d.clone()))?;
    let what = format!("error from {d:?}");
    expect_answers(&e, &what, |n| n == "is_decode")?;
    let (shown, debug) = texts(&e)?;
    ensure!(!debug.is_empty(), "{what}: empty debug text");
    ensure!(
        shown.to_lowercase().contains("decod")
            && shown.ends_with(&format!(": {text}")),
        "{what}: printed as '{shown}', expected category and '{text}'"
    );
    let src = subj(|| e.source().map(|s| s.to_string()))?;
    ensure!(
        src.as_deref() == Some(&text),
        "{what}: source is {src:?}, expected '{text}'"
    );
    Ok(())
}

fn e01_type_codes(cx: &mut Cx) -> Check {
    let v = cx.idx as u16;
    cx.obs.count("decode errors", 1);
    cx.obs.seen(mix(v as u64));
    decode_error(DecodeError::UnrecognizedFrameType(v), &[v as u64])
}

fn e01_decode(cx: &mut Cx) -> Check {
    cx.obs.count("decode errors", 1);
    match cx.rng.below(8) {
        0 => decode_error(DecodeError::InComplete, &[]),
        1 => {
            // One that decoding itself produced.
            let mut b = content_small(cx);
            b.resize(6 + cx.rng.below(8), 0);
            let r = subj(|| binate::frame::Frame::decode(&mut &b[..]))?;
            match r {
                Err(d) => {
                    cx.obs.count("errors from decoding", 1);
                    decode_error(d, &[])
                }
                Ok(_) => Ok(()),
            }
        }
        _ => {
            let found = u31(cx);
            let expected = *cx.rng.pick(&["0", "non-zero", "", "1 or 2"]);
            cx.obs.seen(mix(found as u64));
            let d = DecodeError::InvalidStreamId { expected, found };
            let text = subj(|| d.to_string())?;
            ensure!(
                text.contains(expected),
                "the text '{text}' of {d:?} does not name '{expected}'"
            );
            decode_error(d, &[found as u64])
        }
    }
}

fn content_small(cx: &mut Cx) -> Vec<u8> {
    let n = cx.rng.below(20);
    content(cx, n)
}

/// An error with a cause.
#[derive(Debug)]
struct Nested(String, io::Error);

impl std::fmt::Display for Nested {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Nested {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

/// Everything an I/O error tells.
#[allow(clippy::type_complexity)]
fn inside(
    e: &io::Error,
) -> (io::ErrorKind, Option<i32>, Option<(String, bool, bool)>, usize) {
    let inner = e.get_ref().map(|i| {
        (format!("{i} {i:?}"), i.is::<Error>(), i.is::<Nested>() || i.is::<DecodeError>())
    });
    let mut depth = 0;
    let mut s = e.source();
    while let Some(x) = s {
        depth += 1;
        s = x.source();
    }
    (e.kind(), e.raw_os_error(), inner, depth)
}

fn e01_io(cx: &mut Cx) -> Check {
    use io::ErrorKind::*;
    let kinds = [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset,
        ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData,
        TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof,
        OutOfMemory, Other,
    ];
    let text = cause(cx);
    let mk = cx.rng.below(12);
    let code = cx.rng.below(1 << 16) as u16;
    let found = u31(cx);
    let kind = *cx.rng.pick(&kinds);
    let os = 1 + cx.rng.below(120) as i32;
    let make = || match mk {
        0 => io::Error::new(kind, text.clone()),
        1 => io::Error::from(kind),
        // Errors travel inside I/O errors, too.
        3 => io::Error::new(kind, DecodeError::InComplete.to_string()),
        4 => io::Error::new(kind, Error::from(DecodeError::InComplete)),
        5 => io::Error::new(kind, Error::from(io::Error::new(kind, text.clone()))),
        6 => io::Error::new(kind, Nested(text.clone(), io::Error::from(kind))),
        7 => io::Error::new(kind, DecodeError::InComplete),
        8 => io::Error::new(kind, DecodeError::UnrecognizedFrameType(code)),
        9 => io::Error::new(kind, DecodeError::InvalidStreamId { expected: "0", found }),
        10 => io::Error::new(kind, io::Error::new(Other, DecodeError::InComplete)),
        11 => io::Error::new(kind, String::from_utf8(vec![b'x', 0xff]).unwrap_err()),
        _ => io::Error::from_raw_os_error(os),
    };
    let orig = make();
    cx.obs.count("I/O errors", 1);
    cx.obs.seen(mix(fnv(orig.to_string().as_bytes()) ^ mk as u64));
    let e = subj(|| Error::from(make()))?;
    let what = format!("error from {orig:?}");
    expect_answers(&e, &what, |_| false)?;
    let (shown, _) = texts(&e)?;
    let tail = format!(": {orig}");
    let head = shown.strip_suffix(&tail).unwrap_or("");
    let lower = head.to_lowercase();
    ensure!(
        lower.contains("i/o") || lower.contains("io"),
        "{what}: printed as '{shown}', expected category and '{orig}'"
    );
    let got = subj(|| {
        e.source().map(|s| {
            (
                s.to_string(),
                s.downcast_ref::<io::Error>().map(inside),
            )
        })
    })?;
    let want = Some((orig.to_string(), Some(inside(&orig))));
    ensure!(got == want, "{what}: source is {got:?}, expected {want:?}");
    cx.sample(|| format!("{orig:?} -> '{shown}'"));
    Ok(())
}

/// Arbitrary cause text.
fn cause(cx: &mut Cx) -> String {
    match cx.rng.below(8) {
        0 => CAUSES[1 + cx.rng.below(CAUSES.len() - 1)].unwrap().into(),
        1 if !cx.dict.strs.is_empty() => {
            let s = cx.rng.pick(&cx.dict.strs).clone();
            String::from_utf8_lossy(&s).into_owned()
        }
        2 => {
            let n = len(cx, 5000);
            String::from_utf8_lossy(&content(cx, n)).into_owned()
        }
        3 | 4 => ascii(cx, 300),
        _ => String::from_utf8_lossy(&textish(cx)).into_owned(),
    }
}

#[cfg(feature = "h-error")]
mod hooks {
    use super::*;

    fn check(cx: &mut Cx, k: usize, cause: Option<String>) -> Check {
        let (code, name, v) = CODES[k];
        cx.obs.count("protocol errors", 1);
        cx.obs.seen(mix(
            k as u64 ^ mix(cause.as_ref().map_or(1, |c| fnv(c.as_bytes()))),
        ));
        let e = subj(|| crate::hooks::protocol(code, cause.clone()).unwrap())?;
        let what = format!("{name} with cause {cause:?}");
        let own = [
            "is_invalid_setup", "is_unsupported_setup", "is_rejected_setup",
            "is_rejected_resume", "is_connection_error",
            "is_connection_close", "is_application_error", "is_rejected",
            "is_cancel", "is_invalid",
        ][k];
        expect_answers(&e, &what, |n| {
            n == own || n == "is_protocol" || n == "is_setup" && k < 3
        })?;
        let (shown, debug) = texts(&e)?;
        let mut want = format!("{name} (0x{v:08X})");
        if let Some(c) = &cause {
            want += &format!(": {c}");
        }
        ensure!(shown == want, "{what}: printed as '{shown}', not '{want}'");
        ensure!(!debug.is_empty(), "{what}: empty debug text");
        let src = subj(|| e.source().map(|s| s.to_string()))?;
        ensure!(src == cause, "{what}: source is {src:?}");
        // The error travels through boxes and threads like any other.
        let boxed: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
        let again = subj(|| boxed.to_string())?;
        ensure!(again == want, "{what}: printed as '{again}' when boxed");
        cx.sample(|| format!("'{shown}' is {own}"));
        Ok(())
    }

    pub fn e01_protocol_sweep(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let c = CAUSES[i / CODES.len()].map(String::from);
        check(cx, i % CODES.len(), c)
    }

    pub fn e01_protocol(cx: &mut Cx) -> Check {
        let k = cx.rng.below(CODES.len());
        let c = if cx.rng.chance(1, 10) { None } else { Some(cause(cx)) };
        check(cx, k, c)
    }
}

// -------------------------------------------------------------------- M01

/// The registered names (well-known MIME types of the RSocket extensions and
/// the IANA registry), independent of the code under test.
#[rustfmt::skip]
const TABLE: &[(W, &str)] = &[
    (W::APPLICATION_AVRO, "application/avro"),
    (W::APPLICATION_CBOR, "application/cbor"),
    (W::APPLICATION_GRAPHQL, "application/graphql"),
    (W::APPLICATION_GZIP, "application/gzip"),
    (W::APPLICATION_JAVASCRIPT, "application/javascript"),
    (W::APPLICATION_JSON, "application/json"),
    (W::APPLICATION_OCTET_STREAM, "application/octet-stream"),
    (W::APPLICATION_PDF, "application/pdf"),
    (W::APPLICATION_VND_APACHE_THRIFT_BINARY, "application/vnd.apache.thrift.binary"),
    (W::APPLICATION_VND_GOOGLE_PROTOBUF, "application/vnd.google.protobuf"),
    (W::APPLICATION_XML, "application/xml"),
    (W::APPLICATION_ZIP, "application/zip"),
    (W::AUDIO_AAC, "audio/aac"),
    (W::AUDIO_MP3, "audio/mp3"),
    (W::AUDIO_MP4, "audio/mp4"),
    (W::AUDIO_MPEG3, "audio/mpeg3"),
    (W::AUDIO_MPEG, "audio/mpeg"),
    (W::AUDIO_OGG, "audio/ogg"),
    (W::AUDIO_OPUS, "audio/opus"),
    (W::AUDIO_VORBIS, "audio/vorbis"),
    (W::IMAGE_BMP, "image/bmp"),
    (W::IMAGE_GIF, "image/gif"),
    (W::IMAGE_HEIC_SEQUENCE, "image/heic-sequence"),
    (W::IMAGE_HEIC, "image/heic"),
    (W::IMAGE_HEIF_SEQUENCE, "image/heif-sequence"),
    (W::IMAGE_HEIF, "image/heif"),
    (W::IMAGE_JPEG, "image/jpeg"),
    (W::IMAGE_PNG, "image/png"),
    (W::IMAGE_TIFF, "image/tiff"),
    (W::MULTIPART_MIXED, "multipart/mixed"),
    (W::TEXT_CSS, "text/css"),
    (W::TEXT_CSV, "text/csv"),
    (W::TEXT_HTML, "text/html"),
    (W::TEXT_PLAIN, "text/plain"),
    (W::TEXT_XML, "text/xml"),
    (W::VIDEO_H264, "video/H264"),
    (W::VIDEO_H265, "video/H265"),
    (W::VIDEO_VP8, "video/VP8"),
    (W::APPLICATION_X_HESSIAN, "application/x-hessian"),
    (W::APPLICATION_X_JAVA_OBJECT, "application/x-java-object"),
    (W::APPLICATION_CLOUDEVENTS_JSON, "application/cloudevents+json"),
    (W::MESSAGE_X_RSOCKET_MIME_TYPE_V0, "message/x.rsocket.mime-type.v0"),
    (W::MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0, "message/x.rsocket.accept-mime-types.v0"),
    (W::MESSAGE_X_RSOCKET_AUTHENTICATION_V0, "message/x.rsocket.authentication.v0"),
    (W::MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0, "message/x.rsocket.tracing-zipkin.v0"),
    (W::MESSAGE_X_RSOCKET_ROUTING_V0, "message/x.rsocket.routing.v0"),
    (W::MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0, "message/x.rsocket.composite-metadata.v0"),
];

fn name(t: W) -> &'static str {
    t.into()
}

fn m01_table(cx: &mut Cx) -> Check {
    let n = TABLE.len() as u64;
    let (t, s) = TABLE[(cx.idx / n) as usize];
    let (u, r) = TABLE[(cx.idx % n) as usize];
    cx.obs.count("type/name pairs", 1);
    if cx.idx % n == 0 {
        m01_text("")?;
        m01_text(DEFAULT_MIMETYPE)?;
        let got = subj(|| name(W::UNPARSEABLE))?;
        ensure!(got.is_empty(), "UNPARSEABLE converts to '{got}'");
    }
    cx.obs.seen(mix(cx.idx));
    let got = subj(|| name(t))?;
    ensure!(got == s, "{t:?} converts to '{got}', not '{s}'");
    let back = subj(|| W::from(got))?;
    ensure!(back == t, "'{got}' converts to {back:?}, not {t:?}");
    let other = subj(|| name(u))?;
    ensure!(
        (got == other) == (cx.idx / n == cx.idx % n),
        "{t:?} and {u:?} convert to '{got}' and '{other}'"
    );
    ensure!((t == u) == (s == r), "{t:?} == {u:?} is {}", t == u);
    Ok(())
}

/// The type of any string.
fn m01_text(s: &str) -> Check {
    let want = TABLE
        .iter()
        .find(|x| x.1 == s)
        .map_or(W::UNPARSEABLE, |x| x.0);
    let got = subj(|| W::from(s))?;
    ensure!(got == want, "{s:?} converts to {got:?}, not {want:?}");
    let back = subj(|| name(got))?;
    let text = if want == W::UNPARSEABLE { "" } else { s };
    ensure!(back == text, "{got:?} converts to '{back}', not '{text}'");
    Ok(())
}

fn edit(cx: &mut Cx, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let any = |cx: &mut Cx| match cx.rng.below(6) {
        0 => *cx.rng.pick(&['/', '.', '-', '+', ' ', ';', '*', '\0', 'é']),
        1 => (b'0' + cx.rng.below(10) as u8) as char,
        2 => (b'A' + cx.rng.below(26) as u8) as char,
        _ => (b'a' + cx.rng.below(26) as u8) as char,
    };
    let at = if c.is_empty() { 0 } else { cx.rng.below(c.len()) };
    match cx.rng.below(16) {
        0 => return s.to_uppercase(),
        1 => return s.to_lowercase(),
        2 => return format!("{s} "),
        3 => return format!(" {s}"),
        4 => return format!("{s}; charset=utf-8"),
        5 => return format!("{s};"),
        6 => return s.replace('/', "/x-"),
        7 => return s.replace("x-", "").replace("x.", ""),
        8 => {
            let (_, t) = TABLE[cx.rng.below(TABLE.len())];
            let a = s.split('/').next().unwrap_or("");
            let b = t.split('/').nth(1).unwrap_or("");
            return format!("{a}/{b}");
        }
        9 => c.truncate(at),
        10 => {
            if c.len() > 1 {
                let b = cx.rng.below(c.len());
                c.swap(at, b);
            }
        }
        11 if !c.is_empty() => {
            c.remove(at);
        }
        12 | 13 => {
            let x = any(cx);
            c.insert(at, x);
        }
        14 if !c.is_empty() => {
            let x = c[at];
            c[at] = if x.is_lowercase() {
                x.to_ascii_uppercase()
            } else {
                x.to_ascii_lowercase()
            };
        }
        _ if !c.is_empty() => c[at] = any(cx),
        _ => {}
    }
    c.into_iter().collect()
}

/// Every name with one ASCII character inserted or replaced.
fn m01_edits(cx: &mut Cx) -> Check {
    let c = (cx.idx % 128) as u8 as char;
    let k = (cx.idx / 128 % 100) as usize;
    let (_, s) = TABLE[(cx.idx / 12_800) as usize];
    let text = if k <= s.len() {
        format!("{}{c}{}", &s[..k], &s[k..])
    } else if k - s.len() <= s.len() {
        let k = k - s.len() - 1;
        format!("{}{c}{}", &s[..k], &s[k + 1..])
    } else {
        // The name, padded to another length.
        let n = (k - 2 * s.len()) * 64;
        format!("{s:c$}", c = n + c as usize)
    };
    cx.obs.count("single edits", 1);
    cx.obs.seen(1 << 40 | cx.idx);
    m01_text(&text)
}

/// Names with characters that some conversion turns into the right one, and
/// the right characters in another order.
fn look_alikes() -> &'static [String] {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        if cfg!(miri) {
            // Too slow there, and not the point.
            return vec!["text/Plain".into()];
        }
        let special: Vec<char> = ('\u{80}'..=char::MAX)
            .filter(|c| {
                c.to_lowercase().chain(c.to_uppercase()).any(|x| x.is_ascii())
            })
            .collect();
        for (_, s) in TABLE {
            let cs: Vec<char> = s.chars().collect();
            for (i, c) in cs.iter().enumerate() {
                let mut swap = |r: &str| {
                    let (a, b) = (&cs[..i], &cs[i + 1..]);
                    let a: String = a.iter().collect();
                    let b: String = b.iter().collect();
                    v.push(format!("{a}{r}{b}"));
                };
                for x in &special {
                    swap(&x.to_string());
                }
                // Wide forms, and characters with the same low byte or bits.
                let n = *c as u32;
                for x in [0xFEE0 + n, 0x80 + n, 0x1F100 + n, 0x1D400 - 0x41 + n]
                    .into_iter()
                    .chain((1..64).map(|h| h << 8 | n))
                    .chain((1..17).map(|h| h << 16 | n))
                    .filter_map(char::from_u32)
                {
                    swap(&x.to_string());
                }
                // Combining and invisible characters behind it.
                for x in ['\u{301}', '\u{307}', '\u{200B}', '\u{200D}', '\u{AD}', '\u{FEFF}', '\u{FE0F}'] {
                    swap(&format!("{c}{x}"));
                }
                // Escaped forms.
                swap(&format!("%{n:02x}"));
                swap(&format!("%{n:02X}"));
                swap(&format!("\\{c}"));
                swap(&format!("&#{n};"));
                for j in i + 1..cs.len() {
                    let mut o = cs.clone();
                    o.swap(i, j);
                    v.push(o.iter().collect());
                }
            }
            v.push(s.to_uppercase());
            v.push(cs.iter().rev().collect());
            v.push(cs.iter().filter_map(|c| char::from_u32(0xFEE0 + *c as u32)).collect());
            for (a, b) in [("", " "), (" ", ""), ("\u{FEFF}", ""), ("\"", "\""), ("<", ">"), ("'", "'"),
                ("", "/"), ("", ";"), ("", "; charset=utf-8"), ("", ";q=1"), ("", ","), ("", "\r\n"),
                ("mime:", ""), ("type/", ""), ("", "+json"), ("", "+xml"), ("", ".v0"), ("x-", "")] {
                v.push(format!("{a}{s}{b}"));
            }
            if let Some((a, b)) = s.split_once('/') {
                for (x, y) in [(a, "*"), ("*", b), (b, a), (a, a), (b, b)] {
                    v.push(format!("{x}/{y}"));
                }
                for y in ["x-", "X-", "vnd.", "x.", "prs."] {
                    v.push(format!("{a}/{y}{b}"));
                }
                v.push(format!("{a}//{b}"));
                v.push(format!("{a} / {b}"));
                v.push(format!("{a}\\{b}"));
                v.push(format!("{a}-{b}"));
                v.push(format!("{a}{b}"));
                // Types and subtypes of different names.
                for (_, t) in TABLE {
                    if let Some((c, d)) = t.split_once('/') {
                        v.push(format!("{a}/{d}"));
                        v.push(format!("{c}/{b}"));
                        v.push(format!("{s}{t}"));
                        v.push(format!("{s},{t}"));
                        v.push(format!("{a}/{b}+{d}"));
                    }
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    })
}

/// As many different strings of a name's length as there is time for, should
/// names be told apart by less than all of their characters.
fn m01_collisions(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let threads = cx.threads.max(1);
    let seed = cx.rng.u64();
    let progress = cx.progress;
    let total = AtomicU64::new(0);
    team(threads, 1, |t, _| {
        let mut rng = Rng::new(mix(seed ^ t as u64));
        let digits = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.";
        subj(|| -> Check {
            while Instant::now() < end {
                for _ in 0..20_000 {
                    let name = rng.pick(TABLE).1.as_bytes();
                    let mut b = [0u8; 64];
                    let n = name.len();
                    b[..n].copy_from_slice(name);
                    let x = rng.u64();
                    match x % 5 {
                        // Its own characters in another order.
                        0 => {
                            for k in 0..1 + (x >> 8) % 5 {
                                let i = (x >> (16 + 4 * k)) as usize % n;
                                let j = (x >> (36 + 4 * k)) as usize % n;
                                b.swap(i, j);
                            }
                        }
                        // With the same sum.
                        1 => {
                            for k in 0..1 + (x >> 8) % 3 {
                                let i = (x >> (16 + 7 * k)) as usize % n;
                                let j = (x >> (37 + 7 * k)) as usize % n;
                                let d = 1 + (x >> 10) as u8 % 12;
                                if i != j && b[i] + d < 0x7F && b[j] > b' ' + d {
                                    b[i] += d;
                                    b[j] -= d;
                                }
                            }
                        }
                        // Two neighbours.
                        2 => {
                            let i = (x >> 16) as usize % (n - 1);
                            b[i] = b' ' + ((x >> 32) % 95) as u8;
                            b[i + 1] = b' ' + ((x >> 40) % 95) as u8;
                        }
                        _ => {
                            let w = 8.min(n);
                            let at = (x >> 56) as usize % (n - w + 1);
                            for (k, c) in b[at..at + w].iter_mut().enumerate() {
                                *c = digits[(x >> (6 * k + 4)) as usize % 64];
                            }
                        }
                    }
                    let s = std::str::from_utf8(&b[..n]).unwrap();
                    if W::from(s) != W::UNPARSEABLE {
                        m01_text(s)?;
                    }
                }
                total.fetch_add(20_000, Ordering::Relaxed);
                progress.fetch_add(1, Ordering::Relaxed);
            }
            Ok(())
        })?
    })?;
    let n = total.into_inner();
    cx.obs.evals += n / 1000;
    cx.obs.count("strings_of_names'_lengths", n);
    cx.obs.seen(seed);
    Ok(())
}

fn m01_look_alikes(cx: &mut Cx) -> Check {
    cx.obs.count("look-alikes", 1);
    cx.obs.seen(1 << 41 | cx.idx);
    m01_text(&look_alikes()[cx.idx as usize])
}

fn m01_neighbours(cx: &mut Cx) -> Check {
    let n = TABLE.len() as u64;
    let (_, s) = TABLE[(cx.idx % n) as usize];
    let k = (cx.idx / n) as usize;
    let b = s.as_bytes();
    // Systematic first, then random.
    let text = if k < b.len() {
        // Without the k-th byte.
        let mut v = b.to_vec();
        v.remove(k);
        String::from_utf8(v).unwrap()
    } else if k < 2 * b.len() {
        let mut v = b.to_vec();
        v[k - b.len()] ^= 0x20;
        String::from_utf8_lossy(&v).into_owned()
    } else if k < 3 * b.len() {
        s[..k - 2 * b.len()].to_string()
    } else if k < 4 * b.len() {
        s[k - 3 * b.len()..].to_string()
    } else {
        edit(cx, s)
    };
    cx.obs.count("near misses", 1);
    cx.obs.seen(fnv(text.as_bytes()));
    m01_text(&text)
}

/// Common names of types that are not well-known, and old names.
const OTHERS: &[&str] = &[
    "*/*", "application/*", "application/binary", "application/protobuf",
    "application/x-protobuf", "application/x-json", "application/x-binary",
    "application/x-www-form-urlencoded", "application/x-gzip",
    "application/x-javascript", "application/x-zip-compressed",
    "application/x-cbor", "application/x.cbor", "application/yaml",
    "application/msgpack", "application/thrift", "application/hessian",
    "application/cloudevents", "application/json; charset=utf-8",
    "application/octetstream", "application/x-octet-stream",
    "application/xhtml+xml", "audio/mp2", "audio/wav", "audio/webm",
    "audio/x-aac", "audio/x-mpeg", "audio/x-mpeg3", "audio/x-mp3",
    "image/jpg", "image/pjpeg", "image/tif", "image/svg+xml", "image/webp",
    "image/x-bmp", "image/avif", "message/http", "message/rfc822",
    "message/x.rsocket.accept-time-types.v0",
    "message/x.rsocket.accept-mime-type.v0",
    "message/x.rsocket.mime-types.v0",
    "message/x.rsocket.composite-metadata.v1",
    "message/x.rsocket.routing.v1", "message/x.rsocket.routing",
    "message/x.rsocket.tracing.v0", "multipart/form-data", "text/*",
    "text", "text/javascript", "text/json", "text/yaml", "text/x-csv",
    "text/markdown", "video/h264", "video/h265", "video/vp8", "video/VP9",
    "video/mp4", "video/H266", "unparseable", "UNPARSEABLE", "null", "none",
];

fn m01_strings(cx: &mut Cx) -> Check {
    let mut s = match cx.rng.below(8) {
        0 => OTHERS[cx.rng.below(OTHERS.len())].to_string(),
        1 | 2 => TABLE[cx.rng.below(TABLE.len())].1.to_string(),
        3 | 4 if !cx.dict.strs.is_empty() => {
            // Strings the code compares with, and words of inlined
            // comparisons.
            let b = cx.rng.pick(&cx.dict.strs).clone();
            String::from_utf8_lossy(&b).into_owned()
        }
        5 => {
            let mut s = String::new();
            for _ in 0..cx.rng.below(4) {
                let (_, t) = TABLE[cx.rng.below(TABLE.len())];
                let mut p = t.split(['/', '.', '-']);
                let n = cx.rng.below(3);
                s += p.nth(n).unwrap_or(t);
                s += *cx.rng.pick(&["/", ".", "-", ""]);
            }
            s
        }
        6 => ascii(cx, 300),
        _ => String::from_utf8_lossy(&textish(cx)).into_owned(),
    };
    for _ in 0..cx.rng.below(3) {
        s = edit(cx, &s);
    }
    cx.obs.count("strings", 1);
    if TABLE.iter().any(|x| x.1 == s) {
        cx.obs.count("registered names", 1);
    }
    cx.obs.seen(fnv(s.as_bytes()));
    cx.sample(|| format!("{s:?} -> {:?}", W::from(&*s)));
    m01_text(&s)
}
