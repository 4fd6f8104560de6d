//! C01-C14: the frame codec.
use crate::bufs::*;
use crate::gen::*;
use crate::kit::*;
use crate::model::*;
use binate::frame::codec::*;
use binate::frame::{
    Decode, DecodeError, Encode, Flags, Frame, FrameType, Version, U24,
};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::collections::VecDeque;

pub fn workloads(prop: &str) -> Vec<Workload> {
    let n = sweep_len(false);
    let t = sweep_len(true);
    match prop {
        "C01" => vec![
            sweep("roundtrip-sweep", n, t, c01_sweep),
            random("roundtrip", 4, c01),
            random("roundtrip-raw-setup", 1, c01_setup_options),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c01_large),
        ],
        "C02" => vec![
            sweep("layout-sweep", n, t, c02_sweep),
            random("layout", 1, c02),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c02_large),
        ],
        "C03" => vec![
            sweep("wire-sweep", n, t, c03_sweep),
            random("wire", 5, c03),
            random("wire-direct", 1, c03_direct),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c03_large),
            sweep("beyond-32-bits", crate::p_giant::FRAMES, crate::p_giant::FRAMES, crate::p_giant::decoded),
            sweep("mime-chars", CHARS, CHARS, c03_mime_chars),
        ],
        "C04" => vec![
            sweep("header-sweep", 65_536, 65_536, c04_headers),
            random("arbitrary", 3, c04_random),
            random("mutated", 4, c04_mutated),
            random("spliced", 1, c04_spliced),
            sweep("repeated", 64 * 8 * 4, 64 * 32 * 6, c04_repeated),
            sweep("large", LARGE_FRAMES / 4, LARGE_FRAMES, c04_large),
            sweep("beyond-32-bits", crate::p_giant::FULL, crate::p_giant::FULL, crate::p_giant::filled),
        ],
        "C05" => vec![
            sweep("cut-sweep", 4_000, 40_000, c05_sweep),
            random("cut", 3, c05),
            random("inflated", 2, c05_inflated),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c05_large),
            sweep("beyond-32-bits", crate::p_giant::FULL, crate::p_giant::FULL, crate::p_giant::filled),
        ],
        "C06" => vec![
            sweep("types-x-streams", 64 * 96, 64 * 96, c06_types),
            sweep("codes-x-streams", 0x500 * 8, 0x500 * 8, c06_codes),
            random("rejections", 1, c06_random),
        ],
        "C07" => vec![
            sweep("length-sweep", n, t, c07_sweep),
            random("length", 4, c07),
            random("length-values", 2, c07_values),
            random("length-decoded", 1, c07_decoded),
            sweep("long-tokens", 60, 200, c07_tokens),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c07_large),
            sweep("beyond-32-bits", crate::p_giant::FRAMES, crate::p_giant::FRAMES, crate::p_giant::announced),
        ],
        "C08" => vec![
            sweep("splits", 6_000, 60_000, c08_sweep),
            random("segmentation", 4, c08),
            random("segmentation-garbage", 1, c08_garbage),
            random("reuse", 2, c08_reuse),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c08_large),
            sweep("beyond-32-bits", crate::p_giant::FULL, crate::p_giant::FULL, crate::p_giant::filled),
        ],
        "C09" => vec![
            sweep("relay-sweep", n, t, c09_sweep),
            random("relay", 3, c09),
            random("relay-garbage", 2, c09_garbage),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c09_large),
        ],
        "C10" => vec![
            sweep("declared-lengths", 6_000, 60_000, c10_sweep),
            random("memory", 2, c10),
            random("memory-inflated", 2, c10_inflated),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c10_large),
        ],
        "C11" => vec![
            sweep("u16-tables", 65_536, 65_536, c11_u16),
            sweep("u24-all", 4096, 4096, c11_u24),
            sweep("u24-reject", 4096, 65_536, c11_u24_reject),
            random("versions", 1, c11_versions),
        ],
        "C12" => vec![
            sweep("refusals", 1400, 1400, c12_refusals),
            sweep("mime-lengths", 256 * 4, 256 * 4, c12_mime_lengths),
            random("builder", 4, c12),
            random("builder-order", 2, c12_order),
            sweep("mime-chars", CHARS, CHARS, c12_mime_chars),
        ],
        "C13" => vec![
            sweep("range-sweep", 64 * 16 * 4, 64 * 16 * 4, c13_sweep),
            random("range", 1, c13),
        ],
        "C14" => vec![
            sweep("accessor-sweep", n, t, c14_sweep),
            random("accessors", 4, c14),
            random("accessors-utf8", 1, c14_utf8),
            sweep("accessors-chars", CHARS, CHARS, c14_chars),
            sweep("large", LARGE_FRAMES, LARGE_FRAMES, c14_large),
            sweep("beyond-32-bits", crate::p_giant::FRAMES, crate::p_giant::FRAMES, crate::p_giant::constructed),
        ],
        _ => vec![],
    }
}

// ----------------------------------------------------------- sweep of frames

/// Bytes without a period.
pub fn pattern(n: usize, k: u8) -> Bytes {
    static MASTER: std::sync::OnceLock<Bytes> = std::sync::OnceLock::new();
    let m = MASTER.get_or_init(|| {
        let n = if cfg!(miri) { 4096 } else { MAX24 + 4096 };
        let f = |i: u32| ((i ^ i >> 15).wrapping_mul(0x9E37_79B1) >> 24) as u8;
        (0..n as u32).map(f).collect::<Vec<u8>>().into()
    });
    m.slice(k as usize..k as usize + n)
}

const LARGE: [usize; 20] = [
    65_535,
    65_536,
    65_537,
    131_071,
    131_072,
    131_073,
    262_144,
    1 << 20,
    (1 << 20) + 1,
    0x3F_FFFF,
    0x40_0000,
    0x7F_FFFF,
    0x80_0000,
    0x80_0001,
    0xFE_FFFF,
    0xFF_0000,
    0xFF_0001,
    0xFF_FF00,
    0xFF_FFFE,
    0xFF_FFFF,
];

const LARGE_FRAMES: u64 = 20 * 16;

/// Frames with long metadata or data.
fn large_frame(i: u64) -> M {
    let n = LARGE[(i / 16) as usize];
    let k = (i % 8) as usize;
    if i / 8 % 2 == 0 {
        let mut m = base(META_TYPES[k]);
        m.meta = Some(pattern(n, 3));
        if m.ty != Ty::MetadataPush && m.ty != Ty::Lease {
            m.data = [None, Some(pattern(1, 9)), Some(pattern(70_000, 77))]
                [n % 3]
                .clone();
        }
        m
    } else {
        let mut m = base(DATA_TYPES[k]);
        // Data has no length field.
        m.data = Some(pattern(n + (i / 16 % 2) as usize * 2, 5));
        if m.ty != Ty::Keepalive && m.ty != Ty::Error {
            m.meta = [Some(pattern(4, 9)), None, Some(pattern(66_000, 11))]
                [n % 3]
                .clone();
        }
        m
    }
}

const META_TYPES: [Ty; 8] = [
    Ty::Setup,
    Ty::Response,
    Ty::Fnf,
    Ty::Stream,
    Ty::Channel,
    Ty::Payload,
    Ty::Lease,
    Ty::MetadataPush,
];
const DATA_TYPES: [Ty; 8] = [
    Ty::Setup,
    Ty::Response,
    Ty::Fnf,
    Ty::Stream,
    Ty::Channel,
    Ty::Payload,
    Ty::Keepalive,
    Ty::Error,
];

fn base(ty: Ty) -> M {
    let mut m = M::blank(ty);
    if !ty.on_zero() {
        m.sid = 0x0102_0305;
    }
    match ty {
        Ty::Setup => {
            m.a = 30_000;
            m.b = 60_000;
            m.mmime = Bytes::from("application/binary");
            m.dmime = Bytes::from("text/plain");
        }
        Ty::Error => m.code = 0x201,
        Ty::Stream | Ty::Channel | Ty::RequestN => m.a = 7,
        Ty::MetadataPush => m.meta = Some(Bytes::new()),
        Ty::Resume => m.token = Some(Bytes::from("token")),
        _ => {}
    }
    m
}

const SA: u64 = 8 * 2049;
const SB: u64 = 8 * 1025;
const SC: u64 = 2 * 256;
const SD: u64 = 2 * (1025 + 136);
const SE: u64 = 14 * 64 * 9;
const SF: u64 = 14 * 3 * 192;
const SG: u64 = 0x440 * 2;
// thorough only
const SH: u64 = 8 * 33_000;
const SI: u64 = 2 * 65_536;

pub fn sweep_len(thorough: bool) -> u64 {
    let n = SA + SB + SC + SD + SE + SF + SG;
    if thorough {
        n + SH + SI
    } else {
        n
    }
}

fn edge(i: u64) -> u64 {
    match i {
        0..=63 => 1 << i,
        64..=127 => (1u64 << (i - 64)).wrapping_sub(1),
        128..=159 => !(1u64 << (i - 128)),
        _ => {
            let e = [
                0x0102_0304u64,
                0x7F80_7F80,
                0x00FF_00FF,
                0x0102_0304_0506_0708,
                0x7FFF_FFFE,
                0x7FFF_FFFF,
                0x7FFF_FFFF_FFFF_FFFE,
                0x7FFF_FFFF_FFFF_FFFF,
                0x1234_5678,
                0x5555_5555,
                0x2AAA_AAAA,
                1000,
                1001,
                30_000,
                60_000,
                90_000,
                u64::MAX,
                u32::MAX as u64,
            ];
            e[(i - 160) as usize % e.len()]
        }
    }
}

/// Element `i` of the systematic space of valid frames.
pub fn sweep_frame(mut i: u64) -> M {
    if i < SA {
        let mut m = base(META_TYPES[(i % 8) as usize]);
        let n = (i / 8) as usize;
        m.meta = Some(pattern(n, 3));
        if m.ty != Ty::MetadataPush && m.ty != Ty::Lease {
            m.data = [None, Some(pattern(1, 9)), Some(pattern(5, 77))]
                [n % 3]
                .clone();
        }
        return m;
    }
    i -= SA;
    if i < SB {
        let mut m = base(DATA_TYPES[(i % 8) as usize]);
        let n = (i / 8) as usize;
        m.data = Some(pattern(n, 5));
        if m.ty != Ty::Keepalive && m.ty != Ty::Error {
            m.meta = [None, Some(Bytes::new()), Some(pattern(4, 9))][n % 3]
                .clone();
        }
        return m;
    }
    i -= SB;
    if i < SC {
        let mut m = base(Ty::Setup);
        let s = Bytes::from(vec![b'm'; (i / 2) as usize]);
        if i % 2 == 0 {
            m.mmime = s
        } else {
            m.dmime = s
        }
        m.data = Some(pattern(3, 0));
        return m;
    }
    i -= SC;
    if i < SD {
        let n = (i / 2) as usize;
        let n = if n <= 1024 { n } else { 65_400 + n - 1025 };
        return token_frame(i % 2 == 0, n);
    }
    i -= SD;
    if i < SE {
        let ty = TYPES[(i % 14) as usize];
        let k = i / 14;
        let mut m = base(ty);
        m.follows = k & 1 != 0;
        m.complete = k & 2 != 0;
        m.next = k & 4 != 0;
        m.respond = k & 8 != 0;
        m.lease = k & 16 != 0;
        m.resume = k & 32 != 0 && ty == Ty::Setup;
        let k = k / 64;
        let part = |k: u64| {
            [None, Some(Bytes::new()), Some(pattern(6, 1))][k as usize % 3]
                .clone()
        };
        if META_TYPES.contains(&ty) {
            m.meta = part(k);
        }
        if DATA_TYPES.contains(&ty) {
            m.data = part(k / 3);
        }
        if ty == Ty::MetadataPush && m.meta.is_none() {
            m.meta = Some(Bytes::new());
        }
        m = clean_flags(m);
        return m;
    }
    i -= SE;
    if i < SF {
        let ty = TYPES[(i % 14) as usize];
        let field = i / 14 % 3;
        let v = edge(i / 42);
        let mut m = base(ty);
        let wide = matches!(ty, Ty::Keepalive | Ty::Resume | Ty::ResumeOk);
        let mask = if wide { MAX63 } else { MAX31 as u64 };
        let nz = |v: u64| if v == 0 { 1 } else { v };
        match field {
            0 if !ty.on_zero() => m.sid = nz(v & MAX31 as u64) as u32,
            1 => match ty {
                Ty::Error => {
                    m.code = v as u32;
                    if CONN_CODES.contains(&m.code) {
                        m.sid = 0;
                    }
                }
                Ty::Setup
                | Ty::Lease
                | Ty::Keepalive
                | Ty::Resume
                | Ty::ResumeOk => m.a = v & mask,
                Ty::Stream | Ty::Channel | Ty::RequestN => {
                    m.a = nz(v & mask)
                }
                _ => {}
            },
            _ => match ty {
                Ty::Setup | Ty::Lease | Ty::Resume => {
                    m.b = v & mask;
                    m.major = v as u16;
                    m.minor = (v >> 16) as u16 ^ 0x0102;
                    if ty == Ty::Lease {
                        m.major = 1;
                        m.minor = 0;
                    }
                }
                _ => {}
            },
        }
        return m;
    }
    i -= SF;
    if i < SG {
        let mut m = base(Ty::Error);
        let c = i / 2;
        m.code =
            if c < 0x410 { c as u32 } else { u32::MAX - (c - 0x410) as u32 };
        m.sid = (i % 2) as u32 * 5;
        if CONN_CODES.contains(&m.code) {
            m.sid = 0;
        }
        if STREAM_CODES.contains(&m.code) && m.sid == 0 {
            m.sid = 9;
        }
        m.data = Some(pattern(c as usize % 4, 1));
        return m;
    }
    i -= SG;
    if i < SH {
        let mut m = base(META_TYPES[(i % 8) as usize]);
        m.meta = Some(pattern(2049 + 2 * (i / 8) as usize, 3));
        if m.ty != Ty::MetadataPush && m.ty != Ty::Lease {
            m.data = Some(pattern(2, 9));
        }
        return m;
    }
    i -= SH;
    token_frame(i % 2 == 0, (i / 2) as usize)
}

fn token_frame(setup: bool, n: usize) -> M {
    let mut m = base(if setup { Ty::Setup } else { Ty::Resume });
    m.resume = setup;
    m.token = Some(pattern(n, 11));
    if setup {
        m.data = Some(pattern(3, 0));
    } else {
        m.a = 0x0102_0304_0506_0708;
        m.b = 0x1112_1314_1516_1718;
    }
    m
}

/// Clears the flags the type does not have (they are model noise).
fn clean_flags(mut m: M) -> M {
    let ty = m.ty;
    m.follows &= BOTH.contains(&ty) && ty != Ty::Setup;
    m.complete &= matches!(ty, Ty::Channel | Ty::Payload);
    m.next &= ty == Ty::Payload;
    m.respond &= ty == Ty::Keepalive;
    m.lease &= ty == Ty::Setup;
    m
}

// ------------------------------------------------------------------ helpers

fn mk(m: &M) -> Result<Frame, String> {
    subj(|| build(m)).map_err(|e| format!("constructing the frame: {e}"))
}

fn enc(f: &Frame) -> Result<Bytes, String> {
    subj(|| {
        let mut b = BytesMut::new();
        f.encode(&mut b);
        b.freeze()
    })
    .map_err(|e| format!("encoding: {e}"))
}

type Dec = Result<Frame, DecodeError>;

fn dec(b: &[u8]) -> Result<Dec, String> {
    subj(|| {
        let mut s = Bytes::copy_from_slice(b);
        Frame::decode(&mut s)
    })
    .map_err(|e| format!("decoding {}: {e}", short(b)))
}

fn dec_ok(b: &[u8]) -> Result<Frame, String> {
    match dec(b)? {
        Ok(f) => Ok(f),
        Err(e) => {
            Err(format!("decoding failed with {e:?} for {}", short(b)))
        }
    }
}

fn ctx<T>(m: &M, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|e| format!("{e} [{}]", m.describe()))
}

/// First position where two byte strings differ.
fn diff(a: &[u8], b: &[u8]) -> String {
    let p = a.iter().zip(b).position(|(x, y)| x != y);
    let p = p.unwrap_or(a.len().min(b.len()));
    let w = |s: &[u8]| {
        short(&s[p.saturating_sub(2).min(s.len())..(p + 8).min(s.len())])
    };
    format!(
        "lengths {} and {}, first difference at byte {p}: {} and {}",
        a.len(),
        b.len(),
        w(a),
        w(b)
    )
}

// --------------------------------------------------------------------- C01

fn c01_check(cx: &mut Cx, m: &M) -> Check {
    let f = mk(m)?;
    let b = enc(&f)?;
    let d = dec_ok(&b)?;
    matches(&as_on_wire(m), &d, Mode::Wire)
        .map_err(|e| format!("after the round trip, {e}"))?;
    if exact_on_wire(m) {
        let eq = subj(|| d == f && f == d && !(d != f))?;
        ensure!(eq, "the decoded frame is not equal to the original");
        cx.obs.count("equal_frames", 1);
    } else {
        cx.obs.count("normalised_frames", 1);
    }
    cx.obs.seen(m.fingerprint());
    Ok(())
}

fn c01(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    cx.sample(|| m.describe());
    let r = c01_check(cx, &m);
    ctx(&m, r)
}

fn c01_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let r = c01_check(cx, &m);
    ctx(&m, r)
}

fn c01_sweep(cx: &mut Cx) -> Check {
    let m = sweep_frame(cx.idx);
    let r = c01_check(cx, &m);
    ctx(&m, r)
}

/// Builders used sparsely: only some parameters set, so defaults travel.
fn c01_setup_options(cx: &mut Cx) -> Check {
    let (m, ops) = gen_builder(cx, 4);
    let f = run_builder(&ops)?;
    let b = enc(&f)?;
    let d = ctx(&m, dec_ok(&b))?;
    ctx(&m, matches(&as_on_wire(&m), &d, Mode::Wire))?;
    cx.obs.seen(m.fingerprint());
    Ok(())
}

// --------------------------------------------------------------------- C02

fn c02_check(cx: &mut Cx, m: &M) -> Check {
    let f = mk(m)?;
    let b = enc(&f)?;
    let want = ref_encode(m, &Noise::default());
    ensure!(b[..] == want[..], "encoded bytes differ: {}", diff(&b, &want));
    // The concrete type encodes like the enum.
    let inner = subj(|| {
        let mut o = BytesMut::new();
        each!(&f, v => v.encode(&mut o));
        o.freeze()
    })?;
    ensure!(
        inner[..] == want[..],
        "bytes of the inner frame differ: {}",
        diff(&inner, &want)
    );
    cx.obs.count("bytes_compared", want.len() as u64);
    cx.obs.seen(m.fingerprint());
    Ok(())
}

fn c02(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    cx.sample(|| m.describe());
    let r = c02_check(cx, &m);
    ctx(&m, r)
}

fn c02_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let r = c02_check(cx, &m);
    ctx(&m, r)
}

fn c02_sweep(cx: &mut Cx) -> Check {
    let m = sweep_frame(cx.idx);
    let r = c02_check(cx, &m);
    ctx(&m, r)
}

// --------------------------------------------------------------------- C03

fn c03_check(cx: &mut Cx, m: &M, n: &Noise) -> Check {
    let wire = ref_encode(m, n);
    let f = dec_ok(&wire)?;
    matches(&as_on_wire(m), &f, Mode::Wire)?;
    if !n.is_none(m.ty) {
        cx.obs.count("with_reserved_bits", 1);
    }
    cx.obs.seen(m.fingerprint() ^ mix(n.flags as u64));
    Ok(())
}

fn c03(cx: &mut Cx) -> Check {
    let mut m = gen_frame(cx);
    if m.ty == Ty::Setup && cx.rng.chance(1, 6) {
        // MIME types that are not ASCII are reported as absent.
        let n = cx.rng.below(256);
        let s = match cx.rng.below(3) {
            0 => Bytes::from(content(cx, n)),
            1 => Bytes::from(nearly_ascii(cx, 255)),
            _ => {
                let mut v = ascii(cx, 255).into_bytes();
                if !v.is_empty() {
                    let i = cx.rng.below(v.len());
                    v[i] |= 0x80;
                }
                Bytes::from(v)
            }
        };
        if cx.rng.bool() {
            m.mmime = s
        } else {
            m.dmime = s
        }
    }
    let n = gen_noise(cx);
    cx.sample(|| format!("{} {:?}", m.describe(), n));
    let r = c03_check(cx, &m, &n);
    ctx(&m, r.map_err(|e| format!("{e} {n:?}")))
}

fn c03_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let n = Noise { sid_high: true, a_high: true, b_high: true, flags: 0x3FF };
    let n = if cx.idx % 2 == 0 { n } else { Noise::default() };
    let r = c03_check(cx, &m, &n);
    ctx(&m, r)
}

/// Every character in a MIME type: alone, first, last, behind a separator.
fn c03_mime_chars(cx: &mut Cx) -> Check {
    let mut m = base(Ty::Setup);
    for (i, s) in mime_chars(cx.idx).enumerate() {
        let s = Bytes::from(s);
        if i % 2 == 0 {
            m.mmime = s
        } else {
            m.dmime = s
        }
        let r = c03_check(cx, &m, &Noise::default());
        ctx(&m, r)?;
    }
    Ok(())
}

/// MIME types with the characters of a group.
fn mime_chars(group: u64) -> impl Iterator<Item = String> {
    // Beyond the first groups, some will do.
    let step = if group < 64 { 1 } else { 13 };
    (group * 64..group * 64 + 64)
        .step_by(step)
        .filter_map(|c| char::from_u32(c as u32))
        .flat_map(|c| {
            [
                format!("{c}"),
                format!("{c}ext/plain"),
                format!("text{c}plain"),
                format!("text/plain{c}"),
                format!("text/plain;name={c}"),
                format!("text/plain; {c}=utf-8 (a, b)"),
                format!("application/x.v{c}1+json"),
            ]
        })
}

fn c03_sweep(cx: &mut Cx) -> Check {
    let m = sweep_frame(cx.idx);
    let r = c03_check(cx, &m, &Noise::default());
    ctx(&m, r)?;
    let n = Noise {
        sid_high: true,
        a_high: true,
        b_high: true,
        flags: 0x3FF,
    };
    let r = c03_check(cx, &m, &n);
    ctx(&m, r.map_err(|e| format!("{e} {n:?}")))
}

/// The decoders of the frame types give the same as `Frame::decode`.
fn c03_direct(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    let n = gen_noise(cx);
    let wire = ref_encode(&m, &n);
    let mut b = Bytes::from(wire);
    let sid = b.get_u32() & MAX31;
    let flags = Flags::from_bits_truncate(b.get_u16());
    let r = subj(|| -> Dec {
        Ok(match m.ty {
            Ty::Setup => {
                Frame::Setup(SetupFrame::decode(&mut b, sid, flags)?)
            }
            Ty::Lease => {
                Frame::Lease(LeaseFrame::decode(&mut b, sid, flags)?)
            }
            Ty::Keepalive => Frame::Keepalive(KeepaliveFrame::decode(
                &mut b, sid, flags,
            )?),
            Ty::Response => Frame::RequestResponse(
                RequestResponseFrame::decode(&mut b, sid, flags)?,
            ),
            Ty::Fnf => Frame::RequestFnf(RequestFnfFrame::decode(
                &mut b, sid, flags,
            )?),
            Ty::Stream => Frame::RequestStream(RequestStreamFrame::decode(
                &mut b, sid, flags,
            )?),
            Ty::Channel => Frame::RequestChannel(
                RequestChannelFrame::decode(&mut b, sid, flags)?,
            ),
            Ty::RequestN => {
                Frame::RequestN(RequestNFrame::decode(&mut b, sid, flags)?)
            }
            Ty::Cancel => {
                Frame::Cancel(CancelFrame::decode(&mut b, sid, flags)?)
            }
            Ty::Payload => {
                Frame::Payload(PayloadFrame::decode(&mut b, sid, flags)?)
            }
            Ty::Error => {
                Frame::Error(ErrorFrame::decode(&mut b, sid, flags)?)
            }
            Ty::MetadataPush => Frame::MetadataPush(
                MetadataPushFrame::decode(&mut b, sid, flags)?,
            ),
            Ty::Resume => {
                Frame::Resume(ResumeFrame::decode(&mut b, sid, flags)?)
            }
            Ty::ResumeOk => {
                Frame::ResumeOk(ResumeOkFrame::decode(&mut b, sid, flags)?)
            }
        })
    })?;
    match r {
        Ok(f) => ctx(&m, matches(&as_on_wire(&m), &f, Mode::Wire))?,
        Err(e) => return ctx(&m, Err(format!("decoding failed: {e:?}"))),
    }
    cx.obs.count("direct_decodes", 1);
    Ok(())
}

// --------------------------------------------------------------------- C04

/// The fingerprint of texts. A long one is broken off, which formatting has to
/// cope with, too.
#[derive(Default)]
struct Text {
    len: usize,
    hash: u64,
    left: usize,
}

impl Text {
    fn show(&mut self, a: std::fmt::Arguments<'_>) {
        self.left = 300_000;
        let _ = std::fmt::Write::write_fmt(self, a);
    }
}

impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.len += s.len();
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100_0000_01B3);
            self.hash ^= self.hash >> 31;
        }
        Ok(())
    }
}

/// Everything a user may do to look at a decoding result.
fn inspect(r: &Dec) -> (usize, u64) {
    let mut text = Text::default();
    text.show(format_args!("{r:?}"));
    text.show(format_args!("{r:#?}"));
    match r {
        Ok(f) => {
            let c = f.clone();
            assert!(c == *f);
            macro_rules! look {
                ($($e:expr),*) => {{ $( text.show(format_args!("{:?}", $e)); )* }};
            }
            match f {
                Frame::Setup(f) => look!(
                    f.is_lease(),
                    f.is_resume(),
                    f.version().to_string(),
                    f.keepalive_interval(),
                    f.keepalive_timeout(),
                    f.resume_token(),
                    f.metadata_mimetype(),
                    f.data_mimetype(),
                    f.metadata(),
                    f.data(),
                    f.clone().payload().metadata_utf8(),
                    f.clone().payload().data_utf8()
                ),
                Frame::Error(f) => {
                    look!(f.stream_id(), f.error_code(), f.data(), f.data_utf8())
                }
                Frame::Lease(f) => {
                    look!(f.ttl(), f.number_of_requests(), f.metadata())
                }
                Frame::Keepalive(f) => look!(
                    f.last_received_position(),
                    f.data(),
                    f.is_respond()
                ),
                Frame::RequestResponse(f) => look!(
                    f.stream_id(),
                    f.is_follows(),
                    f.metadata(),
                    f.data(),
                    f.clone().payload().len()
                ),
                Frame::RequestFnf(f) => look!(
                    f.stream_id(),
                    f.is_follows(),
                    f.metadata(),
                    f.request_data(),
                    f.clone().payload().len()
                ),
                Frame::RequestStream(f) => look!(
                    f.stream_id(),
                    f.is_follows(),
                    f.initial_request_n(),
                    f.metadata(),
                    f.data(),
                    f.clone().payload().len()
                ),
                Frame::RequestChannel(f) => look!(
                    f.stream_id(),
                    f.is_follows(),
                    f.is_complete(),
                    f.initial_request_n(),
                    f.metadata(),
                    f.data(),
                    f.clone().payload().len()
                ),
                Frame::RequestN(f) => look!(f.stream_id(), f.request_n()),
                Frame::Cancel(f) => look!(f.stream_id()),
                Frame::Payload(f) => look!(
                    f.stream_id(),
                    f.is_follows(),
                    f.is_complete(),
                    f.is_next(),
                    f.metadata(),
                    f.data(),
                    f.clone().payload().data_utf8()
                ),
                Frame::MetadataPush(f) => look!(f.metadata()),
                Frame::Resume(f) => look!(
                    f.version(),
                    f.resume_token(),
                    f.last_received_server_position(),
                    f.first_available_client_position()
                ),
                Frame::ResumeOk(f) => look!(f.last_received_server_position()),
            }
        }
        Err(e) => {
            text.show(format_args!("{e}"));
            text.show(format_args!("{}", binate::Error::from(e.clone())));
            text.show(format_args!("{:?}", binate::Error::from(e.clone())));
        }
    }
    (text.len, text.hash)
}

fn outcome_name(r: &Dec) -> &'static str {
    match r {
        Ok(_) => "decoded",
        Err(DecodeError::InComplete) => "incomplete",
        Err(DecodeError::UnrecognizedFrameType(_)) => "unrecognized",
        Err(DecodeError::InvalidStreamId { .. }) => "invalid_stream",
        Err(_) => "other_error",
    }
}

fn c04_check(cx: &mut Cx, data: &[u8], segs: bool) -> Check {
    let w = |e: String| {
        let n = data.len().min(64);
        format!("{e} [bytes {:02x?} of {}]", &data[..n], data.len())
    };
    let (a, ia) = subj(|| {
        let mut b = Bytes::copy_from_slice(data);
        let r = Frame::decode(&mut b);
        let i = inspect(&r);
        (r, i)
    })
    .map_err(w)?;
    // The same bytes again, elsewhere and in other pieces.
    let (b, ib) = subj(|| {
        let mut b: &[u8] = data;
        let r = Frame::decode(&mut b);
        let i = inspect(&r);
        (r, i)
    })
    .map_err(w)?;
    ensure!(
        a == b && ia == ib,
        "{}",
        w(format!("two decodings differ: {} and {}", outcome_name(&a), outcome_name(&b)))
    );
    if segs && data.len() < 50_000 {
        let cuts = gen_cuts(cx, data.len());
        steps_reset(cuts.len());
        let c = subj(|| {
            let mut b = SegBuf::new(data, &cuts);
            let r = Frame::decode(&mut b);
            inspect(&r);
            r
        })
        .map_err(|e| w(format!("{e} cuts {:?}", &cuts[..cuts.len().min(20)])))?;
        cx.obs.count("segmented", 1);
        cx.obs.count("buffer_calls", steps());
        // That the result is the same is C08's business; that it is a
        // function of the bytes is ours.
        ensure!(
            outcome_name(&c) == outcome_name(&a),
            "{}",
            w("segmentation changes the outcome".into())
        );
    }
    cx.obs.count(outcome_name(&a), 1);
    cx.obs.seen(fnv(data));
    Ok(())
}

pub fn gen_cuts(cx: &mut Cx, n: usize) -> Vec<usize> {
    if n < 2 {
        return vec![];
    }
    match cx.rng.below(6) {
        0 => vec![],
        1 if n <= 20_000 => (1..n).collect(),
        2 => {
            let c = cx.rng.range(1, n.min(40) - 1);
            vec![c]
        }
        3 => {
            let k = cx.rng.range(1, 7);
            (1..n.min(400)).step_by(k).collect()
        }
        _ => {
            let k = cx.rng.range(1, 8);
            (0..k)
                .map(|_| {
                    if cx.rng.bool() {
                        cx.rng.range(1, n.min(64) - 1)
                    } else {
                        cx.rng.range(1, n - 1)
                    }
                })
                .collect()
        }
    }
}

/// One small unit over and over: nested or chained structures of any depth.
fn c04_repeated(cx: &mut Cx) -> Check {
    let code = (cx.idx % 64) as u16;
    let k = cx.idx / 64;
    let fl = [0u16, 0x200, 0x3E0, 0x100, 0x280, 0x1C0, 0x300, 0x80]
        [(k % 8) as usize];
    let tail = [0, 1, 3, 4, 2, 8][(k / 8 % 6) as usize];
    let sid = (k / 48 % 2) as u32;
    let mut unit = sid.to_be_bytes().to_vec();
    unit.extend_from_slice(&(code << 10 | fl).to_be_bytes());
    unit.resize(unit.len() + tail, 0);
    let total = if cx.thorough { 3_000_000 } else { 360_000 };
    let d = unit.repeat(total / unit.len());
    cx.obs.count("units", (total / unit.len()) as u64);
    c04_check(cx, &d, false)
}

fn c04_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let mut d = ref_encode(&m, &Noise::default());
    let r = dec(&d)?;
    ensure!(r.is_ok(), "{r:?} for {}", m.describe());
    d.truncate(d.len() / 2);
    let _ = dec(&d)?;
    cx.obs.count("large", 1);
    Ok(())
}

fn c04_headers(cx: &mut Cx) -> Check {
    let head = cx.idx as u16;
    let bodies: [usize; 6] = [0, 1, 3, 9, 20, 40];
    for (k, n) in bodies.iter().enumerate() {
        for sid in [0u32, 1, 0x8000_0000] {
            let mut d = sid.to_be_bytes().to_vec();
            d.extend_from_slice(&head.to_be_bytes());
            let mut body = vec![[0u8, 0xFF, 0x01][k % 3]; *n];
            if k >= 3 {
                cx.rng.fill(&mut body);
                // Small values where length fields are likely.
                for b in body.iter_mut() {
                    if *b & 1 == 0 {
                        *b &= 7;
                    }
                }
            }
            d.extend_from_slice(&body);
            c04_check(cx, &d, k >= 3)?;
        }
    }
    Ok(())
}

fn head_for(cx: &mut Cx) -> [u8; 6] {
    let mut h = [0u8; 6];
    let sid: u32 = match cx.rng.below(4) {
        0 | 1 => 0,
        2 => num(cx, 32) as u32,
        _ => cx.rng.u32(),
    };
    h[..4].copy_from_slice(&sid.to_be_bytes());
    let code = match cx.rng.below(10) {
        0 => cx.rng.below(64) as u16,
        1 => 0x3F,
        _ => cx.rng.range(1, 14) as u16,
    };
    let fl = match cx.rng.below(3) {
        0 => 0,
        1 => [0x100u16, 0x180, 0x1C0, 0x80, 0x1E0][cx.rng.below(5)],
        _ => cx.rng.u32() as u16 & 0x3FF,
    };
    h[4..].copy_from_slice(&(code << 10 | fl).to_be_bytes());
    h
}

fn garbage(cx: &mut Cx) -> Vec<u8> {
    let n = match cx.rng.below(10) {
        0 => cx.rng.below(7),
        1 => len(cx, 100_000),
        _ => cx.rng.below(80),
    };
    let mut d = head_for(cx).to_vec();
    let body = content(cx, n);
    d.extend_from_slice(&body);
    // Plausible length fields.
    for _ in 0..cx.rng.below(4) {
        if d.len() > 6 {
            let p = cx.rng.range(6, d.len() - 1).min(60);
            d[p] = cx.rng.below(12) as u8;
        }
    }
    if cx.rng.chance(1, 12) {
        let keep = cx.rng.below(d.len() + 1);
        d.truncate(keep);
    }
    d
}

fn c04_random(cx: &mut Cx) -> Check {
    let d = garbage(cx);
    cx.sample(|| short(&d));
    c04_check(cx, &d, true)
}

/// A valid frame damaged in a few places.
pub fn mutated(cx: &mut Cx) -> Vec<u8> {
    let m = gen_frame(cx);
    let n = gen_noise(cx);
    let mut d = ref_encode(&m, &n);
    let (req, lens) = layout(&m);
    for _ in 0..cx.rng.range(1, 4) {
        if d.is_empty() {
            break;
        }
        match cx.rng.below(9) {
            0 => {
                let p = cx.rng.below(d.len());
                d[p] ^= 1 << cx.rng.below(8);
            }
            1 => {
                let p = cx.rng.below(d.len().min(40));
                d[p] = *cx.rng.pick(&[0, 1, 0x7F, 0x80, 0xFF]);
            }
            2 | 3 if !lens.is_empty() => {
                // A length field says something else.
                let (p, w) = *cx.rng.pick(&lens);
                if p + w <= d.len() {
                    let left = d.len() - p - w;
                    let v = match cx.rng.below(6) {
                        0 => 0,
                        1 => u32::MAX as usize,
                        2 => left,
                        3 => left + 1,
                        4 => left.saturating_sub(cx.rng.below(4)),
                        _ => cx.rng.u32() as usize,
                    } as u32;
                    d[p..p + w].copy_from_slice(&v.to_be_bytes()[4 - w..]);
                }
            }
            4 => {
                let keep = match cx.rng.below(3) {
                    0 => req.saturating_sub(cx.rng.below(3)),
                    1 => cx.rng.below(d.len() + 1).min(64),
                    _ => cx.rng.below(d.len() + 1),
                };
                d.truncate(keep);
            }
            5 => {
                let n = cx.rng.below(20);
                let x = content(cx, n);
                d.extend_from_slice(&x);
            }
            6 => {
                let h = head_for(cx);
                let k = d.len().min(6);
                d[..k].copy_from_slice(&h[..k]);
            }
            7 if d.len() >= 6 => {
                // Another type, same body.
                let c = cx.rng.range(1, 14) as u8;
                d[4] = c << 2 | d[4] & 3;
            }
            _ if d.len() >= 6 => {
                // Other flags.
                d[4] ^= cx.rng.below(4) as u8;
                d[5] ^= (cx.rng.u32() as u8) & 0xE0;
            }
            _ => {}
        }
    }
    d
}

fn c04_mutated(cx: &mut Cx) -> Check {
    let d = mutated(cx);
    cx.sample(|| short(&d));
    c04_check(cx, &d, true)
}

fn c04_spliced(cx: &mut Cx) -> Check {
    let a = mutated(cx);
    let b = mutated(cx);
    let mut d = a[..cx.rng.below(a.len().min(200) + 1)].to_vec();
    let from = cx.rng.below(b.len() + 1).min(b.len());
    d.extend_from_slice(&b[from..]);
    c04_check(cx, &d, true)
}

// --------------------------------------------------------------------- C05

/// Compares a decoding result with what the bytes call for.
fn judge(data: &[u8], r: &Dec) -> Check {
    match (ref_decode(data), r) {
        (Expect::Frame(m, _), Ok(f)) => {
            if m.ty == Ty::Lease && data[4] & 1 == 0 {
                // Metadata without the flag: not a conforming frame.
                return Ok(());
            }
            matches(&m, f, Mode::Wire)
        }
        (Expect::Frame(m, _), Err(e)) => {
            Err(format!("{e:?} for a complete {:?} frame", m.ty))
        }
        (Expect::Errors(want), Ok(f)) => Err(format!(
            "decoded as {} where {want:?} is due",
            variant(f)
        )),
        (Expect::Errors(want), Err(e)) => {
            ensure!(want.contains(e), "{e:?} where {want:?} is due");
            Ok(())
        }
    }
}

fn c05_cut(cx: &mut Cx, m: &M, d: &[u8], req: usize, cut: usize) -> Check {
    let t = &d[..cut];
    let r = dec(t)?;
    let late = cut >= req;
    let what = |e: String| {
        format!("cut at {cut} of {} (needs {req}): {e}", d.len())
    };
    if !late {
        ensure!(
            r == Err(DecodeError::InComplete),
            "{}",
            what(format!("got {}", match &r {
                Ok(f) => format!("a {} frame", variant(f)),
                Err(e) => format!("{e:?}"),
            }))
        );
        cx.obs.count("cut_incomplete", 1);
    } else {
        judge(t, &r).map_err(what)?;
        cx.obs.count("cut_complete", 1);
    }
    cx.obs.seen(mix(m.ty.code() as u64 | (cut as u64) << 8) ^ mix(d.len() as u64));
    Ok(())
}

fn c05_cuts(cx: &mut Cx, m: &M, n: &Noise) -> Check {
    let d = ref_encode(m, n);
    let (req, lens) = layout(m);
    if req > d.len() {
        return Err("HARNESS layout".into());
    }
    let mut cuts: Vec<usize> = (0..d.len().min(48) + 1).collect();
    if d.len() > 48 {
        for (p, w) in &lens {
            cuts.extend(p.saturating_sub(2)..(p + w + 3).min(d.len() + 1));
        }
        cuts.extend(req.saturating_sub(20)..(req + 3).min(d.len() + 1));
        for _ in 0..6 {
            cuts.push(cx.rng.below(d.len() + 1));
        }
        cuts.push(d.len());
    }
    cuts.sort_unstable();
    cuts.dedup();
    if d.len() > 70_000 {
        // Copies are expensive: sample.
        let k = cuts.len();
        cuts = (0..6).map(|_| cuts[cx.rng.below(k)]).collect();
        cuts.push(req);
        cuts.push(req.saturating_sub(1));
    }
    for c in cuts {
        c05_cut(cx, m, &d, req, c)?;
    }
    Ok(())
}

fn small_frame(cx: &mut Cx, max: usize) -> M {
    loop {
        let m = gen_frame(cx);
        if m.size() <= max {
            return m;
        }
    }
}

fn c05(cx: &mut Cx) -> Check {
    let m = if cx.rng.chance(1, 50) {
        gen_frame(cx)
    } else {
        small_frame(cx, 2000)
    };
    let n = gen_noise(cx);
    cx.sample(|| m.describe());
    let r = c05_cuts(cx, &m, &n);
    ctx(&m, r)
}

fn c05_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let r = c05_cuts(cx, &m, &Noise::default());
    ctx(&m, r)
}

fn c05_sweep(cx: &mut Cx) -> Check {
    // Every cut position of every type with small parts of all lengths.
    let i = cx.idx;
    let ty = TYPES[(i % 14) as usize];
    let k = i / 14;
    let mut m = base(ty);
    let a = (k % 7) as usize;
    let b = (k / 7 % 5) as usize;
    if META_TYPES.contains(&ty) {
        m.meta = if a == 0 { None } else { Some(pattern(a - 1, 1)) };
    }
    if ty == Ty::MetadataPush {
        m.meta = Some(pattern(a, 1));
    }
    if DATA_TYPES.contains(&ty) {
        m.data = Some(pattern(b, 50));
    }
    if ty == Ty::Setup {
        m.resume = k & 1 != 0;
        if m.resume {
            m.token = Some(pattern((k % 4) as usize, 9));
        }
        m.mmime = Bytes::from(vec![b'a'; (k % 3) as usize]);
        m.dmime = Bytes::from(vec![b'b'; (k / 3 % 3) as usize]);
    }
    if ty == Ty::Resume {
        m.token = Some(pattern((k % 9) as usize, 9));
    }
    let mut n = Noise::default();
    if k >= 140 {
        n.flags = (k as u16).wrapping_mul(37);
    }
    let r = c05_cuts(cx, &m, &n);
    ctx(&m, r)
}

fn c05_inflated(cx: &mut Cx) -> Check {
    let m = small_frame(cx, 70_000);
    let n = gen_noise(cx);
    let mut d = ref_encode(&m, &n);
    let (_, lens) = layout(&m);
    if lens.is_empty() {
        return Ok(());
    }
    let (p, w) = *cx.rng.pick(&lens);
    let left = d.len() - p - w;
    let max = (1usize << (8 * w)) - 1;
    let v = match cx.rng.below(4) {
        0 => left + 1,
        1 => max,
        2 => left + cx.rng.range(1, 300),
        _ => cx.rng.range(0, max),
    }
    .min(max);
    d[p..p + w].copy_from_slice(&(v as u32).to_be_bytes()[4 - w..]);
    let r = dec(&d)?;
    let j = judge(&d, &r).map_err(|e| {
        format!("length field at {p} set to {v}, {left} bytes follow: {e}")
    });
    if r == Err(DecodeError::InComplete) {
        cx.obs.count("inflated_incomplete", 1);
    }
    cx.obs.seen(fnv(&d));
    ctx(&m, j)
}

// --------------------------------------------------------------------- C06

/// Only stream IDs and types are judged here.
fn c06_check(cx: &mut Cx, d: &[u8]) -> Check {
    let r = dec(d)?;
    let w = |e: String| format!("{e} [{}]", short(d));
    match (ref_decode(d), &r) {
        (Expect::Frame(..), Ok(_)) => cx.obs.count("accepted", 1),
        (Expect::Frame(m, _), Err(e)) => ensure!(
            *e == DecodeError::InComplete,
            "{}",
            w(format!("{e:?} for a valid {:?} frame", m.ty))
        ),
        (Expect::Errors(want), Err(e)) => {
            ensure!(
                want.contains(e),
                "{}",
                w(format!("{e:?} where {want:?} is due"))
            );
            cx.obs.count(outcome_name(&r), 1);
            // The error names what was found.
            let t = e.to_string();
            match e {
                DecodeError::InvalidStreamId { expected, found } => ensure!(
                    t.contains(&found.to_string()) && t.contains(expected),
                    "{}",
                    w(format!("'{t}' does not name the stream IDs"))
                ),
                DecodeError::UnrecognizedFrameType(c) => ensure!(
                    t.contains(&format!("{c:x}"))
                        || t.contains(&format!("{c:X}"))
                        || t.contains(&c.to_string()),
                    "{}",
                    w(format!("'{t}' does not name the type"))
                ),
                _ => {}
            }
        }
        (Expect::Errors(want), Ok(f)) => {
            // Truncation is C05's business.
            ensure!(
                want.iter().all(|e| *e == DecodeError::InComplete),
                "{}",
                w(format!("accepted as {} where {want:?} is due", variant(f)))
            );
        }
    }
    cx.obs.seen(fnv(&d[..d.len().min(12)]));
    Ok(())
}

const SIDS: [u32; 12] = [
    0,
    1,
    2,
    3,
    255,
    256,
    0x1_0000,
    0x100_0000,
    0x7FFF_FFFF,
    0x8000_0000,
    0x8000_0001,
    0xFFFF_FFFF,
];

fn c06_types(cx: &mut Cx) -> Check {
    let code = (cx.idx % 64) as u16;
    let k = cx.idx / 64;
    let sid = SIDS[(k % 12) as usize];
    let flags = [0u16, 0x100, 0x80, 0x40, 0x20, 0x200, 0x3FF, 0x1F]
        [(k / 12 % 8) as usize];
    let mut d = sid.to_be_bytes().to_vec();
    d.extend_from_slice(&(code << 10 | flags).to_be_bytes());
    // A body that is complete for every type: small lengths everywhere.
    for body in [&[0u8; 40][..], &[0; 0], &[0; 8]] {
        let mut d = d.clone();
        d.extend_from_slice(body);
        c06_check(cx, &d)?;
    }
    Ok(())
}

fn c06_codes(cx: &mut Cx) -> Check {
    let c = cx.idx / 8;
    let code = match c {
        0..=0x3FF => c as u32,
        0x400..=0x40F => u32::MAX - (c as u32 - 0x400),
        0x410..=0x42F => 1 << (c - 0x410),
        0x430..=0x44F => (1u32 << (c - 0x430)) | 0x201,
        0x450..=0x46F => (1u32 << (c - 0x450)) | 0x101,
        0x470..=0x48F => (1u32 << (c - 0x470)) | 1,
        _ => cx.rng.u32(),
    };
    let sid = SIDS[[0, 1, 2, 4, 8, 9, 10, 11][(cx.idx % 8) as usize]];
    let mut d = sid.to_be_bytes().to_vec();
    let fl = cx.rng.u32() as u16 & 0x3FF;
    d.extend_from_slice(&(11 << 10 | fl).to_be_bytes());
    d.extend_from_slice(&code.to_be_bytes());
    c06_check(cx, &d)?;
    d.extend_from_slice(b"reason");
    c06_check(cx, &d)
}

fn c06_random(cx: &mut Cx) -> Check {
    let d = match cx.rng.below(3) {
        0 => {
            let m = gen_frame(cx);
            let n = gen_noise(cx);
            let mut d = ref_encode(&m, &n);
            let sid = num(cx, 32) as u32;
            d[..4].copy_from_slice(&sid.to_be_bytes());
            d
        }
        1 => {
            let mut d = head_for(cx).to_vec();
            d[4] = 11 << 2;
            d.extend_from_slice(&error_code(cx).to_be_bytes());
            d
        }
        _ => mutated(cx),
    };
    cx.sample(|| short(&d));
    c06_check(cx, &d)
}

// --------------------------------------------------------------------- C07

fn c07_value<T: Encode + Clone + PartialEq + std::fmt::Debug>(
    cx: &mut Cx,
    v: &T,
    what: &str,
) -> Check {
    let before = v.clone();
    let prefix: &[u8] = match cx.rng.below(4) {
        0 => b"",
        1 => b"x",
        _ => b"already there",
    };
    let cap = match cx.rng.below(4) {
        0 => 0,
        1 => prefix.len(),
        2 => prefix.len() + 7,
        _ => prefix.len() + 100,
    };
    let (len, empty, out, again, tb) = subj(|| {
        let mut o = BytesMut::with_capacity(cap);
        o.put_slice(prefix);
        let len = v.len();
        let empty = v.is_empty();
        v.encode(&mut o);
        let mut o2 = BytesMut::new();
        v.encode(&mut o2);
        (len, empty, o, o2, v.to_bytes())
    })
    .map_err(|e| format!("{what}: {e}"))?;
    ensure!(
        out.starts_with(prefix),
        "{what}: bytes already in the buffer changed"
    );
    let body = &out[prefix.len()..];
    ensure!(
        body.len() == len,
        "{what}: reported length {len}, encoded {} bytes",
        body.len()
    );
    ensure!(
        empty == (len == 0),
        "{what}: is_empty() = {empty} for {len} bytes"
    );
    ensure!(
        body == &again[..],
        "{what}: encoding twice differs: {}",
        diff(body, &again)
    );
    ensure!(
        body == &tb[..],
        "{what}: to_bytes() differs: {}",
        diff(body, &tb)
    );
    ensure!(*v == before, "{what}: encoding changed the value");
    cx.obs.count("values", 1);
    Ok(())
}

#[macro_export]
macro_rules! each {
    ($f:expr, $v:ident => $e:expr) => {
        match $f {
            Frame::Setup($v) => $e,
            Frame::Error($v) => $e,
            Frame::Lease($v) => $e,
            Frame::Keepalive($v) => $e,
            Frame::RequestResponse($v) => $e,
            Frame::RequestFnf($v) => $e,
            Frame::RequestStream($v) => $e,
            Frame::RequestChannel($v) => $e,
            Frame::RequestN($v) => $e,
            Frame::Cancel($v) => $e,
            Frame::Payload($v) => $e,
            Frame::MetadataPush($v) => $e,
            Frame::Resume($v) => $e,
            Frame::ResumeOk($v) => $e,
        }
    };
}
use crate::each;

fn c07_frame(cx: &mut Cx, f: &Frame) -> Check {
    c07_value(cx, f, variant(f))?;
    each!(f, v => c07_value(cx, v, "inner frame"))
}

fn c07_check(cx: &mut Cx, m: &M) -> Check {
    let f = mk(m)?;
    c07_frame(cx, &f)?;
    cx.obs.seen(m.fingerprint());
    Ok(())
}

fn c07(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    cx.sample(|| m.describe());
    let r = c07_check(cx, &m);
    ctx(&m, r)
}

fn c07_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let r = c07_check(cx, &m);
    ctx(&m, r)
}

fn c07_sweep(cx: &mut Cx) -> Check {
    let m = sweep_frame(cx.idx);
    let r = c07_check(cx, &m);
    ctx(&m, r)
}

fn c07_values(cx: &mut Cx) -> Check {
    let (meta, data) = parts(cx, 1 << 20);
    let p = payload_of(&meta, &data);
    c07_value(cx, &p, "payload")?;
    let want = meta.as_ref().map_or(0, |b| b.len())
        + data.as_ref().map_or(0, |b| b.len());
    ensure!(
        p.len() == want && Encode::len(&p) == want,
        "payload of {want} bytes: length {} / {}",
        p.len(),
        Encode::len(&p)
    );
    let n = num(cx, 24) as u32;
    let u = subj(|| U24::from_u32(n))?;
    c07_value(cx, &u, "24-bit integer")?;
    let v = Version::new(num(cx, 16) as u16, num(cx, 16) as u16);
    c07_value(cx, &v, "version")?;
    cx.obs.seen(
        mix(len_class(meta.map(|b| b.len())) << 32
            | len_class(data.map(|b| b.len()))),
    );
    Ok(())
}

/// A RESUME frame's token can be longer than its length field can tell; its
/// length is that of what it encodes to, all the same.
fn c07_tokens(cx: &mut Cx) -> Check {
    let i = cx.idx as usize;
    let n = match i {
        0..40 => 65_530 + i % 20 + i / 20 * 65_536,
        _ => 1 + cx.rng.below(1 << 20),
    };
    let token = Bytes::from(pattern(n, i as u8));
    let made = subj(|| ResumeFrame::new(Version::default(), token, 1, 2));
    cx.obs.seen(n as u64);
    match made {
        Ok(f) => {
            c07_value(cx, &f, "RESUME frame with a long token")?;
            c07_value(cx, &Frame::Resume(f), "the same as a frame")
        }
        Err(_) => {
            cx.obs.count("tokens_refused", 1);
            Ok(())
        }
    }
}

/// Frames as they come out of the decoder, with all their flag bits.
fn c07_decoded(cx: &mut Cx) -> Check {
    let d = if cx.rng.bool() {
        mutated(cx)
    } else {
        let m = gen_frame(cx);
        let n = gen_noise(cx);
        ref_encode(&m, &n)
    };
    if let Ok(f) = dec(&d)? {
        c07_frame(cx, &f).map_err(|e| format!("{e} [{}]", short(&d)))?;
        cx.obs.count("decoded", 1);
        cx.obs.seen(fnv(&d));
    }
    Ok(())
}

// --------------------------------------------------------------------- C08

/// Decodes from some kind of buffer; gives the result and what is left.
fn dec_via(
    kind: usize,
    data: &[u8],
    cuts: &[usize],
) -> Result<(Dec, Vec<u8>, &'static str), String> {
    let mid = cuts.first().copied().unwrap_or(0).min(data.len());
    steps_reset(if kind == 6 { data.len() } else { cuts.len() });
    let name = [
        "segments", "bytes", "bytesmut", "slice", "deque", "chain",
        "shredded", "take", "cursor",
    ][kind];
    subj(|| match kind {
        0 => {
            let mut b = SegBuf::new(data, cuts);
            let r = Frame::decode(&mut b);
            (r, b.rest(), name)
        }
        1 => {
            let mut b = Bytes::copy_from_slice(data);
            let r = Frame::decode(&mut b);
            (r, b.to_vec(), name)
        }
        2 => {
            let mut b = BytesMut::from(data);
            let r = Frame::decode(&mut b);
            (r, b.to_vec(), name)
        }
        3 => {
            let mut b = data;
            let r = Frame::decode(&mut b);
            (r, b.to_vec(), name)
        }
        4 => {
            // A ring buffer whose contents wrap around its end.
            let mut q: VecDeque<u8> = VecDeque::with_capacity(data.len() + 1);
            let cap = q.capacity();
            q.resize(cap.saturating_sub(mid), 0);
            q.drain(..);
            q.resize(cap.saturating_sub(mid), 0);
            // The head stays where it is.
            q.push_back(0);
            q.drain(..q.len() - 1);
            q.extend(data);
            q.pop_front();
            let r = Frame::decode(&mut q);
            let (a, b) = q.as_slices();
            (r, [a, b].concat(), name)
        }
        5 => {
            let mut b = Bytes::copy_from_slice(&data[..mid])
                .chain(Bytes::copy_from_slice(&data[mid..]));
            let r = Frame::decode(&mut b);
            let n = b.remaining();
            let rest = b.copy_to_bytes(n).to_vec();
            (r, rest, name)
        }
        6 => {
            let mut b = SegBuf::shredded(data);
            let r = Frame::decode(&mut b);
            (r, b.rest(), name)
        }
        7 => {
            // Only a part of a larger buffer is offered.
            let mut big = data.to_vec();
            big.extend_from_slice(b"beyond the limit");
            let mut b = Bytes::from(big).take(data.len());
            let r = Frame::decode(&mut b);
            let n = b.remaining();
            let rest = b.copy_to_bytes(n).to_vec();
            (r, rest, name)
        }
        _ => {
            let mut v = b"skipped".to_vec();
            v.extend_from_slice(data);
            let mut b = std::io::Cursor::new(v);
            b.set_position(7);
            let r = Frame::decode(&mut b);
            let at = b.position() as usize;
            (r, b.into_inner()[at.min(7 + data.len())..].to_vec(), name)
        }
    })
    .map_err(|e| {
        format!(
            "decoding from {name} (cuts {:?}): {e}",
            &cuts[..cuts.len().min(12)]
        )
    })
}

fn c08_compare(
    cx: &mut Cx,
    data: &[u8],
    kind: usize,
    cuts: &[usize],
    base: &(Dec, Vec<u8>),
) -> Check {
    let (r, rest, name) = dec_via(kind, data, cuts)?;
    let c = &cuts[..cuts.len().min(12)];
    ensure!(
        r == base.0,
        "result from {name} (cuts {c:?}) differs: {} instead of {}",
        outcome_text(&r),
        outcome_text(&base.0)
    );
    if r.is_ok() {
        ensure!(
            rest == base.1,
            "{name} (cuts {c:?}) leaves {} bytes instead of {}",
            rest.len(),
            base.1.len()
        );
    }
    cx.obs.count(name, 1);
    cx.obs.seen(fnv(data) ^ mix(kind as u64) ^ mix(cuts.iter().fold(1, |a, c| mix(a ^ *c as u64))));
    Ok(())
}

fn outcome_text(r: &Dec) -> String {
    match r {
        Ok(f) => {
            let t = format!("{f:?}");
            t.chars().take(200).collect()
        }
        Err(e) => format!("{e:?}"),
    }
}

fn c08_base(data: &[u8]) -> Result<(Dec, Vec<u8>), String> {
    let (r, rest, _) = dec_via(3, data, &[])?;
    Ok((r, rest))
}

/// What is consumed: exactly the frame, or everything.
fn c08_consumed(m: &M, wire: &[u8], extra: &[u8], b: &(Dec, Vec<u8>)) -> Check {
    ensure!(b.0.is_ok(), "decoding failed: {:?}", b.0);
    let want: &[u8] = if m.ty.fixed_size() { extra } else { &[] };
    ensure!(
        b.1 == want,
        "{:?} frame of {} bytes followed by {}: {} bytes left, expected {}",
        m.ty,
        wire.len(),
        extra.len(),
        b.1.len(),
        want.len()
    );
    Ok(())
}

fn c08(cx: &mut Cx) -> Check {
    let m = if cx.rng.chance(1, 30) {
        small_frame(cx, 40_000)
    } else {
        small_frame(cx, 600)
    };
    let n = gen_noise(cx);
    let wire = ref_encode(&m, &n);
    let extra_n = if cx.rng.bool() { 0 } else { cx.rng.range(1, 30) };
    let extra = content(cx, extra_n);
    let mut d = wire.clone();
    d.extend_from_slice(&extra);
    cx.sample(|| format!("{} + {} bytes", m.describe(), extra.len()));
    let b = c08_base(&d)?;
    ctx(&m, c08_consumed(&m, &wire, &extra, &b))?;
    for kind in 1..9 {
        if kind == 6 && d.len() > 5000 {
            continue;
        }
        let cuts = gen_cuts(cx, d.len());
        let r = c08_compare(cx, &d, kind, &cuts, &b);
        ctx(&m, r)?;
    }
    for _ in 0..4 {
        let cuts = gen_cuts(cx, d.len());
        let r = c08_compare(cx, &d, 0, &cuts, &b);
        ctx(&m, r)?;
    }
    Ok(())
}

fn c08_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let wire = ref_encode(&m, &Noise::default());
    let b = c08_base(&wire)?;
    ctx(&m, c08_consumed(&m, &wire, &[], &b))?;
    // One cut in the head, one in the middle, one in the tail.
    let n = wire.len();
    let cuts = vec![
        cx.rng.range(1, 30),
        cx.rng.range(31, n - 20),
        n - cx.rng.range(1, 19),
    ];
    for kind in [0, 1, 2, 4, 5, 7] {
        let c = if kind == 5 { &cuts[1..2] } else { &cuts[..] };
        let r = c08_compare(cx, &wire, kind, c, &b);
        ctx(&m, r)?;
    }
    Ok(())
}

/// All 2-way and 3-way splits of small frames of every type.
fn c08_sweep(cx: &mut Cx) -> Check {
    let i = cx.idx;
    let ty = TYPES[(i % 14) as usize];
    let k = i / 14;
    let mut m = base(ty);
    if META_TYPES.contains(&ty) {
        m.meta = [
            None,
            Some(Bytes::new()),
            Some(pattern(1, 3)),
            Some(pattern(3, 3)),
            Some(pattern(260, 3)),
        ][(k % 5) as usize]
            .clone();
        if ty == Ty::MetadataPush && m.meta.is_none() {
            m.meta = Some(pattern(2, 1));
        }
    }
    if DATA_TYPES.contains(&ty) {
        m.data =
            [None, Some(pattern(1, 3)), Some(pattern(4, 3))][(k / 5 % 3) as usize]
                .clone();
    }
    if ty == Ty::Setup {
        m.mmime = Bytes::from("a/b");
        m.dmime = Bytes::from("c");
        m.resume = k / 15 % 2 == 1;
        if m.resume {
            m.token = Some(pattern(3, 200));
        }
    }
    if ty == Ty::Resume {
        m.token = Some(pattern((k % 9) as usize, 3));
    }
    let n = if k / 30 % 2 == 1 {
        Noise { sid_high: true, a_high: true, b_high: true, flags: 0x3FF }
    } else {
        Noise::default()
    };
    let mut d = ref_encode(&m, &n);
    let wire = d.clone();
    let extra = if k / 60 % 2 == 1 { b"next".to_vec() } else { vec![] };
    d.extend_from_slice(&extra);
    let b = c08_base(&d)?;
    ctx(&m, c08_consumed(&m, &wire, &extra, &b))?;
    for c in 1..d.len() {
        let r = c08_compare(cx, &d, 0, &[c], &b);
        ctx(&m, r)?;
    }
    if d.len() <= 60 {
        for c in 1..d.len() {
            for e in c + 1..d.len() {
                let r = c08_compare(cx, &d, 0, &[c, e], &b);
                ctx(&m, r)?;
            }
        }
    }
    for kind in 1..9 {
        let c = cx.rng.below(d.len());
        let r = c08_compare(cx, &d, kind, &[c], &b);
        ctx(&m, r)?;
    }
    Ok(())
}

fn c08_garbage(cx: &mut Cx) -> Check {
    let mut d = mutated(cx);
    d.truncate(3000);
    let b = c08_base(&d)?;
    for kind in [0, 0, 1, 2, 4, 5, 6, 7] {
        let cuts = gen_cuts(cx, d.len());
        c08_compare(cx, &d, kind, &cuts, &b)
            .map_err(|e| format!("{e} [{}]", short(&d)))?;
    }
    Ok(())
}

/// A decoded frame does not change when its source is used for other things.
fn c08_reuse(cx: &mut Cx) -> Check {
    let m = small_frame(cx, 5000);
    let n = gen_noise(cx);
    let wire = ref_encode(&m, &n);
    let second = small_frame(cx, 500);
    let wire2 = ref_encode(&second, &Noise::default());
    let fixed = m.ty.fixed_size();
    let m2 = as_on_wire(&m);
    // From a buffer that is then refilled and overwritten.
    let r = subj(|| {
        let mut src = BytesMut::with_capacity(wire.len() + wire2.len() + 64);
        src.put_slice(&wire);
        if fixed {
            src.put_slice(&wire2);
        }
        let a = Frame::decode(&mut src);
        let b = if fixed { Some(Frame::decode(&mut src)) } else { None };
        src.clear();
        src.reserve(wire.len() + wire2.len());
        src.resize(wire.len() + wire2.len(), 0xA5);
        for x in src.iter_mut() {
            *x = 0x5A;
        }
        drop(src);
        (a, b)
    })
    .map_err(|e| format!("{e} [{}]", m.describe()))?;
    let (a, b) = r;
    match &a {
        Ok(f) => ctx(
            &m,
            matches(&m2, f, Mode::Wire)
                .map_err(|e| format!("after reusing the source buffer, {e}")),
        )?,
        Err(e) => return ctx(&m, Err(format!("decoding failed: {e:?}"))),
    }
    if let Some(b) = b {
        match &b {
            Ok(f) => ctx(
                &second,
                matches(&as_on_wire(&second), f, Mode::Wire)
                    .map_err(|e| format!("second frame of the buffer: {e}")),
            )?,
            Err(e) => {
                return ctx(
                    &second,
                    Err(format!("second frame of the buffer: {e:?}")),
                )
            }
        }
        cx.obs.count("two_frames_in_one_buffer", 1);
    }
    // From a borrowed slice that is then overwritten.
    let mut v = wire.clone();
    let f = subj(|| Frame::decode(&mut &v[..]))?;
    v.fill(0xEE);
    std::hint::black_box(&v);
    drop(v);
    if let Ok(f) = f {
        ctx(
            &m,
            matches(&m2, &f, Mode::Wire)
                .map_err(|e| format!("after overwriting the slice, {e}")),
        )?;
    }
    cx.obs.seen(m.fingerprint());
    Ok(())
}

// --------------------------------------------------------------------- C09

fn c09_bytes(cx: &mut Cx, d: &[u8], identical: bool) -> Check {
    let f = match dec(d)? {
        Ok(f) => f,
        Err(e) => {
            ensure!(!identical, "{e:?} for a conforming frame");
            cx.obs.count("not_a_frame", 1);
            return Ok(());
        }
    };
    let b1 = enc(&f).map_err(|e| format!("re-encoding: {e}"))?;
    if identical {
        ensure!(
            b1[..] == d[..],
            "the relayed bytes differ: {}",
            diff(&b1, d)
        );
    }
    let f2 = dec_ok(&b1).map_err(|e| format!("second hop: {e}"))?;
    ensure!(
        f2 == f,
        "the relayed frame differs: {} became {}",
        outcome_text(&Ok(f.clone())),
        outcome_text(&Ok(f2.clone()))
    );
    let b2 = enc(&f2)?;
    ensure!(
        b2 == b1,
        "re-encoding is not stable: {}",
        diff(&b2, &b1)
    );
    cx.obs.count("relayed", 1);
    cx.obs.seen(fnv(d));
    Ok(())
}

fn c09_check(cx: &mut Cx, m: &M, n: &Noise) -> Check {
    let m = as_on_wire(m);
    let d = ref_encode(&m, n);
    c09_bytes(cx, &d, n.is_none(m.ty))
}

fn c09(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    let n = if cx.rng.bool() { Noise::default() } else { gen_noise(cx) };
    cx.sample(|| m.describe());
    let r = c09_check(cx, &m, &n);
    ctx(&m, r)
}

fn c09_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let r = c09_check(cx, &m, &Noise::default());
    ctx(&m, r)
}

fn c09_sweep(cx: &mut Cx) -> Check {
    let m = sweep_frame(cx.idx);
    let r = c09_check(cx, &m, &Noise::default());
    ctx(&m, r)?;
    let n = Noise {
        sid_high: cx.idx % 2 == 0,
        a_high: true,
        b_high: cx.idx % 3 == 0,
        flags: (cx.idx as u16).wrapping_mul(0x9E37),
    };
    let r = c09_check(cx, &m, &n);
    ctx(&m, r)
}

fn c09_garbage(cx: &mut Cx) -> Check {
    let d = if cx.rng.bool() { mutated(cx) } else { garbage(cx) };
    c09_bytes(cx, &d, false).map_err(|e| format!("{e} [{}]", short(&d)))
}

// --------------------------------------------------------------------- C10

fn c10_check(cx: &mut Cx, d: &[u8], kind: usize) -> Check {
    let cuts = if kind == 2 { gen_cuts(cx, d.len()) } else { vec![] };
    let owned = d.to_vec();
    steps_reset(cuts.len());
    let outer = mem_start();
    let calls = mem_calls();
    let mut peak = 0;
    let mut biggest = 0;
    let mut ok = false;
    let res = subj(|| match kind {
        0 => {
            let mut b: &[u8] = d;
            let m = mem_start();
            let r = Frame::decode(&mut b);
            (peak, _, biggest) = mem_since(m);
            ok = r.is_ok();
        }
        1 => {
            let mut b = Bytes::from(owned);
            let m = mem_start();
            let r = Frame::decode(&mut b);
            (peak, _, biggest) = mem_since(m);
            ok = r.is_ok();
            drop(b);
            drop(r);
        }
        2 => {
            let mut b = SegBuf::new(d, &cuts);
            let m = mem_start();
            let r = Frame::decode(&mut b);
            (peak, _, biggest) = mem_since(m);
            ok = r.is_ok();
        }
        _ => {
            let mut b = BytesMut::from(d);
            let m = mem_start();
            let r = Frame::decode(&mut b);
            (peak, _, biggest) = mem_since(m);
            ok = r.is_ok();
            drop(r);
        }
    });
    res.map_err(|e| format!("{e} [{}]", short(d)))?;
    drop(cuts);
    let (_, live, _) = mem_since(outer);
    // `owned` was moved in only for kind 1; compare with the level then.
    let balance = live + if kind == 1 { d.len() as i64 } else { 0 };
    let source = ["slice", "bytes", "segments", "bytesmut"][kind];
    let bound = 4 * d.len() as i64 + 4096;
    ensure!(
        peak <= bound,
        "decoding {} bytes from {source} allocated {peak} bytes (bound {bound}) [{}]",
        d.len(),
        short(d)
    );
    let _ = biggest;
    // Vectors the harness freed in between (cuts) can only lower the level.
    ensure!(
        balance <= 0,
        "{balance} bytes still allocated after dropping the result of \
         decoding {} bytes from {source} [{}]",
        d.len(),
        short(d)
    );
    cx.obs.count(source, 1);
    cx.obs.count("allocations_seen", mem_calls() - calls);
    cx.obs.count("peak_bytes_seen", peak as u64);
    if ok {
        cx.obs.count("decoded", 1);
    } else {
        cx.obs.count("rejected", 1);
    }
    cx.obs.seen(fnv(d) ^ kind as u64);
    Ok(())
}

fn c10(cx: &mut Cx) -> Check {
    let d = match cx.rng.below(3) {
        0 => garbage(cx),
        1 => mutated(cx),
        _ => {
            let m = gen_frame(cx);
            ref_encode(&m, &Noise::default())
        }
    };
    cx.sample(|| short(&d));
    let kind =
        if d.len() > 60_000 { [0, 1, 3][cx.rng.below(3)] } else { cx.rng.below(4) };
    c10_check(cx, &d, kind)
}

fn c10_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let d = ref_encode(&m, &Noise::default());
    for kind in [0, 1, 3] {
        c10_check(cx, &d, kind)?;
    }
    Ok(())
}

fn inflate(cx: &mut Cx, m: &M, v: Option<usize>) -> Option<Vec<u8>> {
    let mut d = ref_encode(m, &Noise::default());
    let (_, lens) = layout(m);
    if lens.is_empty() {
        return None;
    }
    let (p, w) = *cx.rng.pick(&lens);
    let max = (1usize << (8 * w)) - 1;
    let v = v.unwrap_or_else(|| match cx.rng.below(3) {
        0 => max,
        1 => max / 2 + 1,
        _ => cx.rng.range(0, max),
    });
    d[p..p + w].copy_from_slice(&(v as u32).to_be_bytes()[4 - w..]);
    if cx.rng.bool() {
        d.truncate(p + w + cx.rng.below(9));
    }
    Some(d)
}

fn c10_inflated(cx: &mut Cx) -> Check {
    let m = small_frame(cx, 300);
    let Some(d) = inflate(cx, &m, None) else { return Ok(()) };
    cx.obs.count("lying_lengths", 1);
    let kind = cx.rng.below(4);
    c10_check(cx, &d, kind)
}

/// Tiny frames declaring every power of two and its neighbours.
fn c10_sweep(cx: &mut Cx) -> Check {
    let i = cx.idx;
    let ty = [
        Ty::Setup,
        Ty::Response,
        Ty::Fnf,
        Ty::Stream,
        Ty::Channel,
        Ty::Payload,
        Ty::Resume,
    ][(i % 7) as usize];
    let k = i / 7;
    let bit = k % 25;
    let delta = k / 25 % 3;
    let mut m = base(ty);
    if ty != Ty::Resume {
        m.meta = Some(pattern(2, 1));
    }
    if ty == Ty::Setup {
        m.resume = k / 75 % 2 == 0;
        if m.resume {
            m.token = Some(pattern(1, 1));
        }
    }
    let v = ((1usize << bit) + delta as usize).wrapping_sub(1);
    let Some(d) = inflate(cx, &m, Some(v)) else { return Ok(()) };
    for kind in 0..4 {
        c10_check(cx, &d, kind)?;
    }
    Ok(())
}

// --------------------------------------------------------------------- C11

const FRAME_TYPES: [(u16, FrameType); 15] = [
    (0x01, FrameType::SETUP),
    (0x02, FrameType::LEASE),
    (0x03, FrameType::KEEPALIVE),
    (0x04, FrameType::REQUEST_RESPONSE),
    (0x05, FrameType::REQUEST_FNF),
    (0x06, FrameType::REQUEST_STREAM),
    (0x07, FrameType::REQUEST_CHANNEL),
    (0x08, FrameType::REQUEST_N),
    (0x09, FrameType::CANCEL),
    (0x0A, FrameType::PAYLOAD),
    (0x0B, FrameType::ERROR),
    (0x0C, FrameType::METADATA_PUSH),
    (0x0D, FrameType::RESUME),
    (0x0E, FrameType::RESUME_OK),
    (0x3F, FrameType::EXT),
];

fn c11_u16(cx: &mut Cx) -> Check {
    let v = cx.idx as u16;
    let by = |c: u16| {
        FRAME_TYPES.iter().find(|(k, _)| *k == c).map(|(_, t)| *t)
    };
    let got = subj(|| FrameType::from_value(v))?;
    ensure!(
        got == by(v),
        "from_value({v:#x}) = {got:?}, expected {:?}",
        by(v)
    );
    let got = subj(|| FrameType::from_bits(v))?;
    ensure!(
        got == by(v >> 10),
        "from_bits({v:#x}) = {got:?}, expected {:?}",
        by(v >> 10)
    );
    if let Some(t) = by(v) {
        ensure!(t.value() == v, "{t:?}.value() = {:#x}", t.value());
        ensure!(t.bits() == v << 10, "{t:?}.bits() = {:#x}", t.bits());
        ensure!(
            FrameType::from_bits(t.bits()) == Some(t),
            "{t:?} does not come back from its bits"
        );
    }
    // Flags.
    let f = subj(|| Flags::from_bits_truncate(v))?;
    let p = |b: u16| v & b != 0;
    let table = [
        ("ignore", f.is_ignore(), p(0x200), Flags::IGNORE, 0x200),
        ("metadata", f.is_metadata(), p(0x100), Flags::METADATA, 0x100),
        ("follows", f.is_follows(), p(0x80), Flags::FOLLOWS, 0x80),
        ("resume", f.is_resume(), p(0x80), Flags::RESUME, 0x80),
        ("respond", f.is_respond(), p(0x80), Flags::RESPOND, 0x80),
        ("complete", f.is_complete(), p(0x40), Flags::COMPLETE, 0x40),
        ("lease", f.is_lease(), p(0x40), Flags::LEASE, 0x40),
        ("next", f.is_next(), p(0x20), Flags::NEXT, 0x20),
    ];
    for (name, got, want, flag, bit) in table {
        ensure!(got == want, "is_{name}() of {v:#06x} = {got}");
        ensure!(
            flag.bits() == bit,
            "flag {name} is bit {:#x}, expected {bit:#x}",
            flag.bits()
        );
    }
    ensure!(
        f.bits() == v & 0x3E0,
        "flags of {v:#06x} are {:#06x}",
        f.bits()
    );
    cx.obs.count("codes", 1);
    cx.obs.seen(cx.idx);
    Ok(())
}

fn c11_u24(cx: &mut Cx) -> Check {
    for k in 0..4096u32 {
        let v = (cx.idx as u32) << 12 | k;
        let r = subj(|| {
            let a = U24::from_u32(v);
            let b = U24::from_usize(v as usize);
            let c = U24::new((v >> 16) as u8, v as u16);
            let mut o = BytesMut::with_capacity(8);
            a.encode(&mut o);
            (
                a == b && b == c,
                a.into_u32() == v && c.into_u32() == v,
                b.into_usize() == v as usize && a.into_usize() == v as usize,
                o[..] == v.to_be_bytes()[1..],
                a.len() == 3,
            )
        })?;
        ensure!(
            r == (true, true, true, true, true),
            "24-bit integer {v}: equal/u32/usize/bytes/len = {r:?}"
        );
    }
    cx.obs.count("u24_values", 4096);
    cx.obs.seen(1 << 40 | cx.idx);
    cx.sample(|| format!("u24 block {}", cx_idx(4096)));
    Ok(())
}

fn cx_idx(n: u64) -> String {
    format!("of {n} values")
}

fn c11_u24_reject(cx: &mut Cx) -> Check {
    let i = cx.idx;
    let v: u64 = match i {
        0..=39 => (1u64 << 24) << i,
        40..=79 => ((1u64 << 24) << (i - 40)) + 1,
        80..=119 => ((1u64 << 24) << (i - 80)) | 0xFFFFFF,
        120 => u32::MAX as u64,
        121 => u64::MAX,
        122 => 1 << 32,
        123 => (1 << 32) + 5,
        _ => {
            let v = num(cx, 64);
            if v <= MAX24 as u64 {
                v + (1 << 24)
            } else {
                v
            }
        }
    };
    if v <= u32::MAX as u64 {
        let r = subj(|| U24::from_u32(v as u32));
        ensure!(r.is_err(), "from_u32({v}) gave {:?}", r.unwrap());
        cx.obs.count("refused_u32", 1);
    }
    let r = subj(|| U24::from_usize(v as usize));
    ensure!(r.is_err(), "from_usize({v}) gave {:?}", r.unwrap());
    cx.obs.count("refused_usize", 1);
    ensure!(
        U24::MAX == 0xFF_FFFF && U24::MIN == 0,
        "limits are {} and {}",
        U24::MIN,
        U24::MAX
    );
    cx.obs.seen(mix(v));
    Ok(())
}

fn c11_versions(cx: &mut Cx) -> Check {
    let (a, b, c, d) = (
        num(cx, 16) as u16,
        num(cx, 16) as u16,
        num(cx, 16) as u16,
        num(cx, 16) as u16,
    );
    let (c, d) = match cx.rng.below(4) {
        0 => (a, d),
        1 => (c, b),
        2 => (a, b),
        _ => (c, d),
    };
    let r = subj(|| {
        let x = Version::new(a, b);
        let y = Version::new(c, d);
        (
            x.cmp(&y),
            x.partial_cmp(&y),
            x == y,
            x < y,
            x >= y,
            x.max(y) == y,
            (x.major(), x.minor()),
            x.to_string(),
            (Version::default().major(), Version::default().minor()),
            x.to_bytes(),
        )
    })?;
    let o = (a, b).cmp(&(c, d));
    ensure!(
        r.0 == o && r.1 == Some(o),
        "{a}.{b} against {c}.{d}: {:?} / {:?}, expected {o:?}",
        r.0,
        r.1
    );
    ensure!(r.2 == o.is_eq(), "{a}.{b} == {c}.{d} is {}", r.2);
    ensure!(
        r.3 == o.is_lt() && r.4 == o.is_ge() && r.5 == o.is_le(),
        "operators disagree for {a}.{b} and {c}.{d}"
    );
    ensure!(r.6 == (a, b), "version {a}.{b} reports {:?}", r.6);
    ensure!(
        r.7 == format!("{a}.{b}"),
        "version {a}.{b} prints as '{}'",
        r.7
    );
    ensure!(r.8 == (1, 0), "the default version is {:?}", r.8);
    let mut w = a.to_be_bytes().to_vec();
    w.extend_from_slice(&b.to_be_bytes());
    ensure!(r.9[..] == w[..], "version {a}.{b} encodes as {:?}", r.9);
    cx.sample(|| format!("{a}.{b} against {c}.{d}"));
    cx.obs.count("version_pairs", 1);
    cx.obs.seen(mix(
        (a as u64) << 48 | (b as u64) << 32 | (c as u64) << 16 | d as u64,
    ));
    Ok(())
}

// --------------------------------------------------------------------- C12

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Resume,
    Lease,
    Version(u16, u16),
    Interval(u32),
    Timeout(u32),
    Token(Bytes),
    Mmime(String),
    Dmime(String),
    Meta(Bytes),
    Data(Bytes),
}

fn op_param(o: &Op) -> u8 {
    match o {
        Op::Resume => 0,
        Op::Lease => 1,
        Op::Version(..) => 2,
        Op::Interval(_) => 3,
        Op::Timeout(_) => 4,
        Op::Token(_) => 5,
        Op::Mmime(_) => 6,
        Op::Dmime(_) => 7,
        Op::Meta(_) => 8,
        Op::Data(_) => 9,
    }
}

fn gen_op(cx: &mut Cx) -> Op {
    match cx.rng.below(10) {
        0 => Op::Resume,
        1 => Op::Lease,
        2 => Op::Version(num(cx, 16) as u16, num(cx, 16) as u16),
        3 => Op::Interval(u31(cx)),
        4 => Op::Timeout(u31(cx)),
        5 => {
            let n = len(cx, 65_535);
            Op::Token(bytes_of(cx, n))
        }
        6 => Op::Mmime(any_mime(cx)),
        7 => Op::Dmime(any_mime(cx)),
        8 => {
            let n = len(cx, 5000);
            Op::Meta(bytes_of(cx, n))
        }
        _ => {
            let n = len(cx, 5000);
            Op::Data(bytes_of(cx, n))
        }
    }
}

/// The same parameter, with a value that another call has or nearly has.
fn same_as(cx: &mut Cx, ops: &[Op], o: Op) -> Op {
    let mut nums: Vec<u32> = vec![30_000, 60_000, 1, 0];
    let mut texts = vec![Bytes::from("application/binary")];
    for o in ops {
        match o {
            Op::Version(a, b) => nums.extend([*a as u32, *b as u32]),
            Op::Interval(v) | Op::Timeout(v) => nums.push(*v),
            Op::Token(b) | Op::Meta(b) | Op::Data(b) => {
                nums.push(b.len() as u32);
                texts.push(b.clone());
            }
            Op::Mmime(s) | Op::Dmime(s) => {
                nums.push(s.len() as u32);
                texts.push(s.clone().into());
            }
            _ => {}
        }
    }
    let v = *cx.rng.pick(&nums);
    let t = texts[cx.rng.below(texts.len())].clone();
    let t = if cx.rng.bool() { t } else { alike(cx, &t) };
    let text = std::str::from_utf8(&t).ok().filter(|s| s.len() <= 255).map(str::to_string);
    match o {
        Op::Version(..) => Op::Version(v as u16, *cx.rng.pick(&nums) as u16),
        Op::Interval(_) => Op::Interval(v & MAX31),
        Op::Timeout(_) => Op::Timeout(v & MAX31),
        Op::Token(_) if t.len() <= 65_535 => Op::Token(t),
        Op::Meta(_) if t.len() <= MAX24 => Op::Meta(t),
        Op::Data(_) => Op::Data(t),
        Op::Mmime(s) => Op::Mmime(text.unwrap_or(s)),
        Op::Dmime(s) => Op::Dmime(text.unwrap_or(s)),
        o => o,
    }
}

fn any_mime(cx: &mut Cx) -> String {
    match cx.rng.below(10) {
        0 => {
            // Not ASCII.
            let n = cx.rng.range(1, 60);
            (0..n).map(|i| if i % 3 == 0 { 'é' } else { 'x' }).collect()
        }
        1 => nearly_ascii(cx, 255),
        _ => ascii(cx, 255),
    }
}

fn apply(m: &mut M, o: &Op) {
    match o {
        Op::Resume => m.resume = true,
        Op::Lease => m.lease = true,
        Op::Version(a, b) => {
            m.major = *a;
            m.minor = *b;
        }
        Op::Interval(v) => m.a = *v as u64,
        Op::Timeout(v) => m.b = *v as u64,
        Op::Token(t) => {
            m.token = Some(t.clone());
            m.resume = true;
        }
        Op::Mmime(s) => m.mmime = Bytes::from(s.clone()),
        Op::Dmime(s) => m.dmime = Bytes::from(s.clone()),
        Op::Meta(b) => m.meta = Some(b.clone()),
        Op::Data(b) => m.data = Some(b.clone()),
    }
}

fn setup_defaults() -> M {
    let mut m = M::blank(Ty::Setup);
    m.a = 30_000;
    m.b = 60_000;
    m.mmime = Bytes::from("application/binary");
    m.dmime = Bytes::from("application/binary");
    m
}

fn gen_builder(cx: &mut Cx, max: usize) -> (M, Vec<Op>) {
    let n = cx.rng.below(max + 1);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let o = gen_op(cx);
        let o = if cx.rng.chance(1, 8) { same_as(cx, &ops, o) } else { o };
        ops.push(o);
    }
    let mut m = setup_defaults();
    for o in &ops {
        apply(&mut m, o);
    }
    (m, ops)
}

fn step(b: SetupFrameBuilder, o: &Op) -> SetupFrameBuilder {
    match o {
        Op::Resume => b.set_resume_flag(),
        Op::Lease => b.set_lease_flag(),
        Op::Version(x, y) => b.set_version(*x, *y),
        Op::Interval(v) => b.set_keepalive_interval(*v),
        Op::Timeout(v) => b.set_keepalive_timeout(*v),
        Op::Token(t) => b.set_resume_token(t.clone()),
        Op::Mmime(s) => b.set_metadata_mimetype(s.clone()),
        Op::Dmime(s) => b.set_data_mimetype(&s[..]),
        Op::Meta(x) => b.set_metadata(x.clone()),
        Op::Data(x) => b.set_data(x.clone()),
    }
}

fn run_builder(ops: &[Op]) -> Result<Frame, String> {
    subj(|| {
        let mut b = SetupFrame::builder();
        for o in ops {
            b = step(b, o);
        }
        Frame::Setup(b.build())
    })
    .map_err(|e| format!("building: {e}"))
}

fn ops_text(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        let t = format!("{o:?} ");
        s += &t.chars().take(60).collect::<String>();
    }
    s
}

fn c12(cx: &mut Cx) -> Check {
    let (m, ops) = gen_builder(cx, 14);
    cx.sample(|| ops_text(&ops));
    let w = |e: String| format!("{e} [calls: {}]", ops_text(&ops));
    let f = run_builder(&ops).map_err(w)?;
    matches(&m, &f, Mode::Exact).map_err(w)?;
    // What it says is also what it writes.
    let b = enc(&f).map_err(w)?;
    let want = ref_encode(&m, &Noise::default());
    ensure!(
        b[..] == want[..],
        "{}",
        w(format!("encoded bytes differ: {}", diff(&b, &want)))
    );
    cx.obs.count("builder_calls", ops.len() as u64);
    cx.obs.seen(m.fingerprint() ^ mix(ops.len() as u64));
    Ok(())
}

fn c12_order(cx: &mut Cx) -> Check {
    // One call per parameter (two for some), in two orders that keep the
    // relative order of calls for the same parameter.
    let (_, ops) = gen_builder(cx, 12);
    let mut perm: Vec<Op> = ops.clone();
    for i in (1..perm.len()).rev() {
        let j = cx.rng.below(i + 1);
        perm.swap(i, j);
    }
    let mut queues: Vec<VecDeque<Op>> = vec![VecDeque::new(); 10];
    for o in &ops {
        queues[op_param(o) as usize].push_back(o.clone());
    }
    let perm: Vec<Op> = perm
        .iter()
        .map(|o| queues[op_param(o) as usize].pop_front().unwrap())
        .collect();
    let a = run_builder(&ops)?;
    let b = run_builder(&perm)?;
    let (ea, eb) = (enc(&a)?, enc(&b)?);
    ensure!(
        a == b && ea == eb,
        "the order of builder calls matters: [{}] and [{}]",
        ops_text(&ops),
        ops_text(&perm)
    );
    cx.obs.count("orders_compared", 1);
    cx.obs.seen(fnv(ops_text(&perm).as_bytes()));
    Ok(())
}

fn c12_refusals(cx: &mut Cx) -> Check {
    let i = cx.idx as usize;
    let refuse = |what: &str, n: usize, r: Result<usize, String>| -> Check {
        match r {
            Err(_) => Ok(()),
            Ok(got) => Err(format!(
                "a {what} of {n} bytes was accepted (kept {got} bytes)"
            )),
        }
    };
    if i < 600 {
        // MIME types of 256 bytes and more.
        let n = match i {
            0..=299 => 256 + i,
            300..=399 => 512 + (i - 300) * 7,
            400..=440 => 256 * (i - 398),
            441..=480 => 256 * (i - 438) + 255,
            _ => 65_500 + (i - 480),
        };
        let s = "m".repeat(n);
        let r = subj(|| {
            SetupFrame::builder()
                .set_metadata_mimetype(s.clone())
                .build()
                .metadata_mimetype()
                .map_or(0, |x| x.len())
        });
        refuse("metadata MIME type", n, r)?;
        let r = subj(|| {
            SetupFrame::builder()
                .set_data_mimetype(s.clone())
                .build()
                .data_mimetype()
                .map_or(0, |x| x.len())
        });
        refuse("data MIME type", n, r)?;
        // Counted in bytes, not characters.
        let u = "é".repeat(n / 2);
        if u.len() > 255 {
            let r = subj(|| {
                SetupFrame::builder()
                    .set_metadata_mimetype(u.clone())
                    .set_data_mimetype("x")
                    .build()
                    .len()
            });
            refuse("metadata MIME type", u.len(), r)?;
            let r = subj(|| {
                SetupFrame::builder().set_data_mimetype(u).build().len()
            });
            refuse("data MIME type", n / 2 * 2, r)?;
        }
        cx.obs.count("mime_refused", 2);
    } else if i < 1000 {
        let k = i - 600;
        let n = match k {
            0..=199 => 65_536 + k,
            200..=299 => 65_536 * (k - 198),
            300..=349 => 65_536 * (k - 298) + 65_535,
            _ => 70_000 + k * 1000,
        };
        let n = n.min(9_000_000);
        let b = Bytes::from(vec![7u8; n]);
        let r = subj(|| {
            SetupFrame::builder()
                .set_resume_token(b)
                .build()
                .resume_token()
                .map_or(0, |t| t.len())
        });
        refuse("resume token", n, r)?;
        cx.obs.count("token_refused", 1);
    } else {
        // Just within the limits.
        let n = 65_535 - (i - 1000);
        let b = Bytes::from(vec![9u8; n]);
        let f = subj(|| {
            Frame::Setup(SetupFrame::builder().set_resume_token(b).build())
        })
        .map_err(|e| format!("a token of {n} bytes: {e}"))?;
        let mut m = setup_defaults();
        m.resume = true;
        m.token = Some(Bytes::from(vec![9u8; n]));
        matches(&m, &f, Mode::Exact)?;
        let e = enc(&f)?;
        ensure!(
            e[..] == ref_encode(&m, &Noise::default())[..],
            "a token of {n} bytes is encoded wrongly"
        );
        cx.obs.count("token_accepted", 1);
    }
    cx.obs.seen(cx.idx);
    Ok(())
}

fn c12_mime_chars(cx: &mut Cx) -> Check {
    for (i, s) in mime_chars(cx.idx).enumerate() {
        let op = if i % 2 == 0 { Op::Mmime(s) } else { Op::Dmime(s) };
        let f = run_builder(std::slice::from_ref(&op))
            .map_err(|e| format!("{op:?}: {e}"))?;
        let mut m = setup_defaults();
        apply(&mut m, &op);
        matches(&m, &f, Mode::Exact).map_err(|e| format!("{op:?}: {e}"))?;
        cx.obs.count("mime_characters", 1);
    }
    cx.obs.seen(1 << 33 | cx.idx);
    Ok(())
}

fn c12_mime_lengths(cx: &mut Cx) -> Check {
    let n = (cx.idx / 4) as usize;
    let which = cx.idx % 4;
    let s = if which < 2 {
        "q".repeat(n)
    } else {
        // Non-ASCII of n bytes.
        let mut s = "é".repeat(n / 2);
        if n % 2 == 1 {
            s.push('z');
        }
        s
    };
    let op = if which % 2 == 0 {
        Op::Mmime(s.clone())
    } else {
        Op::Dmime(s.clone())
    };
    let f = run_builder(std::slice::from_ref(&op))
        .map_err(|e| format!("a MIME type of {n} bytes: {e}"))?;
    let mut m = setup_defaults();
    apply(&mut m, &op);
    matches(&m, &f, Mode::Exact)?;
    let e = enc(&f)?;
    ensure!(
        e[..] == ref_encode(&m, &Noise::default())[..],
        "a MIME type of {n} bytes is encoded wrongly"
    );
    let d = dec_ok(&e)?;
    matches(&m, &d, Mode::Wire)?;
    cx.obs.count("mime_lengths", 1);
    cx.obs.seen(1 << 32 | cx.idx);
    Ok(())
}

// --------------------------------------------------------------------- C13

/// A frame with numbers beyond their fields. Bits 0..2 of `which`: stream ID,
/// first, second number.
fn c13_frame(m: &mut M, which: u64, v: u64) -> bool {
    let over31 = |x: u64| (x as u32 | 0x8000_0000) as u64;
    let over63 = |x: u64| x | 1 << 63;
    let mut any = false;
    if which & 1 != 0 && !m.ty.on_zero() {
        m.sid = over31(v) as u32;
        any = true;
    }
    let wide = matches!(m.ty, Ty::Keepalive | Ty::Resume | Ty::ResumeOk);
    let over = |x: u64| if wide { over63(x) } else { over31(x) };
    let has_a = matches!(
        m.ty,
        Ty::Setup
            | Ty::Lease
            | Ty::Keepalive
            | Ty::Stream
            | Ty::Channel
            | Ty::RequestN
            | Ty::Resume
            | Ty::ResumeOk
    );
    if which & 2 != 0 && has_a {
        m.a = over(v);
        any = true;
    }
    if which & 4 != 0 && matches!(m.ty, Ty::Setup | Ty::Lease | Ty::Resume) {
        m.b = over(v ^ 5);
        any = true;
    }
    any
}

fn c13_check(cx: &mut Cx, m: &M, out: bool) -> Check {
    let r = subj(|| build(m));
    if out && cfg!(debug_assertions) {
        ensure!(
            r.is_err(),
            "out-of-range argument accepted in a build with debug assertions"
        );
        cx.obs.count("refused", 1);
        return Ok(());
    }
    let f = r.map_err(|e| format!("constructing: {e}"))?;
    let wide = matches!(m.ty, Ty::Keepalive | Ty::Resume | Ty::ResumeOk);
    let mask = if wide { MAX63 } else { MAX31 as u64 };
    let mut w = m.clone();
    w.sid &= MAX31;
    w.a &= mask;
    w.b &= mask;
    matches(&w, &f, Mode::Exact)?;
    let b = enc(&f)?;
    let want = ref_encode(&w, &Noise::default());
    ensure!(b[..] == want[..], "encoded bytes differ: {}", diff(&b, &want));
    ensure!(
        f.len() == want.len(),
        "length {} but {} bytes",
        f.len(),
        want.len()
    );
    cx.obs.count(if out { "masked" } else { "in_range" }, 1);
    Ok(())
}

fn c13_sweep(cx: &mut Cx) -> Check {
    let i = cx.idx;
    let ty = TYPES[(i % 16 % 14) as usize];
    let k = i / 16;
    let v = edge(k % 64 + 64 * (k / 64 % 2));
    let which = [1, 2, 4, 7][(k / 64 % 4) as usize];
    let mut m = base(ty);
    let out = c13_frame(&mut m, which, v);
    let r = c13_check(cx, &m, out);
    cx.obs.seen(m.fingerprint());
    ctx(&m, r)
}

fn c13(cx: &mut Cx) -> Check {
    let mut m = small_frame(cx, 300);
    let out = if cx.rng.chance(2, 3) {
        let which = cx.rng.range(1, 7) as u64;
        let v = num(cx, 64);
        c13_frame(&mut m, which, v)
    } else {
        false
    };
    if m.ty == Ty::Error {
        m.code = match cx.rng.below(3) {
            0 => cx.rng.range(0x301, 0xFFFF_FFFE) as u32,
            1 => error_code(cx),
            _ => 0xFFFF_FFFE - cx.rng.below(3) as u32,
        };
    }
    if cx.rng.chance(1, 6) && !out {
        // The largest values that fit.
        if !m.ty.on_zero() {
            m.sid = MAX31;
        }
        if matches!(m.ty, Ty::Stream | Ty::Channel | Ty::RequestN) {
            m.a = MAX31 as u64;
        }
        if matches!(m.ty, Ty::Keepalive | Ty::Resume | Ty::ResumeOk) {
            m.a = MAX63;
        }
    }
    cx.sample(|| m.describe());
    let r = c13_check(cx, &m, out);
    cx.obs.seen(m.fingerprint());
    ctx(&m, r)
}

// --------------------------------------------------------------------- C14

fn c14_check(cx: &mut Cx, m: &M) -> Check {
    let f = mk(m)?;
    matches(m, &f, Mode::Exact)?;
    let c = subj(|| f.clone())?;
    ensure!(c == f, "a clone is not equal");
    matches(m, &c, Mode::Exact).map_err(|e| format!("clone: {e}"))?;
    cx.obs.count("frames", 1);
    cx.obs.seen(m.fingerprint());
    Ok(())
}

fn c14(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    cx.sample(|| m.describe());
    let r = c14_check(cx, &m);
    ctx(&m, r)?;
    // Equality tells different frames apart.
    if cx.rng.chance(1, 3) && m.size() < 4000 {
        let o = gen_frame_of(cx, m.ty);
        if o.size() < 4000 {
            let same = canonical(&o) == canonical(&m);
            let eq = subj(|| build(&o) == build(&m))?;
            ensure!(
                eq == same,
                "equality is {eq} for [{}] and [{}]",
                m.describe(),
                o.describe()
            );
            cx.obs.count("pairs_compared", 1);
        }
    }
    Ok(())
}

fn canonical(m: &M) -> M {
    let mut m = m.clone();
    if m.ty.on_zero() {
        m.sid = 0;
    }
    m
}

fn c14_large(cx: &mut Cx) -> Check {
    let m = large_frame(cx.idx);
    let r = c14_check(cx, &m);
    ctx(&m, r)
}

fn c14_sweep(cx: &mut Cx) -> Check {
    let m = sweep_frame(cx.idx);
    let r = c14_check(cx, &m);
    ctx(&m, r)
}

/// Text views of error data.
fn c14_utf8(cx: &mut Cx) -> Check {
    let mut m = M::blank(Ty::Error);
    m.sid = 3;
    m.code = 0x201;
    m.data = Some(Bytes::from(textish(cx)));
    let r = c14_check(cx, &m);
    ctx(&m, r)
}

/// Every character, in front, behind and on its own.
fn c14_chars(cx: &mut Cx) -> Check {
    let mut m = M::blank(Ty::Error);
    m.sid = 3;
    m.code = 0x201;
    for s in chars(cx.idx) {
        m.data = Some(Bytes::from(s));
        let r = c14_check(cx, &m);
        ctx(&m, r)?;
    }
    Ok(())
}

/// Bytes at the border of valid UTF-8.
pub fn textish(cx: &mut Cx) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for _ in 0..cx.rng.below(6) {
        let piece: &[u8] = match cx.rng.below(18) {
            14..=17 => *cx.rng.pick(NOTABLE),
            0 => b"plain",
            1 => "é".as_bytes(),
            2 => "€".as_bytes(),
            3 => "😀".as_bytes(),
            4 => &[0],
            5 => &[0xC3],
            6 => &[0xE2, 0x82],
            7 => &[0xED, 0xA0, 0x80],
            8 => &[0xC0, 0x80],
            9 => &[0xF4, 0x90, 0x80, 0x80],
            10 => &[0x80],
            11 => &[0xFF],
            12 => "\u{7ff}\u{800}\u{ffff}\u{10000}".as_bytes(),
            _ => b" ",
        };
        v.extend_from_slice(piece);
    }
    v
}
