//! C15: equality. P06: memory needed to fragment and to reassemble.
use crate::bufs::steps_reset;
use crate::gen::*;
use crate::kit::*;
use crate::model::*;
use crate::p_codec::{pattern, sweep_frame, sweep_len};
use crate::p_payload::{make, pieces};
use binate::frame::{DecodeError, Encode, Frame, Version, U24};
use binate::Payload;
use bytes::{Bytes, BytesMut};

pub fn workloads(prop: &str) -> Vec<Workload> {
    match prop {
        "C15" => vec![
            sweep("neighbours-sweep", sweep_len(false) / 4, sweep_len(true), c15_sweep),
            sweep("types", 14 * 14 * 4, 14 * 14 * 4, c15_types),
            random("neighbours", 5, c15),
            random("pairs", 2, c15_pairs),
            random("decoded", 2, c15_decoded),
            random("payloads", 2, c15_payloads),
            random("values", 1, c15_values),
        ],
        "P06" => {
            #[allow(unused_mut)]
            let mut v = vec![
                sweep("fragment", SIZES.len() as u64 * 12, SIZES.len() as u64 * 12, p06_sweep),
                sweep("fragment-large", LARGE.len() as u64 * 2, LARGE.len() as u64 * 6, p06_large),
                random("fragments", 3, p06),
                random("encoding", 2, p06_encode),
            ];
            #[cfg(feature = "h-buf")]
            {
                v.push(random("reassembly", 4, hooks::p06));
                let n = LARGE.len() as u64;
                v.push(sweep("reassemble-large", n * 2, n * 6, hooks::p06_large));
                let n = SIZES.len() as u64 * 12;
                v.push(sweep("reassemble", n, n, hooks::p06_sweep));
            }
            v
        }
        _ => vec![],
    }
}

// --------------------------------------------------------------------- C15

fn change(b: &Bytes, how: usize, at: usize) -> Bytes {
    let mut v = b.to_vec();
    match how {
        // One byte, somewhere.
        0 if !v.is_empty() => {
            let i = at % v.len();
            v[i] ^= 1 << (at % 8);
        }
        1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => {
            v.remove(0);
        }
        3 if v.len() > 1 => {
            let i = at % (v.len() - 1);
            v.swap(i, i + 1);
        }
        4 => v.push(v.last().copied().unwrap_or(b'a')),
        5 => v.insert(0, v.first().copied().unwrap_or(b'a')),
        6 => v.reverse(),
        7 => v.extend_from_within(..),
        _ => {
            // The first letter's case.
            if let Some(c) = v.iter_mut().find(|c| c.is_ascii_alphabetic()) {
                *c ^= 0x20;
            }
        }
    }
    Bytes::from(v)
}

fn ochange(o: &Option<Bytes>, how: usize, at: usize) -> Option<Bytes> {
    match (o, how) {
        (None, _) => Some(if at % 2 == 0 {
            Bytes::new()
        } else {
            Bytes::from_static(b"\0")
        }),
        (Some(_), 9) => None,
        (Some(_), 10) => Some(Bytes::new()),
        (Some(b), h) => Some(change(b, h, at)),
    }
}

fn fields(ty: Ty) -> &'static [u8] {
    // s: stream ID, f/c/n/r/l: flags, v: version, a/b: numbers, e: code,
    // t: token, m/d: metadata and data, x: parts exchanged or shifted,
    // y: MIME types, R: resumption
    match ty {
        Ty::Setup => b"vabltmdxyR",
        Ty::Lease => b"abmw",
        Ty::Keepalive => b"rad",
        Ty::Response | Ty::Fnf => b"sfmdx",
        Ty::Stream => b"sfamdx",
        Ty::Channel => b"sfcamdx",
        Ty::RequestN => b"sa",
        Ty::Cancel => b"s",
        Ty::Payload => b"sfcnmdx",
        Ty::Error => b"sed",
        Ty::MetadataPush => b"m",
        Ty::Resume => b"vabtw",
        Ty::ResumeOk => b"a",
    }
}

fn bits(ty: Ty) -> usize {
    match ty {
        Ty::Keepalive | Ty::Resume | Ty::ResumeOk => 63,
        _ => 31,
    }
}

/// A frame of the same type that differs in one thing (or in nothing, when
/// the change happens to give the same value).
fn neighbour(m: &M, what: u8, how: usize, at: usize) -> M {
    let mut o = m.clone();
    match what {
        b's' => o.sid ^= 1 << (at % 31),
        b'f' => o.follows ^= true,
        b'c' => o.complete ^= true,
        b'n' => o.next ^= true,
        b'r' => o.respond ^= true,
        b'l' => o.lease ^= true,
        b'R' => {
            o.resume ^= true;
            if !o.resume {
                o.token = None;
            }
        }
        b'v' => match how % 3 {
            0 => o.major ^= 1 << (at % 16),
            1 => o.minor ^= 1 << (at % 16),
            _ => std::mem::swap(&mut o.major, &mut o.minor),
        },
        b'a' => o.a ^= 1 << (at % bits(m.ty)),
        b'b' => o.b ^= 1 << (at % bits(m.ty)),
        b'w' => std::mem::swap(&mut o.a, &mut o.b),
        b'e' => o.code ^= 1 << (at % 32),
        b't' => {
            if m.ty == Ty::Resume {
                let t = m.token.clone().unwrap_or_default();
                o.token = Some(change(&t, how, at));
            } else if m.resume {
                o.token = ochange(&m.token, how, at);
            }
        }
        b'm' => {
            if m.ty == Ty::MetadataPush {
                let t = m.meta.clone().unwrap_or_default();
                o.meta = Some(change(&t, how, at));
            } else {
                o.meta = ochange(&m.meta, how, at);
            }
        }
        b'd' => o.data = ochange(&m.data, how, at),
        b'y' => {
            let w = how % 9;
            match at % 5 {
                0 | 1 => o.mmime = change(&m.mmime, w, at / 5),
                2 | 3 => o.dmime = change(&m.dmime, w, at / 5),
                _ => std::mem::swap(&mut o.mmime, &mut o.dmime),
            }
            for s in [&mut o.mmime, &mut o.dmime] {
                if s.len() > 255 || !s.is_ascii() {
                    *s = Bytes::from_static(b"a/b");
                }
            }
        }
        _ => {
            // The same bytes in another division.
            match how % 4 {
                0 => std::mem::swap(&mut o.meta, &mut o.data),
                1 => {
                    let all = joined(m);
                    let k = at % (all.len() + 1);
                    o.meta = Some(all.slice(..k));
                    o.data = Some(all.slice(k..));
                }
                2 => {
                    o.meta = None;
                    o.data = Some(joined(m));
                }
                _ => {
                    o.meta = Some(joined(m));
                    o.data = None;
                }
            }
        }
    }
    if let Some(t) = &o.token {
        if t.len() > 65_535 {
            o.token = Some(t.slice(..65_535));
        }
    }
    for p in [&mut o.meta, &mut o.data] {
        if p.as_ref().is_some_and(|b| b.len() > MAX24) {
            *p = None;
        }
    }
    if o.ty == Ty::MetadataPush && o.meta.is_none() {
        o.meta = Some(Bytes::new());
    }
    o
}

fn joined(m: &M) -> Bytes {
    let mut v = vec![];
    for p in [&m.meta, &m.data].into_iter().flatten() {
        v.extend_from_slice(p);
    }
    Bytes::from(v)
}

/// Compares in both directions, with both operators, as frames and alone.
fn verdict(f: &Frame, g: &Frame) -> Result<bool, String> {
    let r = subj(|| {
        let inner = match (f, g) {
            (Frame::Setup(x), Frame::Setup(y)) => (x == y, x != y, y == x),
            (Frame::Error(x), Frame::Error(y)) => (x == y, x != y, y == x),
            (Frame::Lease(x), Frame::Lease(y)) => (x == y, x != y, y == x),
            (Frame::Keepalive(x), Frame::Keepalive(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::RequestResponse(x), Frame::RequestResponse(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::RequestFnf(x), Frame::RequestFnf(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::RequestStream(x), Frame::RequestStream(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::RequestChannel(x), Frame::RequestChannel(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::RequestN(x), Frame::RequestN(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::Cancel(x), Frame::Cancel(y)) => (x == y, x != y, y == x),
            (Frame::Payload(x), Frame::Payload(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::MetadataPush(x), Frame::MetadataPush(y)) => {
                (x == y, x != y, y == x)
            }
            (Frame::Resume(x), Frame::Resume(y)) => (x == y, x != y, y == x),
            (Frame::ResumeOk(x), Frame::ResumeOk(y)) => {
                (x == y, x != y, y == x)
            }
            _ => (false, true, false),
        };
        (f == g, f != g, g == f, inner)
    })?;
    let (eq, ne, sym, inner) = r;
    ensure!(ne != eq, "== is {eq} and != is {ne}");
    ensure!(sym == eq, "== is {eq} one way and {sym} the other");
    ensure!(
        inner == (eq, !eq, eq),
        "== is {eq} for the frames, ==/!=/swapped {inner:?} for what they \
         hold"
    );
    Ok(eq)
}

fn pair(cx: &mut Cx, m: &M, f: &Frame, o: &M) -> Check {
    // Constructors that refuse a value (its own property) give no pair.
    let Ok(g) = subj(|| build(o)) else {
        cx.obs.count("refused", 1);
        return Ok(());
    };
    let told = || format!("for [{}] and [{}]", m.describe(), o.describe());
    let eq = verdict(f, &g).map_err(|e| format!("{e} {}", told()))?;
    // What the two report, against the one model.
    let same = matches(m, &g, Mode::Exact).is_ok();
    ensure!(
        eq == same,
        "== is {eq}, what they report is {}the same, {}",
        if same { "" } else { "not " },
        told()
    );
    cx.obs.count(if eq { "equal_pairs" } else { "unequal_pairs" }, 1);
    Ok(())
}

fn c15_around(cx: &mut Cx, m: &M, all: bool) -> Check {
    let f = subj(|| build(m)).map_err(|e| format!("{e} [{}]", m.describe()))?;
    pair(cx, m, &f, m)?;
    let c = subj(|| f.clone())?;
    let eq = verdict(&f, &c)?;
    ensure!(eq, "a clone is not equal [{}]", m.describe());
    let size = m.size();
    let list = fields(m.ty);
    if all && size < 3000 {
        for &w in list {
            let n = if b"mdtyx".contains(&w) { 11 } else { 3 };
            for how in 0..n {
                let at = cx.rng.u32() as usize;
                pair(cx, m, &f, &neighbour(m, w, how, at))?;
            }
        }
    } else {
        for _ in 0..if size < 3000 { 6 } else { 2 } {
            let w = *cx.rng.pick(list);
            let (how, at) = (cx.rng.below(11), cx.rng.u32() as usize);
            let mut o = neighbour(m, w, how, at);
            if cx.rng.chance(1, 4) {
                let w = *cx.rng.pick(list);
                let (how, at) = (cx.rng.below(11), cx.rng.u32() as usize);
                o = neighbour(&o, w, how, at);
            }
            pair(cx, m, &f, &o)?;
        }
    }
    cx.obs.seen(m.fingerprint());
    Ok(())
}

fn c15_sweep(cx: &mut Cx) -> Check {
    let i = match cx.thorough {
        true => cx.idx,
        false => cx.idx * 4 + cx.rng.below(4) as u64,
    };
    let m = sweep_frame(i);
    c15_around(cx, &m, true)
}

fn c15(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    cx.sample(|| m.describe());
    c15_around(cx, &m, false)
}

fn as_type(m: &M, ty: Ty) -> M {
    let mut o = M { ty, ..m.clone() };
    if matches!(ty, Ty::Setup) {
        o.resume = m.token.is_some();
    }
    if ty == Ty::MetadataPush && o.meta.is_none() {
        o.meta = o.data.clone().or(Some(Bytes::new()));
    }
    o
}

/// Frames of different types that hold the same.
fn c15_types(cx: &mut Cx) -> Check {
    let i = cx.idx as usize;
    let (a, b) = (TYPES[i % 14], TYPES[i / 14 % 14]);
    let mut m = M::blank(a);
    m.sid = 7;
    m.a = 7;
    m.b = 7;
    m.code = 0x201;
    m.mmime = Bytes::from("a/b");
    m.dmime = Bytes::from("a/b");
    match i / 196 {
        0 => {}
        1 => m.data = Some(Bytes::from("d")),
        2 => {
            m.meta = Some(Bytes::from("d"));
            m.token = Some(Bytes::from("d"));
        }
        _ => {
            m.meta = Some(Bytes::from("d"));
            m.data = Some(Bytes::from("d"));
        }
    }
    let (x, y) = (as_type(&m, a), as_type(&m, b));
    let (f, g) = subj(|| (build(&x), build(&y)))?;
    let eq = verdict(&f, &g)?;
    ensure!(
        eq == (a == b),
        "== is {eq} for [{}] and [{}]",
        x.describe(),
        y.describe()
    );
    cx.obs.count("type_pairs", 1);
    cx.obs.seen(cx.idx);
    Ok(())
}

fn c15_pairs(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    let o = gen_frame_of(cx, m.ty);
    if m.size() + o.size() > 100_000 {
        return Ok(());
    }
    let f = subj(|| build(&m))?;
    pair(cx, &m, &f, &o)?;
    cx.obs.seen(m.fingerprint() ^ o.fingerprint().rotate_left(9));
    Ok(())
}

/// Frames from the wire: what compares equal reports the same, and the same
/// bytes give equal frames, whatever buffer they came from.
fn c15_decoded(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    if m.size() > 200_000 {
        return Ok(());
    }
    let n = gen_noise(cx);
    let d = ref_encode(&m, &n);
    let list = fields(m.ty);
    let w = *cx.rng.pick(list);
    let (how, at) = (cx.rng.below(11), cx.rng.u32() as usize);
    let o = neighbour(&m, w, how, at);
    let e = ref_encode(&o, &n);
    let (a, b, c, x) = subj(|| {
        let mut s: &[u8] = &d;
        let a = Frame::decode(&mut s);
        let mut s = Bytes::from(d.clone());
        let b = Frame::decode(&mut s);
        let mut s = BytesMut::from(&d[..]);
        let c = Frame::decode(&mut s);
        let mut s: &[u8] = &e;
        (a, b, c, Frame::decode(&mut s))
    })?;
    let told = || format!("[{}]", short(&d));
    for other in [&b, &c] {
        ensure!(
            subj(|| a == *other && *other == a)?,
            "the same bytes give unequal results from different buffers {}",
            told()
        );
        if let (Ok(f), Ok(g)) = (&a, other) {
            ensure!(
                verdict(f, g).map_err(|e| format!("{e} {}", told()))?,
                "the same bytes give unequal frames {}",
                told()
            );
        }
    }
    if let (Ok(f), Ok(g)) = (&a, &x) {
        let eq = verdict(f, g)?;
        let same = matches(&as_on_wire(&m), g, Mode::Wire).is_ok();
        ensure!(
            !eq || same,
            "equal although one is not as the other: [{}] and [{}]",
            m.describe(),
            o.describe()
        );
        if d == e {
            ensure!(eq, "the same bytes give unequal frames {}", told());
        }
        cx.obs.count(if eq { "equal_decoded" } else { "unequal_decoded" }, 1);
    }
    cx.obs.seen(fnv(&d) ^ fnv(&e).rotate_left(5));
    Ok(())
}

fn c15_payloads(cx: &mut Cx) -> Check {
    let (meta, data) = parts(cx, 4000);
    let mut m = M::blank(Ty::Payload);
    m.meta = meta;
    m.data = data;
    let p = make(&m.meta, &m.data);
    for _ in 0..6 {
        let w = *cx.rng.pick(b"mdx");
        let (how, at) = (cx.rng.below(12), cx.rng.u32() as usize);
        let o = if how == 11 { m.clone() } else { neighbour(&m, w, how, at) };
        let q = make(&o.meta, &o.data);
        let same = (&o.meta, &o.data) == (&m.meta, &m.data);
        let (eq, ne, sym) = subj(|| (p == q, p != q, q == p))?;
        ensure!(
            eq == same && ne != same && sym == same,
            "payloads of {:?}/{:?} and {:?}/{:?}: ==, != and swapped are \
             {eq}, {ne}, {sym}",
            m.meta.as_ref().map(|b| short(b)),
            m.data.as_ref().map(|b| short(b)),
            o.meta.as_ref().map(|b| short(b)),
            o.data.as_ref().map(|b| short(b))
        );
        cx.obs.count(if eq { "equal_payloads" } else { "unequal_payloads" }, 1);
    }
    cx.obs.seen(m.fingerprint());
    Ok(())
}

fn c15_values(cx: &mut Cx) -> Check {
    for _ in 0..16 {
        let x = num(cx, 24) as u32;
        let y = match cx.rng.below(4) {
            0 => x,
            1 => x ^ 1 << cx.rng.below(24),
            2 => (x >> 8 | x << 16) & 0xFF_FFFF,
            _ => num(cx, 24) as u32,
        };
        let eq = subj(|| {
            let (a, b) = (U24::from_u32(x), U24::from_u32(y));
            (a == b, a != b, b == a)
        })?;
        let s = x == y;
        ensure!(eq == (s, !s, s), "24-bit integers {x} and {y}: {eq:?}");
        let (a, b) = (num(cx, 16) as u16, num(cx, 16) as u16);
        let (c, d) = match cx.rng.below(4) {
            0 => (a, b),
            1 => (b, a),
            2 => (a ^ 1 << cx.rng.below(16), b),
            _ => (a, b ^ 1 << cx.rng.below(16)),
        };
        let eq = subj(|| {
            let (x, y) = (Version::new(a, b), Version::new(c, d));
            (x == y, x != y, y == x)
        })?;
        let s = (a, b) == (c, d);
        ensure!(eq == (s, !s, s), "versions {a}.{b} and {c}.{d}: {eq:?}");
        // Decoding errors.
        let errs = [
            DecodeError::InComplete,
            DecodeError::UnrecognizedFrameType(a),
            DecodeError::UnrecognizedFrameType(c),
            DecodeError::InvalidStreamId { expected: "0", found: x },
            DecodeError::InvalidStreamId { expected: "0", found: y },
            DecodeError::InvalidStreamId { expected: "non-zero", found: x },
        ];
        for (i, e) in errs.iter().enumerate() {
            for (j, g) in errs.iter().enumerate() {
                let same = i == j
                    || (a == c && (i, j) == (1, 2) || a == c && (i, j) == (2, 1))
                    || (x == y && (i, j) == (3, 4) || x == y && (i, j) == (4, 3));
                let r = subj(|| (e == g, e != g, e.clone() == *g))?;
                ensure!(
                    r == (same, !same, same),
                    "errors '{e}' and '{g}': ==, !=, == of a clone are {r:?}"
                );
            }
        }
        cx.obs.count("values", 3);
        cx.obs.seen(mix((x as u64) << 32 | y as u64));
    }
    Ok(())
}

// --------------------------------------------------------------------- P06

const SIZES: &[usize] =
    &[0, 1, 100, 1_000, 4_096, 10_000, 65_536, 100_000, 300_000, 1 << 20];

const CHUNKS: [usize; 12] = [
    1,
    2,
    7,
    16,
    64,
    100,
    1_000,
    1_024,
    65_536,
    1 << 20,
    (1u64 << 40) as usize,
    usize::MAX,
];

/// Far above what zero-copy fragments need, far below what copying the rest
/// for each of them would.
fn room(bytes: usize, frags: usize) -> i64 {
    65_536 + 16 * bytes as i64 + 512 * frags as i64
}

fn frags(p: (usize, usize), chunk: usize) -> usize {
    let some = |n: usize| (n > 0).then_some(n);
    pieces(&some(p.0), chunk).max(pieces(&some(p.1), chunk)).max(1)
}

fn fragment(cx: &mut Cx, ml: usize, dl: usize, chunk: usize, keep: bool) -> Check {
    let n = frags((ml, dl), chunk);
    let (m, d) = (pattern(ml, 3), pattern(dl, 5));
    steps_reset(n + ml + dl);
    let outer = mem_start();
    let calls = mem_calls();
    let start = mem_total();
    let kept_room = match keep {
        true => n * std::mem::size_of::<Payload>(),
        false => 0,
    };
    let r = subj(|| {
        let p = make(&Some(m.clone()), &Some(d.clone()));
        let mut kept = Vec::with_capacity(if keep { n } else { 0 });
        let mut total = 0;
        let s = mem_start();
        for c in p.chunks(chunk) {
            total += c.len();
            if keep {
                kept.push(c);
            }
        }
        let (peak, _, big) = mem_since(s);
        (total, peak, big, mem_total())
    });
    let (total, peak, big, all) = r?;
    let all = (all - start) as i64 - kept_room as i64;
    let calls = mem_calls() - calls;
    let (_, live, _) = mem_since(outer);
    let told = format!("{ml}+{dl} bytes in chunks of {chunk} ({n} fragments)");
    ensure!(total == ml + dl, "{told}: {total} bytes came out");
    ensure!(
        peak <= room(ml + dl, n),
        "{told}: needed {peak} bytes of memory, one block of {big}"
    );
    ensure!(
        all <= room(ml + dl, n),
        "{told}: allocated {all} bytes in all"
    );
    ensure!(
        calls <= 200 + 40 * n as u64,
        "{told}: {calls} allocations"
    );
    // The parts' own handles may have grown a shared header.
    ensure!(live <= 256, "{told}: {live} bytes still allocated afterwards");
    cx.obs.count("fragments", n as u64);
    cx.obs.count("peak_bytes_seen", peak.max(0) as u64);
    cx.obs.count("allocations_seen", calls);
    cx.obs.seen(mix((ml as u64) << 40 ^ (dl as u64) << 20 ^ chunk as u64));
    Ok(())
}

fn p06_sweep(cx: &mut Cx) -> Check {
    let i = cx.idx as usize;
    let (n, chunk) = (SIZES[i / 12], CHUNKS[i % 12]);
    fragment(cx, n, n / 3, chunk, i % 2 == 0)?;
    fragment(cx, 0, n, chunk, i % 2 == 1)
}

/// Lengths, in bytes, and how they are divided.
const LARGE: [(usize, usize); 9] = [
    (5 << 20, 1024),
    (9 << 20, 4096),
    (3 << 20, 700),
    (12 << 20, 65_536),
    (14 << 20, 16_384),
    (1 << 20, 100),
    (13 << 20, 1 << 20),
    (7 << 20, 5 << 20),
    (2 << 20, 256),
];

/// Megabytes, of data or of both.
fn large(cx: &mut Cx) -> (usize, usize, usize) {
    let i = cx.idx as usize;
    let (n, chunk) = LARGE[i % LARGE.len()];
    let n = n + cx.rng.below(n / 8);
    let chunk = chunk + cx.rng.below(chunk / 4);
    if cfg!(miri) {
        return (0, 300, 20);
    }
    match i / LARGE.len() % 3 {
        0 => (0, n, chunk),
        1 => (n / 2, n / 2, chunk),
        _ => (n.min(0xFF_FFFF), 0, chunk),
    }
}

fn p06_large(cx: &mut Cx) -> Check {
    let (a, b, chunk) = large(cx);
    cx.obs.count("megabytes", (a + b >> 20) as u64);
    fragment(cx, a, b, chunk, cx.idx % 2 == 0)
}

fn some_sizes(cx: &mut Cx) -> (usize, usize, usize) {
    let (a, b) = (len(cx, 200_000), len(cx, 200_000));
    let chunk = match cx.rng.below(4) {
        0 => *cx.rng.pick(&CHUNKS),
        1 => 1 + cx.rng.below(300),
        2 => 1 + cx.rng.below(a.max(b) + 2),
        _ => 1 + num(cx, 63) as usize,
    };
    (a, b, chunk)
}

fn p06(cx: &mut Cx) -> Check {
    let (a, b, chunk) = some_sizes(cx);
    let keep = cx.rng.bool();
    cx.sample(|| format!("{a}+{b} in chunks of {chunk}"));
    fragment(cx, a, b, chunk, keep)
}

/// Encoding needs room for what is encoded.
fn p06_encode(cx: &mut Cx) -> Check {
    let m = gen_frame(cx);
    let f = subj(|| build(&m))?;
    let outer = mem_start();
    let into = cx.rng.bool();
    let (n, peak, big) = subj(|| {
        let s = mem_start();
        let n = if into {
            let mut o = BytesMut::new();
            f.encode(&mut o);
            o.len()
        } else {
            f.to_bytes().len()
        };
        let (peak, _, big) = mem_since(s);
        (n, peak, big)
    })?;
    let (_, live, _) = mem_since(outer);
    ensure!(
        peak <= 65_536 + 8 * n as i64,
        "encoding {n} bytes needed {peak}, one block of {big} [{}]",
        m.describe()
    );
    ensure!(
        live <= 0,
        "{live} bytes still allocated after encoding [{}]",
        m.describe()
    );
    cx.obs.count("encoded", 1);
    cx.obs.count("peak_bytes_seen", peak.max(0) as u64);
    cx.obs.seen(m.fingerprint());
    Ok(())
}

#[cfg(feature = "h-buf")]
mod hooks {
    use super::*;
    use binate::connection::verif::FragmentBuffer;

    fn reassemble(cx: &mut Cx, ml: usize, dl: usize, chunk: usize) -> Check {
        let (m, d) = (pattern(ml, 3), pattern(dl, 5));
        let some = |b: Bytes| (!b.is_empty()).then_some(b);
        let p = make(&some(m.clone()), &some(d.clone()));
        let mut frames = vec![];
        let mut x = M::blank(Ty::Payload);
        x.sid = 3;
        x.follows = true;
        for c in subj(|| p.chunks(chunk).collect::<Vec<_>>())? {
            let (a, b) = c.split();
            (x.meta, x.data) = (a, b);
            frames.push(Bytes::from(ref_encode(&x, &Noise::default())));
        }
        drop(x);
        let n = frames.len();
        steps_reset(n + ml + dl);
        let outer = mem_start();
        let calls = mem_calls();
        let start = mem_total();
        let (got, peak, big) = subj(|| {
            let mut l = FragmentBuffer::new();
            for f in &frames {
                l.push(f.clone());
            }
            let got = l.into_payload();
            let (peak, _, big) = mem_since(outer);
            (got.map(|p| p.len()), peak, big)
        })?;
        let all = (mem_total() - start) as i64;
        let calls = mem_calls() - calls;
        let (_, live, _) = mem_since(outer);
        let told = format!("{ml}+{dl} bytes in {n} fragments of {chunk}");
        ensure!(got == Ok(ml + dl), "{told} reassemble to {got:?}");
        ensure!(
            peak <= room(ml + dl, n),
            "{told}: reassembling needed {peak} bytes of memory, one block \
             of {big}"
        );
        ensure!(
            all <= room(ml + dl, n),
            "{told}: reassembling allocated {all} bytes in all"
        );
        ensure!(
            calls <= 400 + 60 * n as u64,
            "{told}: {calls} allocations to reassemble"
        );
        // Handles on the fragments may have grown a shared header each.
        ensure!(
            live <= 256 * (n as i64 + 1),
            "{told}: {live} bytes still allocated after reassembling"
        );
        cx.obs.count("reassembled_fragments", n as u64);
        cx.obs.count("peak_bytes_seen", peak.max(0) as u64);
        cx.obs.count("allocations_seen", calls);
        cx.obs.seen(mix((ml as u64) << 40 ^ (dl as u64) << 20 ^ chunk as u64) ^ 1);
        Ok(())
    }

    pub fn p06_sweep(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let (n, chunk) = (SIZES[i / 12], CHUNKS[i % 12]);
        if n / chunk > 120_000 {
            return Ok(());
        }
        reassemble(cx, n / 3, n, chunk.min(n.max(1)))
    }

    pub fn p06_large(cx: &mut Cx) -> Check {
        let (a, b, chunk) = large(cx);
        cx.obs.count("megabytes", (a + b >> 20) as u64);
        reassemble(cx, a, b, chunk)
    }

    pub fn p06(cx: &mut Cx) -> Check {
        let (a, b, chunk) = some_sizes(cx);
        reassemble(cx, a, b, chunk.min(a.max(b).max(1)))
    }
}
