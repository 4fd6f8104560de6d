//! P01-P05: payloads, fragmenting, reassembly, the fragment buffer.
use crate::gen::*;
use crate::kit::*;
use crate::p_giant::{alone, giant, GIANT};
use binate::prelude::*;
use binate::Payload as RootPayload;
use bytes::{BufMut, Bytes, BytesMut};

pub fn workloads(prop: &str) -> Vec<Workload> {
    match prop {
        "P01" => vec![
            sweep("parts", 70 * 70, 300 * 300, p01_parts),
            sweep("utf8-pairs", 65_536, 65_536, p01_utf8_pairs),
            random("builder", 3, p01),
            random("utf8", 2, p01_utf8),
            sweep("chars", CHARS, CHARS, p01_chars),
        ],
        "P02" => vec![
            sweep("lengths-x-chunks", 14 * 14 * 15, 42 * 42 * 42, p02_sweep),
            random("chunks", 4, p02),
            sweep("many-chunks", 9 * 5, 9 * 8, p02_many),
            sweep("beyond-32-bits", GIANTS, GIANTS, p02_giants),
            random("long", 1, p02_long),
        ],
        "P03" => vec![
            sweep("counts", 14 * 14 * 15, 42 * 42 * 42, p03_sweep),
            sweep("huge", HUGE.len() as u64 * 8, HUGE.len() as u64 * 8, p03_huge),
            random("counting", 4, p03),
            random("skipping", 3, p03_skip),
            sweep("zero", 64, 64, p03_zero),
            sweep("many-chunks", 9 * 5, 9 * 8, p03_many),
            sweep("beyond-32-bits", GIANTS, GIANTS, p03_giants),
        ],
        #[cfg(feature = "h-buf")]
        "P04" => vec![
            sweep("cuts", 12 * 12 * 12 * 6, 24 * 24 * 24 * 6, hooks::p04_sweep),
            random("reassembly", 4, hooks::p04),
            random("corrupt", 3, hooks::p04_corrupt),
            random("chunked", 2, hooks::p04_chunked),
            sweep("large", 14 * 5 * 2, 14 * 5 * 2, hooks::p04_large),
            sweep("many-fragments", 5 * 4, 8 * 4, hooks::p04_many),
            sweep("long-totals", 4 * 2, 8 * 2, hooks::p04_totals),
        ],
        #[cfg(feature = "h-buf")]
        "P05" => vec![
            sweep("single-ops", 4_000, 40_000, hooks::p05_sweep),
            sweep("large", 14 * 4 * 9, 14 * 4 * 9, hooks::p05_large),
            sweep("many-segments", 5 * 9, 8 * 9, hooks::p05_many),
            sweep("beyond-32-bits", 9 * 12, 9 * 12, hooks::p05_giants),
            random("sequence", 5, hooks::p05),
            random("nested", 1, hooks::p05_nested),
            random("beyond", 2, hooks::p05_beyond),
        ],
        _ => vec![],
    }
}

/// The same bytes behind differently built handles.
pub fn wrap(cx: &mut Cx, v: Vec<u8>) -> Bytes {
    match cx.rng.below(6) {
        0 => Bytes::copy_from_slice(&v),
        1 => {
            let mut w = Vec::with_capacity(v.len() + 9);
            w.extend_from_slice(&v);
            Bytes::from(w)
        }
        2 => {
            let mut w = vec![0xEE; 3];
            w.extend_from_slice(&v);
            w.extend_from_slice(&[0xDD; 5]);
            let n = w.len();
            Bytes::from(w).slice(3..n - 5)
        }
        3 => {
            let mut b = BytesMut::with_capacity(v.len() + 4);
            b.put_slice(&[1, 2, 3]);
            b.put_slice(&v);
            let _ = b.split_to(3);
            b.freeze()
        }
        4 => {
            let b = Bytes::from(v);
            let c = b.clone();
            drop(b);
            c
        }
        _ => Bytes::from(v),
    }
}

/// Two parts, sometimes alike, sometimes with the same storage.
fn wparts(cx: &mut Cx, max: usize) -> (Option<Bytes>, Option<Bytes>) {
    let (a, b) = parts(cx, max);
    let keep = cx.rng.bool();
    let mut w = |o: Option<Bytes>| o.map(|b| if keep { b } else { wrap(cx, b.to_vec()) });
    (w(a), w(b))
}

pub fn make(meta: &Option<Bytes>, data: &Option<Bytes>) -> Payload {
    let mut b = Payload::builder();
    if let Some(m) = meta {
        b = b.set_metadata(m.clone());
    }
    if let Some(d) = data {
        b = b.set_data(d.clone());
    }
    b.build()
}

fn olen(b: &Option<Bytes>) -> String {
    match b {
        None => "absent".into(),
        Some(b) => format!("{} bytes", b.len()),
    }
}

fn shape(m: &Option<Bytes>, d: &Option<Bytes>, k: u64) -> u64 {
    mix(len_class(m.as_ref().map(|b| b.len()))
        ^ mix(len_class(d.as_ref().map(|b| b.len())) ^ mix(k)))
}

/// Everything a payload answers, against the parts it was given.
fn p01_check(
    cx: &mut Cx,
    p: &Payload,
    m: &Option<Bytes>,
    d: &Option<Bytes>,
) -> Check {
    let who = || {
        format!(
            " [metadata {}, data {}]",
            m.as_ref().map(|b| crate::model::short(b)).unwrap_or("absent".into()),
            d.as_ref().map(|b| crate::model::short(b)).unwrap_or("absent".into())
        )
    };
    let r = subj(|| -> Check {
        ensure!(p.metadata() == m.as_ref(), "metadata() is {:?}", p.metadata().map(|b| b.len()));
        ensure!(p.data() == d.as_ref(), "data() is {:?}", p.data().map(|b| b.len()));
        ensure!(p.has_metadata() == m.is_some(), "has_metadata() is {}", p.has_metadata());
        ensure!(p.has_data() == d.is_some(), "has_data() is {}", p.has_data());
        let total = m.as_ref().map_or(0, |b| b.len())
            + d.as_ref().map_or(0, |b| b.len());
        ensure!(Payload::len(p) == total, "len() is {}, parts have {total}", Payload::len(p));
        ensure!(Payload::is_empty(p) == (total == 0), "is_empty() is {}", Payload::is_empty(p));
        let mut cat = vec![];
        for b in [m, d].into_iter().flatten() {
            cat.extend_from_slice(b);
        }
        use binate::frame::Encode;
        ensure!(Encode::len(p) == total, "encoded length is {}", Encode::len(p));
        let mut out = BytesMut::from(&b"pre"[..]);
        p.encode(&mut out);
        ensure!(out.starts_with(b"pre") && out[3..] == cat[..], "encodes as {:?}", crate::model::short(&out[3..]));
        ensure!(p.to_bytes()[..] == cat[..], "to_bytes differs");
        for (name, part, view) in [
            ("metadata", m, p.metadata_utf8()),
            ("data", d, p.data_utf8()),
        ] {
            let raw: &[u8] = part.as_ref().map_or(&[], |b| b);
            match (utf8_ok(raw), view) {
                (None, Ok(s)) => {
                    ensure!(s.as_bytes() == raw, "{name}_utf8 returns other text")
                }
                (Some(at), Err(e)) => ensure!(
                    e.valid_up_to() == at,
                    "{name}_utf8 error says valid up to {}, it is {at}",
                    e.valid_up_to()
                ),
                (None, Err(e)) => {
                    return Err(format!("{name}_utf8 fails on valid text: {e}"))
                }
                (Some(_), Ok(_)) => {
                    return Err(format!("{name}_utf8 accepts invalid text"))
                }
            }
        }
        let q = p.clone();
        ensure!(q == *p, "clone differs");
        let (sm, sd) = q.split();
        ensure!(sm == *m && sd == *d, "split() gives other parts");
        ensure!(!format!("{p:?}").is_empty(), "no debug text");
        Ok(())
    });
    cx.obs.count("payloads_checked", 1);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{e}{}", who())),
        Err(e) => Err(format!("{e}{}", who())),
    }
}

/// Where a byte string stops being UTF-8, decided from the definition.
pub fn utf8_ok(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() {
        let at = |k: usize| b.get(i + k).copied().unwrap_or(0);
        let cont = |k: usize| at(k) & 0xC0 == 0x80;
        let n = match b[i] {
            0..=0x7F => 1,
            0xC2..=0xDF if cont(1) => 2,
            0xE0 if (0xA0..=0xBF).contains(&at(1)) && cont(2) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if cont(1) && cont(2) => 3,
            0xED if (0x80..=0x9F).contains(&at(1)) && cont(2) => 3,
            0xF0 if (0x90..=0xBF).contains(&at(1)) && cont(2) && cont(3) => 4,
            0xF1..=0xF3 if cont(1) && cont(2) && cont(3) => 4,
            0xF4 if (0x80..=0x8F).contains(&at(1)) && cont(2) && cont(3) => 4,
            _ => return Some(i),
        };
        i += n;
    }
    None
}

fn some_len(i: u64) -> Option<usize> {
    if i == 0 {
        None
    } else {
        Some(i as usize - 1)
    }
}

fn numbered(n: Option<usize>, k: u8) -> Option<Bytes> {
    n.map(|n| {
        Bytes::from(
            (0..n)
                .map(|i| {
                    (i as u8).wrapping_mul(29).wrapping_add((i >> 8) as u8) ^ k
                })
                .collect::<Vec<u8>>(),
        )
    })
}

fn p01_parts(cx: &mut Cx) -> Check {
    let side = if cx.thorough { 300 } else { 70 };
    let m = numbered(some_len(cx.idx % side), 0);
    let d = numbered(some_len(cx.idx / side), 0x80);
    cx.obs.seen(cx.idx);
    let p = subj(|| make(&m, &d))?;
    p01_check(cx, &p, &m, &d)
}

fn p01_utf8_pairs(cx: &mut Cx) -> Check {
    let (a, b) = (cx.idx as u8, (cx.idx >> 8) as u8);
    let x = Bytes::from(vec![b'x', a, b]);
    let y = Bytes::from(vec![0xE2, a, b, b'y']);
    cx.obs.seen(cx.idx);
    let (m, d) = (Some(x), Some(y));
    let p = subj(|| make(&m, &d))?;
    p01_check(cx, &p, &m, &d)?;
    let p = subj(|| make(&d, &m))?;
    p01_check(cx, &p, &d, &m)
}

fn p01(cx: &mut Cx) -> Check {
    let mut m = None;
    let mut d = None;
    let mut b = if cx.rng.bool() {
        RootPayload::builder()
    } else {
        PayloadBuilder::new()
    };
    let mut calls = vec![];
    let max = 1 << 24;
    for _ in 0..cx.rng.below(6) {
        let n = len(cx, max);
        let v = bytes_of(cx, n);
        let v = wrap(cx, v.to_vec());
        // Sometimes what was set before, or nearly.
        let old = [&m, &d][cx.rng.below(2)].clone();
        let v = match old {
            Some(o) if cx.rng.chance(1, 6) => alike(cx, &o),
            _ => v,
        };
        if cx.rng.bool() {
            calls.push(1 + 2 * len_class(Some(v.len())));
            m = Some(v.clone());
            b = subj(|| match cx.rng.below(3) {
                0 => b.set_metadata(v.to_vec()),
                _ => b.set_metadata(v),
            })?;
        } else {
            calls.push(2 * len_class(Some(v.len())));
            d = Some(v.clone());
            b = subj(|| match cx.rng.below(3) {
                0 => b.set_data(v.to_vec()),
                _ => b.set_data(v),
            })?;
        }
    }
    let p = subj(|| b.build())?;
    cx.obs.seen(calls.iter().fold(7, |a, b| mix(a ^ b)));
    cx.sample(|| format!("{} builder calls; metadata {}, data {}", calls.len(), olen(&m), olen(&d)));
    p01_check(cx, &p, &m, &d)?;
    // Equality tells payloads apart.
    let (mut m2, mut d2) = (m.clone(), d.clone());
    let change = |o: &mut Option<Bytes>, r: &mut Rng| match o {
        None => *o = Some(Bytes::new()),
        Some(b) if b.is_empty() => *o = None,
        Some(b) => {
            let mut v = b.to_vec();
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
            *o = Some(v.into());
        }
    };
    if cx.rng.bool() {
        change(&mut m2, &mut cx.rng)
    } else {
        change(&mut d2, &mut cx.rng)
    }
    let same = subj(|| make(&m, &d) == p && make(&m2, &d2) != p)?;
    ensure!(same, "payload equality is wrong [metadata {}, data {}]", olen(&m), olen(&d));
    let dflt = subj(Payload::default)?;
    p01_check(cx, &dflt, &None, &None)
}

/// Text and near-text.
fn text(cx: &mut Cx) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..cx.rng.below(12) {
        match cx.rng.below(14) {
            12 | 13 => v.extend_from_slice(cx.rng.pick(NOTABLE)),
            0 => {
                // Any four bytes that look like a sequence.
                let k = *cx.rng.pick(&[0xC0u8, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF]);
                v.push(k);
                for _ in 0..cx.rng.below(4) {
                    v.push(*cx.rng.pick(&[0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0x00]));
                }
            }
            1 => v.push(cx.rng.u32() as u8),
            2 => v.push(0),
            3..=6 => {
                let c = char::from_u32(cx.rng.below(0x110000) as u32).unwrap_or('\u{FFFD}');
                let mut t = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
            }
            _ => v.push(0x20 + cx.rng.below(95) as u8),
        }
    }
    if cx.rng.chance(1, 8) && !v.is_empty() {
        v.pop();
    }
    v
}

fn p01_utf8(cx: &mut Cx) -> Check {
    let m = if cx.rng.chance(1, 8) { None } else { Some(Bytes::from(text(cx))) };
    let d = if cx.rng.chance(1, 8) { None } else { Some(Bytes::from(text(cx))) };
    let ok = |o: &Option<Bytes>| o.as_ref().is_none_or(|b| utf8_ok(b).is_none());
    cx.obs.count(if ok(&m) { "metadata_text" } else { "metadata_not_text" }, 1);
    cx.obs.count(if ok(&d) { "data_text" } else { "data_not_text" }, 1);
    cx.obs.seen(fnv(m.as_ref().map_or(b"-", |b| b)) ^ mix(fnv(d.as_ref().map_or(b"-", |b| b))));
    let p = subj(|| make(&m, &d))?;
    p01_check(cx, &p, &m, &d)
}

/// Every character, in front, behind and on its own.
fn p01_chars(cx: &mut Cx) -> Check {
    cx.obs.seen(cx.idx);
    for s in chars(cx.idx) {
        let s = Some(Bytes::from(s));
        let p = subj(|| make(&s, &s))?;
        p01_check(cx, &p, &s, &s)?;
    }
    Ok(())
}

// ------------------------------------------------------------------- P02

/// Length of piece `i` of a part; `None` past its end.
fn piece(n: &Option<usize>, chunk: usize, i: usize) -> Option<usize> {
    let n = (*n)?;
    if n == 0 {
        return if i == 0 { Some(0) } else { None };
    }
    let from = i.checked_mul(chunk)?;
    if from >= n {
        None
    } else {
        Some(chunk.min(n - from))
    }
}

pub fn pieces(n: &Option<usize>, chunk: usize) -> usize {
    match n {
        None => 0,
        Some(0) => 1,
        Some(n) => (n - 1) / chunk + 1,
    }
}

pub fn total_pieces(m: Option<usize>, d: Option<usize>, chunk: usize) -> usize {
    pieces(&m, chunk).max(pieces(&d, chunk))
}

fn p02_check(cx: &mut Cx, m: Option<Bytes>, d: Option<Bytes>, chunk: usize) -> Check {
    let (lm, ld) = (m.as_ref().map(|b| b.len()), d.as_ref().map(|b| b.len()));
    let total = total_pieces(lm, ld, chunk);
    cx.obs.seen(shape(&m, &d, chunk as u64));
    let mut got = 0;
    let r = subj(|| -> Check {
        let p = make(&m, &d);
        let mut it = p.chunks(chunk);
        for i in 0.. {
            let Some(c) = it.next() else { break };
            got += 1;
            ensure!(i < total, "chunk {i} appears, {total} were due");
            ensure!(c.has_metadata() || c.has_data(), "chunk {i} is entirely absent");
            for (name, whole, n, part) in [
                ("metadata", &m, &lm, c.metadata()),
                ("data", &d, &ld, c.data()),
            ] {
                match (piece(n, chunk, i), part) {
                    (None, None) => {}
                    (Some(k), Some(b)) => {
                        ensure!(b.len() == k, "{name} of chunk {i} has {} bytes, not {k}", b.len());
                        let whole = whole.as_ref().unwrap();
                        ensure!(k == 0 || b[..] == whole[i * chunk..i * chunk + k], "{name} of chunk {i} has the wrong content");
                    }
                    (e, g) => {
                        return Err(format!(
                            "{name} of chunk {i} is {:?} bytes, should be {:?}",
                            g.map(|b| b.len()),
                            e
                        ))
                    }
                }
            }
        }
        ensure!(got == total, "{got} chunks appeared, {total} were due");
        for _ in 0..3 {
            ensure!(it.next().is_none(), "a chunk appears after the end");
        }
        Ok(())
    });
    cx.obs.count("chunks_checked", got as u64);
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    r.map_err(|e| format!("{e} [metadata {}, data {}, chunk size {chunk}]", olen(&m), olen(&d)))
}

fn small(idx: u64, thorough: bool) -> (Option<usize>, Option<usize>, usize) {
    let (a, c) = if thorough { (42, 42) } else { (14, 15) };
    let m = some_len(idx % a);
    let d = some_len(idx / a % a);
    (m, d, (idx / a / a % c) as usize + 1)
}

fn p02_sweep(cx: &mut Cx) -> Check {
    let (m, d, c) = small(cx.idx, cx.thorough);
    p02_check(cx, numbered(m, 0), numbered(d, 0x80), c)
}

/// A chunk size worth trying with parts of these lengths.
fn chunk_size(cx: &mut Cx, a: usize, b: usize) -> usize {
    let big = a.max(b);
    let base = if cx.rng.bool() { a } else { b };
    let c = match cx.rng.below(12) {
        0 => 1,
        1 => base,
        2 => base + 1,
        3 => base.saturating_sub(1),
        4 => base / cx.rng.range(2, 9),
        5 => base / cx.rng.range(2, 9) + 1,
        6 => *cx.rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 1, u32::MAX as usize, 1 << 31, 1 << 24, MAX24, 1 << 62, 1 << 63]),
        7 => 1 << cx.rng.below(64),
        8 => cx.rng.range(1, big.max(1) + 2),
        9 => num(cx, 64) as usize,
        _ => cx.rng.range(1, 70),
    };
    // Bounds the number of chunks.
    c.max(big / 20_000).max(1)
}

fn p02(cx: &mut Cx) -> Check {
    let (m, d) = wparts(cx, 1 << 24);
    let d = if cx.rng.chance(1, 5) && m.is_some() {
        // Related lengths.
        let n = m.as_ref().unwrap().len();
        let n = match cx.rng.below(4) {
            0 => n,
            1 => n + 1,
            2 => n * 2,
            _ => n / 2,
        };
        Some(Bytes::from(content(cx, n)))
    } else {
        d
    };
    let c = chunk_size(cx, m.as_ref().map_or(0, |b| b.len()), d.as_ref().map_or(0, |b| b.len()));
    cx.sample(|| format!("metadata {}, data {}, chunk size {c}", olen(&m), olen(&d)));
    p02_check(cx, m, d, c)
}

fn p02_long(cx: &mut Cx) -> Check {
    let n = cx.rng.range(1, 60_000);
    let k = cx.rng.range(1, 16);
    let a = Some(Bytes::from(content(cx, n)));
    let b = match cx.rng.below(3) {
        0 => None,
        1 => Some(Bytes::new()),
        _ => {
            let n = cx.rng.range(1, 60_000);
            Some(Bytes::from(content(cx, n)))
        }
    };
    if cx.rng.bool() {
        p02_check(cx, a, b, k)
    } else {
        p02_check(cx, b, a, k)
    }
}

/// As many chunks as it takes for small counters to wrap.
const NUMBERS: [usize; 8] = [65_535, 65_536, 65_537, 70_001, 131_073, 262_145, 524_289, 1 << 20];

fn numbers(i: u64) -> (Option<Bytes>, Option<Bytes>, usize) {
    let i = i as usize;
    let chunk = [1, 2, 3][i / 3 % 3];
    let n = NUMBERS[i / 9] * chunk - i % chunk;
    let long = numbered(Some(n), i as u8);
    match i % 3 {
        0 => (None, long, chunk),
        1 => (long, numbered(Some(n / 2), 3), chunk),
        _ => (numbered(Some(i % 5), 7), long, chunk),
    }
}

fn p02_many(cx: &mut Cx) -> Check {
    let (m, d, chunk) = numbers(cx.idx);
    p02_check(cx, m, d, chunk)
}

const GIANTS: u64 = 6 * 8;

/// Parts longer than 32 bits count, with what should come of them.
fn giants(i: u64) -> (Option<Bytes>, Option<Bytes>, usize) {
    let i = i as usize;
    let n = [(1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 77, GIANT, (1 << 31) + 1][i % 6];
    let chunk = [1 << 26, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, n / 2 + 1, usize::MAX][i / 6];
    let long = Some(Bytes::from_static(&giant()[..n]));
    let other = match i % 4 {
        0 => None,
        1 => Some(Bytes::from_static(&giant()[..n / 2])),
        2 => Some(Bytes::from_static(b"small")),
        _ => long.clone(),
    };
    if i % 2 == 0 {
        (long, other, chunk)
    } else {
        (other, long, chunk)
    }
}

fn p02_giants(cx: &mut Cx) -> Check {
    let Some(_one) = alone(cx) else { return Ok(()) };
    let (m, d, chunk) = giants(cx.idx);
    let (lm, ld) = (m.as_ref().map(|b| b.len()), d.as_ref().map(|b| b.len()));
    let total = total_pieces(lm, ld, chunk);
    cx.obs.seen(shape(&m, &d, chunk as u64));
    cx.obs.count("giant_payloads", 1);
    let r = subj(|| -> Check {
        let p = make(&m, &d);
        ensure!(Payload::len(&p) == lm.unwrap_or(0) + ld.unwrap_or(0), "len() is {}", Payload::len(&p));
        let mut got = 0;
        for (i, c) in p.chunks(chunk).take(total + 2).enumerate() {
            got += 1;
            for (name, n, part) in [("metadata", &lm, c.metadata()), ("data", &ld, c.data())] {
                let want = piece(n, chunk, i);
                ensure!(want == part.map(|b| b.len()), "{name} of chunk {i} is {:?} bytes, should be {want:?}", part.map(|b| b.len()));
                let Some(b) = part else { continue };
                let whole: &[u8] = if b.len() == 5 { b"small" } else { &giant()[i * chunk..][..b.len()] };
                let k = b.len().min(50);
                ensure!(b[..k] == whole[..k] && b[b.len() - k..] == whole[b.len() - k..], "{name} of chunk {i} has the wrong content");
            }
        }
        ensure!(got == total, "{got} chunks appeared, {total} were due");
        Ok(())
    });
    r.and_then(|x| x).map_err(|e| format!("{e} [metadata {lm:?} bytes, data {ld:?} bytes, chunk size {chunk}]"))
}

fn p03_giants(cx: &mut Cx) -> Check {
    let Some(_one) = alone(cx) else { return Ok(()) };
    let (m, d, chunk) = giants(cx.idx);
    cx.obs.count("giant_payloads", 1);
    // `Debug` and comparisons would read all of it.
    let r = subj(|| -> Check {
        let mut it = make(&m, &d).chunks(chunk);
        let total = make(&m, &d).chunks(chunk).take(100).count();
        for taken in 0..=total {
            let left = total - taken;
            let h = it.size_hint();
            ensure!(h == (left, Some(left)) && it.len() == left, "size_hint() is {h:?} after {taken} chunks, {left} are still to come");
            ensure!(it.next().is_some() == (left > 0), "not {total} chunks come");
        }
        let at = total / 2;
        ensure!(make(&m, &d).chunks(chunk).nth(total).is_none(), "nth({total}) gives a chunk");
        ensure!(make(&m, &d).chunks(chunk).nth(at).is_some(), "nth({at}) gives no chunk of {total}");
        ensure!(make(&m, &d).chunks(chunk).count() == total, "count() is not {total}");
        Ok(())
    });
    cx.obs.seen(shape(&m, &d, chunk as u64));
    let l = |b: &Option<Bytes>| b.as_ref().map(|b| b.len());
    r.and_then(|x| x).map_err(|e| format!("{e} [metadata {:?} bytes, data {:?} bytes, chunk size {chunk}]", l(&m), l(&d)))
}

fn p03_many(cx: &mut Cx) -> Check {
    let (m, d, chunk) = numbers(cx.idx);
    p03_check(cx, &m, &d, chunk, None)
}

// ------------------------------------------------------------------- P03

/// Steps through the chunks, comparing what is announced with what comes.
fn p03_check(
    cx: &mut Cx,
    m: &Option<Bytes>,
    d: &Option<Bytes>,
    chunk: usize,
    from_model: Option<usize>,
) -> Check {
    cx.obs.seen(shape(m, d, chunk as u64));
    let mut steps = 0;
    let r = subj(|| -> Check {
        // What is delivered, by stepping; very long ones from the model.
        let total = match from_model {
            Some(n) => n,
            None => {
                let mut it = make(m, d).chunks(chunk);
                let cap = total_pieces(m.as_ref().map(|b| b.len()), d.as_ref().map(|b| b.len()), chunk) + 4;
                let mut n = 0;
                while n <= cap && it.next().is_some() {
                    n += 1;
                }
                n
            }
        };
        let mut it = make(m, d).chunks(chunk);
        let mut taken = 0;
        loop {
            let left = total - taken;
            let h = it.size_hint();
            ensure!(h == (left, Some(left)), "size_hint() is {h:?} after {taken} chunks, {left} are still to come");
            let l = it.len();
            ensure!(l == left, "len() is {l} after {taken} chunks, {left} are still to come");
            steps += 1;
            if from_model.is_some() && taken >= 40 {
                break;
            }
            if it.next().is_none() {
                ensure!(left == 0, "the end comes after {taken} of {total} chunks");
                break;
            }
            taken += 1;
            ensure!(taken <= total, "more than {total} chunks come");
        }
        if from_model.is_none() {
            let h = it.size_hint();
            ensure!(h == (0, Some(0)) && it.len() == 0, "size_hint() is {h:?} after the end");
            let all: Vec<Payload> = make(m, d).chunks(chunk).collect();
            ensure!(all.len() == total, "collecting gives {} chunks, stepping {total}", all.len());
            let n = make(m, d).chunks(chunk).count();
            ensure!(n == total, "count() is {n}, stepping gives {total}");
            let last = make(m, d).chunks(chunk).last();
            ensure!(last.as_ref() == all.last(), "last() is not the last chunk");
        }
        Ok(())
    });
    cx.obs.count("announcements_compared", steps);
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    r.map_err(|e| format!("{e} [metadata {}, data {}, chunk size {chunk}]", olen(m), olen(d)))
}

fn p03_sweep(cx: &mut Cx) -> Check {
    let (m, d, c) = small(cx.idx, cx.thorough);
    p03_check(cx, &numbered(m, 0), &numbered(d, 0x80), c, None)
}

const HUGE: [usize; 14] = [
    (1 << 24) - 1,
    1 << 24,
    (1 << 24) + 1,
    (1 << 24) + 3,
    (1 << 25) + 1,
    (1 << 25) + 3,
    (1 << 26) - 1,
    (1 << 26) + 1,
    (1 << 26) + 5,
    (1 << 27) - 1,
    (1 << 27) + 1,
    (1 << 27) + 9,
    100_000_007,
    (1 << 28) - 1,
];
// Never touched, so never resident.
static ZEROS: [u8; 1 << 28] = [0; 1 << 28];

fn p03_huge(cx: &mut Cx) -> Check {
    let n = HUGE[cx.idx as usize % HUGE.len()];
    let a = Some(Bytes::from_static(&ZEROS[..n]));
    let b = match cx.rng.below(4) {
        0 => None,
        1 => Some(Bytes::new()),
        2 => Some(Bytes::from_static(&ZEROS[..1000])),
        _ => Some(Bytes::from_static(&ZEROS[..n - cx.rng.below(3)])),
    };
    let c = match cx.idx as usize / HUGE.len() {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 7,
        4 => n / 1000 + 1,
        5 => n - 1,
        6 => 1 << 20,
        _ => 65_521,
    };
    let t = total_pieces(a.as_ref().map(|b| b.len()), b.as_ref().map(|b| b.len()), c);
    let model = if t > 20_000 { Some(t) } else { None };
    if cx.rng.bool() {
        p03_check(cx, &a, &b, c, model)
    } else {
        p03_check(cx, &b, &a, c, model)
    }
}

fn p03(cx: &mut Cx) -> Check {
    let (m, d) = wparts(cx, 1 << 24);
    let c = chunk_size(cx, m.as_ref().map_or(0, |b| b.len()), d.as_ref().map_or(0, |b| b.len()));
    cx.sample(|| format!("metadata {}, data {}, chunk size {c}", olen(&m), olen(&d)));
    p03_check(cx, &m, &d, c, None)
}

/// Skipping agrees with stepping.
fn p03_skip(cx: &mut Cx) -> Check {
    let max = 400;
    let (m, d) = wparts(cx, max);
    let c = if cx.rng.bool() {
        cx.rng.range(1, 40)
    } else {
        chunk_size(cx, m.as_ref().map_or(0, |b| b.len()), d.as_ref().map_or(0, |b| b.len()))
    };
    cx.obs.seen(shape(&m, &d, c as u64 ^ 0x5555));
    let mut log = vec![];
    let rng = &mut cx.rng;
    let mut ops = 0;
    let r = subj(|| -> Check {
        let all: Vec<Payload> = {
            let mut it = make(&m, &d).chunks(c);
            let mut v = vec![];
            while let Some(x) = it.next() {
                v.push(x);
                if v.len() > 2000 {
                    return Err("more than 2000 chunks of at most 400 bytes".into());
                }
            }
            v
        };
        let mut it = make(&m, &d).chunks(c);
        let mut at = 0usize;
        for _ in 0..rng.range(1, 8) {
            ops += 1;
            match rng.below(8) {
                0..=2 => {
                    let k = if rng.chance(1, 6) { rng.below(500) } else { rng.below(5) };
                    log.push(format!("nth({k})"));
                    let g = it.nth(k);
                    ensure!(g.as_ref() == all.get(at + k), "nth({k}) differs from stepping");
                    at = (at + k + 1).min(all.len());
                }
                3 => {
                    log.push("next".into());
                    let g = it.next();
                    ensure!(g.as_ref() == all.get(at), "next() differs from stepping");
                    at = (at + 1).min(all.len());
                }
                4 => {
                    let k = rng.range(1, 4);
                    log.push(format!("step_by({k}).take(2)"));
                    let g: Vec<Payload> = it.by_ref().step_by(k).take(2).collect();
                    let want: Vec<Payload> = all[at..].iter().step_by(k).take(2).cloned().collect();
                    ensure!(g == want, "step_by({k}) differs from stepping");
                    // How many it consumed is up to step_by; it is only
                    // known when it stayed within the sequence.
                    if want.len() == 2 {
                        at += k + 1;
                    } else {
                        break;
                    }
                }
                5 => {
                    let k = rng.below(4);
                    log.push(format!("skip({k})"));
                    let h = it.by_ref().skip(k).size_hint();
                    let want = (all.len() - at).saturating_sub(k);
                    ensure!(h == (want, Some(want)), "skip({k}) announces {h:?}, {want} will come");
                }
                6 => {
                    log.push("take+collect".into());
                    let k = rng.below(4);
                    let g: Vec<Payload> = it.by_ref().take(k).collect();
                    let to = (at + k).min(all.len());
                    ensure!(g == all[at..to], "take({k}) differs from stepping");
                    at = to;
                }
                _ => {
                    log.push("fold".into());
                    let mut k = at;
                    let mut same = true;
                    it.by_ref().for_each(|x| {
                        same &= Some(&x) == all.get(k);
                        k += 1;
                    });
                    ensure!(same && k == all.len(), "for_each differs from stepping");
                    at = all.len();
                }
            }
            let left = all.len() - at;
            let (h, l) = (it.size_hint(), it.len());
            ensure!(h == (left, Some(left)) && l == left, "{h:?} and {l} announced, {left} are still to come");
        }
        Ok(())
    });
    cx.obs.count("skips", ops);
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    r.map_err(|e| format!("{e} [metadata {}, data {}, chunk size {c}, {}]", olen(&m), olen(&d), log.join(" ")))
}

fn p03_zero(cx: &mut Cx) -> Check {
    let m = numbered(some_len(cx.idx % 8), 1);
    let d = numbered(some_len(cx.idx / 8), 2);
    cx.obs.seen(cx.idx);
    let p = make(&m, &d);
    let r = subj(|| p.chunks(0));
    cx.obs.count("zero_refused", 1);
    ensure!(r.is_err(), "chunk size 0 is accepted [metadata {}, data {}]", olen(&m), olen(&d));
    Ok(())
}

#[cfg(feature = "h-buf")]
pub mod hooks {
    use super::*;
    use crate::bufs::*;
    use crate::model::*;
    use crate::p_codec::{gen_cuts, mutated};
    use binate::connection::verif::FragmentBuffer;
    use binate::frame::Encode;
    use bytes::buf::Chain;
    use bytes::Buf;
    use std::io::{IoSlice, Read};

    // --------------------------------------------------------------- P04

    const CARRIERS: [Ty; 5] = [Ty::Fnf, Ty::Response, Ty::Stream, Ty::Channel, Ty::Payload];

    /// A segment holding one encoded fragment.
    enum Seg {
        B(Bytes),
        S(SegBuf),
        V(std::io::Cursor<Vec<u8>>),
        C(Chain<Bytes, Bytes>),
        M(BytesMut),
    }

    macro_rules! on {
        ($s:expr, $b:ident => $e:expr) => {
            match $s {
                Seg::B($b) => $e,
                Seg::S($b) => $e,
                Seg::V($b) => $e,
                Seg::C($b) => $e,
                Seg::M($b) => $e,
            }
        };
    }

    impl Buf for Seg {
        fn remaining(&self) -> usize {
            on!(self, b => b.remaining())
        }
        fn chunk(&self) -> &[u8] {
            on!(self, b => b.chunk())
        }
        fn advance(&mut self, n: usize) {
            on!(self, b => b.advance(n))
        }
        fn chunks_vectored<'a>(&'a self, dst: &mut [IoSlice<'a>]) -> usize {
            on!(self, b => b.chunks_vectored(dst))
        }
        fn copy_to_bytes(&mut self, n: usize) -> Bytes {
            on!(self, b => b.copy_to_bytes(n))
        }
    }

    fn seg(cx: &mut Cx, d: &[u8]) -> Seg {
        match cx.rng.below(6) {
            0 if d.len() < 60_000 => {
                let cuts = gen_cuts(cx, d.len());
                Seg::S(SegBuf::new(d, &cuts))
            }
            1 => Seg::V(std::io::Cursor::new(d.to_vec())),
            2 => {
                let k = cx.rng.below(d.len() + 1);
                Seg::C(Bytes::copy_from_slice(&d[..k]).chain(Bytes::copy_from_slice(&d[k..])))
            }
            3 => Seg::M(BytesMut::from(d)),
            4 => {
                let mut v = vec![7; 4];
                v.extend_from_slice(d);
                Seg::B(Bytes::from(v).slice(4..))
            }
            _ => Seg::B(Bytes::copy_from_slice(d)),
        }
    }

    fn fragment(cx: &mut Cx, ty: Ty, sid: u32, last: bool, m: Option<Bytes>, d: Option<Bytes>) -> Vec<u8> {
        let mut f = M::blank(ty);
        f.sid = sid;
        f.follows = !last;
        f.a = match ty {
            Ty::Stream | Ty::Channel => 1 + cx.rng.below(1000) as u64,
            _ => 0,
        };
        f.complete = matches!(ty, Ty::Channel | Ty::Payload) && cx.rng.bool();
        f.next = ty == Ty::Payload && cx.rng.bool();
        f.meta = m;
        f.data = d;
        if cx.rng.bool() {
            let n = if cx.rng.chance(1, 3) { gen_noise(cx) } else { Noise::default() };
            ref_encode(&f, &n)
        } else {
            build(&f).to_bytes().to_vec()
        }
    }

    /// A frame that carries no payload.
    fn other(cx: &mut Cx) -> Vec<u8> {
        const OTHERS: [Ty; 8] = [
            Ty::Cancel, Ty::RequestN, Ty::Keepalive, Ty::Lease, Ty::Error,
            Ty::MetadataPush, Ty::Resume, Ty::ResumeOk,
        ];
        let ty = *cx.rng.pick(&OTHERS);
        let m = gen_frame_of(cx, ty);
        ref_encode(&m, &Noise::default())
    }

    fn reassemble(cx: &mut Cx, frames: &[Vec<u8>]) -> Result<Result<Payload, binate::frame::DecodeError>, String> {
        let segs: Vec<Seg> = frames.iter().map(|f| seg(cx, f)).collect();
        steps_reset(frames.len() + frames.iter().map(|f| f.len()).sum::<usize>() / 100);
        let plain = cx.rng.chance(1, 4);
        subj(|| {
            if plain {
                let mut l: FragmentBuffer<&[u8]> = FragmentBuffer::new();
                for f in frames {
                    l.push(&f[..]);
                }
                l.into_payload()
            } else {
                let mut l = FragmentBuffer::new();
                for s in segs {
                    l.push(s);
                }
                l.into_payload()
            }
        })
    }

    fn judge(got: Result<Result<Payload, binate::frame::DecodeError>, String>, m: &[u8], d: &[u8]) -> Check {
        let p = match got {
            Err(e) => return Err(e),
            Ok(Err(e)) => return Err(format!("reassembly reports '{e}' although every fragment is decodable")),
            Ok(Ok(p)) => p,
        };
        for (name, want, part) in [("metadata", m, p.metadata()), ("data", d, p.data())] {
            let have: &[u8] = part.map_or(&[], |b| b);
            ensure!(
                have == want,
                "{name} reassembles to {} instead of {}",
                short(have),
                short(want)
            );
        }
        Ok(())
    }

    pub fn p04_sweep(cx: &mut Cx) -> Check {
        let side: u64 = if cx.thorough { 24 } else { 12 };
        let i = cx.idx;
        let m = numbered(some_len(i % side), 1);
        let d = numbered(some_len(i / side % side), 0x81);
        let c = (i / side / side % side) as usize + 1;
        let k = (i / side / side / side) as usize;
        cx.obs.seen(i);
        let total = total_pieces(m.as_ref().map(|b| b.len()), d.as_ref().map(|b| b.len()), c);
        let chunks: Vec<Payload> = subj(|| make(&m, &d).chunks(c).take(total + 4).collect())?;
        let mut frames = vec![];
        for (j, p) in chunks.iter().enumerate() {
            let ty = if k < 5 { CARRIERS[k] } else { CARRIERS[(i as usize + j) % 5] };
            let (pm, pd) = p.clone().split();
            frames.push(fragment(cx, ty, 5, j + 1 == chunks.len(), pm, pd));
        }
        cx.obs.count("fragments", frames.len() as u64);
        let got = reassemble(cx, &frames);
        judge(got, m.as_deref().unwrap_or(&[]), d.as_deref().unwrap_or(&[]))
            .map_err(|e| format!("{e} [metadata {}, data {}, chunk size {c}, carrier {k}]", olen(&m), olen(&d)))
    }

    /// Fragments cut anywhere, mixed with other frames.
    fn cut_anywhere(cx: &mut Cx) -> (Vec<Vec<u8>>, Vec<u8>, Vec<u8>, String) {
        let max = if cx.rng.chance(1, 20) { 100_000 } else { 3000 };
        let n = len(cx, max);
        let m = content(cx, n);
        let n = len(cx, max);
        let d = content(cx, n);
        let k = match cx.rng.below(200) {
            0 => cx.rng.range(200, 1500),
            1..=20 => 1,
            21..=40 => cx.rng.range(1, 200),
            _ => cx.rng.range(1, 9),
        };
        let bounds = |cx: &mut Cx, n: usize| {
            let mut v: Vec<usize> = (0..k - 1).map(|_| cx.rng.below(n + 1)).collect();
            v.push(0);
            v.push(n);
            v.sort_unstable();
            v
        };
        let (bm, bd) = (bounds(cx, m.len()), bounds(cx, d.len()));
        let mut frames = vec![];
        let mut desc = String::new();
        let one_type = cx.rng.bool();
        let first = *cx.rng.pick(&CARRIERS);
        let sid = u31nz(cx);
        for j in 0..k {
            while cx.rng.chance(1, 6) {
                frames.push(other(cx));
                desc += " other";
            }
            let ty = if one_type {
                if j == 0 { first } else { Ty::Payload }
            } else {
                *cx.rng.pick(&CARRIERS)
            };
            let cut = |cx: &mut Cx, v: &[u8], b: &[usize]| {
                let s = &v[b[j]..b[j + 1]];
                if s.is_empty() && cx.rng.bool() {
                    None
                } else {
                    Some(Bytes::copy_from_slice(s))
                }
            };
            let pm = cut(cx, &m, &bm);
            let pd = cut(cx, &d, &bd);
            if desc.len() < 300 {
                desc += &format!(" {ty:?}({},{})", olen(&pm), olen(&pd));
            }
            frames.push(fragment(cx, ty, sid, j + 1 == k, pm, pd));
        }
        (frames, m, d, desc)
    }

    pub fn p04(cx: &mut Cx) -> Check {
        let (frames, m, d, desc) = cut_anywhere(cx);
        cx.obs.seen(frames.iter().fold(3, |a, f| mix(a ^ fnv(f))));
        cx.obs.count("fragments", frames.len() as u64);
        cx.sample(|| desc.clone());
        let got = reassemble(cx, &frames);
        judge(got, &m, &d).map_err(|e| format!("{e} [{desc}]"))
    }

    pub fn p04_corrupt(cx: &mut Cx) -> Check {
        let (mut frames, m, d, desc) = cut_anywhere(cx);
        for _ in 0..cx.rng.range(1, 3) {
            let bad = if cx.rng.bool() {
                mutated(cx)
            } else {
                let n = cx.rng.range(1, 30);
                let mut v = content(cx, n);
                if v.len() > 5 && cx.rng.bool() {
                    v[4] = 0;
                }
                v
            };
            // An undecodable fragment, or a decodable one without payload.
            let keep = match ref_decode(&bad) {
                Expect::Errors(_) => true,
                Expect::Frame(f, _) => {
                    !CARRIERS.contains(&f.ty) && f.ty != Ty::Setup
                }
            };
            if keep && !bad.is_empty() && bad.len() < 50_000 {
                let at = cx.rng.below(frames.len() + 1);
                frames.insert(at, bad);
            } else if let Some(f) = frames.iter_mut().find(|f| f.len() > 8) {
                let n = cx.rng.range(1, 6);
                f.truncate(n.min(5));
            }
        }
        cx.obs.seen(frames.iter().fold(5, |a, f| mix(a ^ fnv(f))));
        let first_bad = frames.iter().enumerate().find_map(|(i, f)| match ref_decode(f) {
            Expect::Errors(e) => Some((i, e)),
            _ => None,
        });
        let got = reassemble(cx, &frames);
        match first_bad {
            None => {
                cx.obs.count("no_fragment_corrupt", 1);
                judge(got, &m, &d)
            }
            Some((i, errs)) => {
                cx.obs.count("corrupt_fragment", 1);
                match got {
                    Err(e) => Err(e),
                    Ok(Ok(p)) => Err(format!("fragment {i} ({}) is undecodable, yet a payload of {} bytes results", short(&frames[i]), Payload::len(&p))),
                    Ok(Err(e)) if errs.contains(&e) => Ok(()),
                    Ok(Err(e)) => Err(format!("fragment {i} ({}) fails with one of {errs:?}, reassembly reports {e:?}", short(&frames[i]))),
                }
            }
        }
        .map_err(|e| format!("{e} [{} fragments:{desc}]", frames.len()))
    }

    pub fn p04_chunked(cx: &mut Cx) -> Check {
        let (m, d) = wparts(cx, 60_000);
        let c = chunk_size(cx, m.as_ref().map_or(0, |b| b.len()), d.as_ref().map_or(0, |b| b.len())).max(7);
        cx.obs.seen(shape(&m, &d, c as u64));
        let cap = total_pieces(m.as_ref().map(|b| b.len()), d.as_ref().map(|b| b.len()), c) + 4;
        let chunks: Vec<Payload> = subj(|| make(&m, &d).chunks(c).take(cap).collect())?;
        let first = *cx.rng.pick(&CARRIERS);
        let sid = u31nz(cx);
        let mut frames = vec![];
        let n = chunks.len();
        for (j, p) in chunks.into_iter().enumerate() {
            let (pm, pd) = p.split();
            frames.push(fragment(cx, if j == 0 { first } else { Ty::Payload }, sid, j + 1 == n, pm, pd));
        }
        cx.obs.count("fragments", frames.len() as u64);
        let got = reassemble(cx, &frames);
        judge(got, m.as_deref().unwrap_or(&[]), d.as_deref().unwrap_or(&[]))
            .map_err(|e| format!("{e} [metadata {}, data {}, chunk size {c}, first {first:?}]", olen(&m), olen(&d)))
    }

    // --------------------------------------------------------------- P05

    type Queue = std::collections::VecDeque<u8>;

    /// True if the queue starts with these bytes.
    fn starts(q: &Queue, s: &[u8]) -> bool {
        let (a, b) = q.as_slices();
        let k = s.len().min(a.len());
        s.len() <= q.len() && s[..k] == a[..k] && s[k..] == b[..s.len() - k]
    }

    fn take_front(q: &mut Queue, n: usize) -> Vec<u8> {
        let (a, b) = q.as_slices();
        let k = n.min(a.len());
        let v = [&a[..k], &b[..n - k]].concat();
        q.drain(..n);
        v
    }

    /// What can be seen without changing the buffer.
    fn look<B: Buf>(b: &B, q: &Queue, slots: usize) -> Check {
        ensure!(b.remaining() == q.len(), "remaining() is {}, {} bytes are left", b.remaining(), q.len());
        ensure!(b.has_remaining() == !q.is_empty(), "has_remaining() is {}", b.has_remaining());
        let c = b.chunk();
        ensure!(starts(q, c), "chunk() is {}, which is no prefix of what remains", short(c));
        ensure!(!c.is_empty() || q.is_empty(), "chunk() is empty while {} bytes remain", q.len());
        const SENTINEL: &[u8] = b"untouched-slot";
        let mut v = vec![IoSlice::new(SENTINEL); slots];
        let k = b.chunks_vectored(&mut v);
        ensure!(k <= slots, "chunks_vectored() fills {k} of {slots} slots");
        let cat: Vec<u8> = v[..k].iter().map(|s| &s[..]).collect::<Vec<_>>().concat();
        ensure!(starts(q, &cat), "chunks_vectored() with {slots} slots gives {} of {} bytes, no faithful prefix", cat.len(), q.len());
        ensure!(slots == 0 || q.is_empty() || (k > 0 && !v[0].is_empty()), "chunks_vectored() with {slots} slots gives nothing while {} bytes remain", q.len());
        Ok(())
    }

    fn read<B: Buf>(b: &mut B, q: &mut Queue, n: usize, how: usize, log: &mut String) -> Check {
        let want = take_front(q, n);
        let (got, what): (Vec<u8>, &str) = match (how, n) {
            (0, _) => {
                b.advance(n);
                (want.clone(), "advance")
            }
            (1, _) => (b.copy_to_bytes(n).to_vec(), "copy_to_bytes"),
            (2, _) => {
                let mut v = vec![0xA5; n];
                b.copy_to_slice(&mut v);
                (v, "copy_to_slice")
            }
            (3, 1 | 2 | 4 | 8 | 16) => {
                macro_rules! get {
                    ($($get:ident $bytes:ident),*) => {{
                        let all: &[(&str, fn(&mut B) -> Vec<u8>)] =
                            &[$((stringify!($get), |b| b.$get().$bytes().to_vec())),*];
                        let (name, f) = all[q.len() % all.len()];
                        (f(b), name)
                    }};
                }
                match n {
                    1 => get!(get_u8 to_be_bytes, get_i8 to_be_bytes),
                    2 => get!(get_u16 to_be_bytes, get_u16_le to_le_bytes,
                        get_i16 to_be_bytes, get_i16_le to_le_bytes),
                    4 => get!(get_u32 to_be_bytes, get_u32_le to_le_bytes,
                        get_i32 to_be_bytes, get_i32_le to_le_bytes,
                        get_f32 to_be_bytes, get_f32_le to_le_bytes),
                    8 => get!(get_u64 to_be_bytes, get_u64_le to_le_bytes,
                        get_i64 to_be_bytes, get_i64_le to_le_bytes,
                        get_f64 to_be_bytes, get_f64_le to_le_bytes),
                    _ => get!(get_u128 to_be_bytes, get_u128_le to_le_bytes,
                        get_i128 to_be_bytes, get_i128_le to_le_bytes),
                }
            }
            (3, 1..=7) | (6, 1..=8) => {
                let mut w = &want[..];
                let (x, right, name) = match q.len() % 4 {
                    0 => (b.get_uint(n), w.get_uint(n), "get_uint"),
                    1 => (b.get_uint_le(n), w.get_uint_le(n), "get_uint_le"),
                    2 => (b.get_int(n) as u64, w.get_int(n) as u64, "get_int"),
                    _ => (b.get_int_le(n) as u64, w.get_int_le(n) as u64, "get_int_le"),
                };
                ensure!(x == right, "{name}({n}) is {x:#x} instead of {right:#x}");
                (want.clone(), name)
            }
            (7, _) => {
                let mut v = vec![0xA5; n];
                let k = (&mut *b).reader().read(&mut v).unwrap();
                ensure!(k == n, "reading {n} bytes gives {k}");
                (v, "reader")
            }
            (8, _) => {
                let mut c = (&mut *b).chain(&b"behind"[..]);
                (c.copy_to_bytes(n).to_vec(), "chain")
            }
            (4, _) => {
                let mut v = vec![];
                v.put(b.take(n));
                (v, "take")
            }
            (5, _) => {
                // The reader's own loop: chunk, then advance.
                let mut v = vec![];
                while v.len() < n {
                    let c = b.chunk();
                    ensure!(!c.is_empty(), "chunk() is empty before the end");
                    let k = c.len().min(n - v.len());
                    v.extend_from_slice(&c[..k]);
                    b.advance(k);
                }
                (v, "chunk+advance")
            }
            _ => {
                let got = b.copy_to_bytes(n);
                (got.to_vec(), "copy_to_bytes")
            }
        };
        if log.len() < 600 {
            *log += &format!(" {what}({n})");
        }
        ensure!(got == want, "{what}({n}) gives {} instead of {}", short(&got), short(&want));
        Ok(())
    }

    /// A length that hits or misses segment ends.
    fn amount(rng: &mut Rng, left: usize, front: usize) -> usize {
        match rng.below(8) {
            0 => front,
            1 => front + 1,
            2 => front.saturating_sub(1),
            3 => left,
            4 => rng.below(left + 1),
            5 => *rng.pick(&[1, 2, 3, 4, 8, 16]),
            6 => 0,
            _ => rng.below(12),
        }
        .min(left)
    }

    fn segment(cx: &mut Cx, counter: &mut u32) -> (Seg, Vec<u8>) {
        let n = match cx.rng.below(10) {
            0 => 1,
            1 => cx.rng.range(1, 300),
            2 => *cx.rng.pick(&[16, 64, 255, 256, 257, 1024]),
            _ => cx.rng.range(1, 12),
        };
        // Every byte of a sequence differs from its neighbours.
        let v: Vec<u8> = (0..n)
            .map(|_| {
                *counter += 1;
                (*counter).wrapping_mul(0x9E37) as u8 ^ (*counter >> 8) as u8
            })
            .collect();
        (seg(cx, &v), v)
    }

    fn drive(cx: &mut Cx, segs: usize, ops: usize) -> Check {
        let mut counter = cx.rng.u32();
        let mut l = FragmentBuffer::new();
        let mut q = Queue::new();
        let mut log = String::new();
        steps_reset(segs);
        let mut done = 0;
        let mut r = Ok(());
        for _ in 0..segs {
            let (s, v) = segment(cx, &mut counter);
            log += &format!(" push({})", v.len());
            q.extend(&v);
            if let Err(e) = subj(|| l.push(s)) {
                r = Err(e);
            }
        }
        let mut fp = mix(segs as u64);
        for _ in 0..ops {
            if r.is_err() {
                break;
            }
            done += 1;
            steps_reset(segs + done as usize);
            if cx.rng.chance(1, 8) {
                let (s, v) = segment(cx, &mut counter);
                if log.len() < 600 {
                    log += &format!(" push({})", v.len());
                }
                q.extend(&v);
                r = subj(|| l.push(s));
                fp = mix(fp ^ v.len() as u64);
                continue;
            }
            let front = l.chunk().len();
            let n = amount(&mut cx.rng, q.len(), front);
            let how = cx.rng.below(9);
            fp = mix(fp ^ (n * 16 + how) as u64);
            let slots = match cx.rng.below(40) {
                0 if segs > 50 => cx.rng.below(segs + 10),
                0..=8 => cx.rng.below(64),
                _ => cx.rng.below(6),
            };
            r = match subj(|| {
                look(&l, &q, slots)?;
                read(&mut l, &mut q, n, how, &mut log)?;
                look(&l, &q, slots)
            }) {
                Ok(x) => x,
                Err(e) => Err(e),
            };
        }
        if r.is_ok() {
            // What is left comes out in order.
            let n = q.len();
            steps_reset(segs + done as usize);
            r = match subj(|| read(&mut l, &mut q, n, cx.rng.below(9), &mut log)) {
                Ok(x) => x,
                Err(e) => Err(e),
            };
            if r.is_ok() {
                r = subj(|| look(&l, &q, 3)).and_then(|x| x);
            }
        }
        cx.obs.seen(fp);
        cx.obs.count("operations", done);
        cx.sample(|| log.clone());
        r.map_err(|e| format!("{e} [{}]", log.trim()))
    }

    pub fn p05(cx: &mut Cx) -> Check {
        let segs = match cx.rng.below(160) {
            0 if cx.rng.bool() => cx.rng.range(100, 1500),
            1..=20 => 0,
            21..=40 => cx.rng.range(10, 80),
            _ => cx.rng.range(1, 8),
        };
        let ops = match cx.rng.below(8) {
            0 if segs < 100 => cx.rng.range(30, 200),
            _ => cx.rng.range(1, 20),
        };
        drive(cx, segs, ops)
    }

    const LARGE: [usize; 14] = [
        65_535, 65_536, 65_537, 131_071, 131_072, 131_073, 262_144,
        1_048_575, 1_048_576, 4_194_305, 8_388_608, 16_777_215, 16_777_216,
        16_777_230,
    ];

    /// One long segment among short ones.
    pub fn p05_large(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let big = LARGE[i % 14];
        let how = i / 14 % 9;
        let lens = [vec![big], vec![big, 5], vec![3, big], vec![9, big, 70_000, 2]][i / 126].clone();
        let total: usize = lens.iter().sum();
        let mut amounts = vec![total, big, big - 1, lens[0], (lens[0] + big).min(total), 100];
        amounts.sort_unstable();
        amounts.dedup();
        for n in amounts {
            if big > 2_000_000 && n != big && n != total && n != 100 {
                continue;
            }
            let mut l = FragmentBuffer::new();
            let mut q = Queue::new();
            for (k, s) in lens.iter().enumerate() {
                let v = crate::p_codec::pattern((*s).min(MAX24), k as u8 * 50);
                let mut v = v.to_vec();
                v.resize(*s, 0x3C);
                q.extend(&v);
                l.push(Bytes::from(v));
            }
            let mut log = String::new();
            subj(|| {
                look(&l, &q, lens.len())?;
                read(&mut l, &mut q, n, how, &mut log)?;
                look(&l, &q, lens.len() + 1)?;
                let rest = q.len();
                read(&mut l, &mut q, rest, how, &mut log)?;
                look(&l, &q, 2)
            })
            .and_then(|x| x)
            .map_err(|e| format!("{e} [segments {lens:?}, {}]", log.trim()))?;
            cx.obs.count("large_reads", 2);
        }
        cx.obs.seen(1 << 40 | cx.idx);
        Ok(())
    }

    /// Segments that together, or alone, are longer than 32 bits count.
    pub fn p05_giants(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let lens: &[usize] = [
            &[1 << 32][..],
            &[(1 << 32) + 77],
            &[(1 << 32) - 1, 5],
            &[5, (1 << 32) + 1, 7],
            &[GIANT, GIANT],
            &[(1 << 31) + 1, (1 << 31) + 1],
            &[1 << 31, 1 << 31],
            &[9, (1 << 31) - 1, (1 << 31) - 1, 5],
            &[1 << 30, 1 << 30, 1 << 30, 1 << 30, 1 << 30, 3],
        ][i % 9];
        let total: usize = lens.iter().sum();
        let n = [
            0, 1, lens[0] - 1, lens[0], lens[0] + 1, total - 1, total, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
            total - 10,
        ][i / 9]
            .min(total);
        let Some(_one) = alone(cx) else { return Ok(()) };
        cx.obs.seen(9 << 40 | cx.idx);
        cx.obs.count("giant_reads", 1);
        // What is there from a position on, up to the end of its segment.
        let rest = |mut at: usize| -> &'static [u8] {
            for l in lens {
                if at < *l {
                    return &giant()[at..*l];
                }
                at -= l;
            }
            &[]
        };
        let look = |l: &FragmentBuffer<Bytes>, at: usize| -> Check {
            ensure!(l.remaining() == total - at, "remaining() is {}, {} bytes are left", l.remaining(), total - at);
            ensure!(l.has_remaining() == (at < total), "has_remaining() is {} with {} left", l.has_remaining(), total - at);
            let (c, want) = (l.chunk(), rest(at));
            ensure!(c.is_empty() == want.is_empty() && c.len() <= total - at, "chunk() is {} bytes with {} left", c.len(), total - at);
            let k = c.len().min(want.len()).min(60);
            ensure!(c[..k] == want[..k], "chunk() has the wrong content");
            let mut slots = [std::io::IoSlice::new(&[]); 8];
            let k = l.chunks_vectored(&mut slots);
            let sum: usize = slots[..k].iter().map(|s| s.len()).sum();
            ensure!(sum <= total - at && (sum > 0) == (at < total), "chunks_vectored() gives {sum} bytes with {} left", total - at);
            Ok(())
        };
        subj(|| {
            let mut l = FragmentBuffer::new();
            for n in lens {
                l.push(Bytes::from_static(&giant()[..*n]));
            }
            look(&l, 0)?;
            l.advance(n);
            look(&l, n)?;
            // A little more, maybe across the end of a segment.
            let k = (total - n).min(8);
            let mut want = vec![];
            while want.len() < k {
                let r = rest(n + want.len());
                want.extend_from_slice(&r[..r.len().min(k - want.len())]);
            }
            let mut got = vec![0; k];
            if i % 2 == 0 {
                got = l.copy_to_bytes(k).to_vec();
            } else {
                l.copy_to_slice(&mut got);
            }
            ensure!(got == want, "reading {k} bytes gives {} instead of {}", short(&got), short(&want));
            look(&l, n + k)?;
            let r = total - n - k;
            l.advance(r);
            look(&l, total)
        })
        .and_then(|r| r)
        .map_err(|e| format!("{e} [segments {lens:?}, advanced by {n}]"))
    }

    /// Long fragments.
    pub fn p04_large(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let n = LARGE[i % 14];
        let ty = CARRIERS[i / 14 % 5];
        let part = crate::p_codec::pattern(n.min(MAX24), 60);
        let small = crate::p_codec::pattern(40, 3);
        let (m, d) = if i / 70 == 0 { (part, small) } else { (small, part) };
        cx.obs.seen(1 << 40 | cx.idx);
        // Two, three or as many fragments as a common frame size makes.
        for k in [1, 2, 3, 300] {
            if k == 300 && n > 5_000_000 {
                continue;
            }
            let chunk = m.len().max(d.len()).div_ceil(k);
            let chunks: Vec<Payload> =
                subj(|| make(&Some(m.clone()), &Some(d.clone())).chunks(chunk).take(k + 4).collect())?;
            let total = chunks.len();
            let mut frames = vec![];
            for (j, p) in chunks.into_iter().enumerate() {
                let (pm, pd) = p.split();
                frames.push(fragment(cx, if j == 0 { ty } else { Ty::Payload }, 5, j + 1 == total, pm, pd));
            }
            cx.obs.count("fragments", total as u64);
            let got = reassemble(cx, &frames);
            judge(got, &m, &d).map_err(|e| format!("{e} [metadata {}, data {}, {k} fragments, first {ty:?}]", m.len(), d.len()))?;
        }
        Ok(())
    }

    /// Fragments of ordinary length that add up to more than one of the
    /// largest frames holds, and in the end to more than 32 bits count.
    pub fn p04_totals(cx: &mut Cx) -> Check {
        let n = (1usize << [24, 25, 26, 27, 28, 30, 31, 32][cx.idx as usize / 2]) + 1000;
        let as_meta = cx.idx % 2 == 1;
        let Some(_one) = alone(cx) else { return Ok(()) };
        let size = 1 << 22;
        let piece = crate::p_codec::pattern(size, 90);
        let mut frames = vec![];
        let count = n.div_ceil(size);
        let put = |cx: &mut Cx, last: bool, b: Bytes| {
            let small = Bytes::from(vec![b.len() as u8 | 1]);
            let (m, d) = if as_meta { (b, small) } else { (small, b) };
            Bytes::from(fragment(cx, Ty::Payload, 5, last, Some(m), Some(d)))
        };
        let whole = put(cx, false, piece.clone());
        for _ in 1..count {
            frames.push(whole.clone());
        }
        let rest = n - (count - 1) * size;
        frames.push(put(cx, true, piece.slice(..rest)));
        cx.obs.seen(3 << 40 | cx.idx);
        cx.obs.count("fragments", count as u64);
        let r = subj(|| {
            let mut l = FragmentBuffer::new();
            for f in frames {
                l.push(f);
            }
            l.into_payload()
        });
        cx.tick();
        (|| {
            let p = r?.map_err(|e| format!("reassembly reports '{e}'"))?;
            let (m, d) = p.split();
            let (long, short) = if as_meta { (m, d) } else { (d, m) };
            let long = long.unwrap_or_default();
            ensure!(long.len() == n, "{} bytes are reassembled", long.len());
            ensure!(short.map_or(0, |b| b.len()) == count, "the other part has the wrong length");
            for (k, c) in long.chunks(size).enumerate() {
                ensure!(c == &piece[..c.len()], "fragment {k} has the wrong content");
            }
            Ok(())
        })()
        .map_err(|e: String| {
            let what = if as_meta { "metadata" } else { "data" };
            format!("{e} [{count} fragments with {n} bytes of {what}]")
        })
    }

    /// As many pieces as it takes for small counters to wrap.
    const MANY: [usize; 8] = super::NUMBERS;

    pub fn p04_many(cx: &mut Cx) -> Check {
        let n = MANY[cx.idx as usize / 4];
        let first = CARRIERS[cx.idx as usize % 5];
        let (mut m, mut d) = (vec![], vec![]);
        let byte = |k: usize, salt: usize| (k * 29 + (k >> 8) * 7 + (k >> 16) * 3 + salt) as u8;
        let mut frames = Vec::with_capacity(n);
        for k in 0..n {
            // Data alone, both, metadata and then data, one in two empty.
            let (has_m, has_d) = match cx.idx % 4 {
                0 => (false, true),
                1 => (true, true),
                2 => (k < n / 2, k >= n / 2),
                _ => (false, k % 2 == 1),
            };
            let pm = has_m.then(|| byte(k, 1));
            let pd = has_d.then(|| byte(k, 5));
            m.extend(pm);
            d.extend(pd);
            let ty = if k == 0 { first } else { Ty::Payload };
            let part = |b: Option<u8>| b.map(|b| Bytes::from(vec![b]));
            frames.push(fragment(cx, ty, 5, k + 1 == n, part(pm), part(pd)));
            if k % 4096 == 0 {
                cx.tick();
            }
        }
        cx.obs.count("fragments", n as u64);
        cx.obs.seen(2 << 40 | cx.idx);
        let got = reassemble(cx, &frames);
        judge(got, &m, &d).map_err(|e| format!("{e} [{n} fragments, first {first:?}]"))
    }

    pub fn p05_many(cx: &mut Cx) -> Check {
        let n = MANY[cx.idx as usize / 9];
        let how = cx.idx as usize % 9;
        let mut l = FragmentBuffer::new();
        let mut q = Queue::new();
        for k in 0..n {
            let b = (k * 29 + (k >> 8) * 7 + (k >> 16) * 3) as u8;
            let v = vec![b; 1 + k % 3 / 2];
            q.extend(&v);
            l.push(Bytes::from(v));
        }
        let mut log = String::new();
        cx.obs.count("segments_in_long_buffers", n as u64);
        cx.obs.seen(2 << 40 | cx.idx);
        subj(|| {
            look(&l, &q, n + 1)?;
            read(&mut l, &mut q, 7, how, &mut log)?;
            look(&l, &q, 65_536)?;
            read(&mut l, &mut q, 65_000, how % 2 * 2, &mut log)?;
            look(&l, &q, 65_537)?;
            read(&mut l, &mut q, 9, how, &mut log)?;
            let rest = q.len();
            read(&mut l, &mut q, rest, (how + 1) % 2 * 2, &mut log)?;
            look(&l, &q, 2)
        })
        .and_then(|x| x)
        .map_err(|e| format!("{e} [{n} segments, {}]", log.trim()))
    }

    /// Every single operation on a few small segmentations.
    pub fn p05_sweep(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let how = i % 6;
        let shape = i / 6;
        let lens: Vec<usize> = [shape % 4, shape / 4 % 4, shape / 16 % 4, shape / 64 % 4, shape / 256 % 4]
            .into_iter()
            .filter(|n| *n > 0)
            .collect();
        let total: usize = lens.iter().sum();
        for n in 0..=total {
            for slots in 0..=lens.len() + 1 {
                let mut l: FragmentBuffer<Bytes> = FragmentBuffer::new();
                let mut q = Queue::new();
                let mut k = 0u8;
                for s in &lens {
                    let v: Vec<u8> = (0..*s).map(|_| { k = k.wrapping_add(17); k }).collect();
                    q.extend(&v);
                    l.push(Bytes::from(v));
                }
                let mut log = String::new();
                subj(|| {
                    look(&l, &q, slots)?;
                    read(&mut l, &mut q, n, how, &mut log)?;
                    look(&l, &q, slots)?;
                    let rest = q.len();
                    read(&mut l, &mut q, rest, how, &mut log)?;
                    look(&l, &q, slots)
                })
                .and_then(|x| x)
                .map_err(|e| format!("{e} [segments {lens:?}, {}]", log.trim()))?;
                cx.obs.count("operations", 2);
            }
        }
        cx.obs.seen(cx.idx);
        Ok(())
    }

    /// A list of lists.
    pub fn p05_nested(cx: &mut Cx) -> Check {
        let mut outer = FragmentBuffer::new();
        let mut q = Queue::new();
        let mut counter = cx.rng.u32();
        let mut log = String::new();
        for _ in 0..cx.rng.range(1, 4) {
            let mut inner: FragmentBuffer<Bytes> = FragmentBuffer::new();
            for _ in 0..cx.rng.range(1, 4) {
                let n = cx.rng.range(1, 9);
                let v: Vec<u8> = (0..n)
                    .map(|_| {
                        counter = counter.wrapping_add(1);
                        counter as u8
                    })
                    .collect();
                q.extend(&v);
                inner.push(Bytes::from(v));
            }
            outer.push(inner);
        }
        let mut fp = q.len() as u64;
        while !q.is_empty() {
            let front = outer.chunk().len();
            let n = amount(&mut cx.rng, q.len(), front).max(1);
            let how = cx.rng.below(9);
            let slots = cx.rng.below(12);
            fp = mix(fp ^ (n * 16 + how) as u64);
            subj(|| {
                look(&outer, &q, slots)?;
                read(&mut outer, &mut q, n, how, &mut log)?;
                look(&outer, &q, slots)
            })
            .and_then(|x| x)
            .map_err(|e| format!("{e} [nested, {}]", log.trim()))?;
            cx.obs.count("operations", 1);
        }
        cx.obs.seen(fp);
        Ok(())
    }

    /// Asking for more than there is.
    pub fn p05_beyond(cx: &mut Cx) -> Check {
        let mut counter = cx.rng.u32();
        let mut l = FragmentBuffer::new();
        let mut q = Queue::new();
        let mut log = String::new();
        for _ in 0..cx.rng.below(5) {
            let (s, v) = segment(cx, &mut counter);
            log += &format!(" push({})", v.len());
            q.extend(&v);
            l.push(s);
        }
        for _ in 0..cx.rng.below(4) {
            let front = l.chunk().len();
            let n = amount(&mut cx.rng, q.len(), front);
            let how = cx.rng.below(9);
            subj(|| read(&mut l, &mut q, n, how, &mut log)).and_then(|x| x)?;
        }
        let left = q.len();
        let over = left
            + match cx.rng.below(4) {
                0 => 1,
                1 => cx.rng.range(1, 20),
                2 => *cx.rng.pick(&[100_000, usize::MAX / 2 + 1]),
                _ => *cx.rng.pick(&[1 << 20, usize::MAX - 2 * left - 1, usize::MAX - left]),
            };
        let how = cx.rng.below(4);
        cx.obs.seen(mix(over as u64 ^ mix(left as u64 * 4 + how as u64)));
        let (name, got): (&str, Result<Option<Vec<u8>>, String>) = match how {
            0 => ("advance", subj(|| { l.advance(over); None })),
            1 => ("copy_to_bytes", subj(|| Some(l.copy_to_bytes(over).to_vec()))),
            2 => {
                let mut v = vec![0xA5; over.min(200_000)];
                ("copy_to_slice", subj(|| { l.copy_to_slice(&mut v); Some(v) }))
            }
            _ => match left {
                0 => ("get_u8", subj(|| Some(vec![l.get_u8()]))),
                1..=3 => ("get_u32", subj(|| Some(l.get_u32().to_be_bytes().to_vec()))),
                4..=7 => ("get_u64", subj(|| Some(l.get_u64().to_be_bytes().to_vec()))),
                _ => ("advance", subj(|| { l.advance(over); None })),
            },
        };
        cx.obs.count("requests_beyond_the_end", 1);
        match got {
            Err(e) if e.contains("STEP BUDGET") => Err(format!("{name}({over}) with {left} bytes left: {e}")),
            Err(_) => Ok(()),
            Ok(v) => Err(format!(
                "{name}({over}) with {left} bytes left is not refused but gives {:?}",
                v.map(|v| short(&v))
            )),
        }
        .map_err(|e| format!("{e} [{}]", log.trim()))
    }
}
