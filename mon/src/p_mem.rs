//! U01: the workloads of the other properties, for sanitizers and the
//! undefined-behaviour interpreter, and the allocator balance.
use crate::gen::*;
use crate::kit::*;
use crate::model::*;
use crate::team::*;
use crate::{p_codec, p_counter, p_ids, p_misc, p_more, p_payload, p_socket};
use binate::connection::RequestCounter;
use binate::frame::{Encode, Frame};
use bytes::{Buf, Bytes, BytesMut};
use dashmap::DashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub fn workloads(prop: &str) -> Vec<Workload> {
    if prop != "U01" {
        return vec![];
    }
    #[allow(unused_mut)]
    let mut v = vec![
        custom("allocator-balance", 150, balance),
        custom("fresh-values", 150, fresh),
        custom("shared-values", 150, values),
        custom("shared-stream-ids", 100, ids),
        custom("shared-counter", 100, counter),
        random("everything", 1, everything),
        random("texts", 1, texts),
    ];
    #[cfg(feature = "h-machine")]
    {
        v.push(custom("long-lived-machine", 50, hooks::flat));
        v.push(custom("shared-machine", 150, hooks::shared));
    }
    v
}

const OTHERS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
    "C11", "C12", "C13", "C14", "P01", "P02", "P03", "P04", "P05", "S01",
    "S04", "R01", "R02", "R04", "R05", "R06", "R07", "R08", "E01", "M01",
    "C15", "P06",
];

/// What the other properties run, with how many elements their sweeps have.
fn all() -> &'static Vec<(&'static str, Workload, u64)> {
    static ALL: OnceLock<Vec<(&'static str, Workload, u64)>> =
        OnceLock::new();
    ALL.get_or_init(|| of(OTHERS.iter().copied()))
}

fn of(
    props: impl Iterator<Item = &'static str>,
) -> Vec<(&'static str, Workload, u64)> {
    let mut v = any(props);
    // One element is many cases there.
    v.retain(|(_, w, n)| {
        w.name != "long-histories"
            && !(cfg!(miri)
                && (*n > 0
                    || matches!(
                        w.name,
                        "long-sequences"
                            | "many-requests"
                            | "long"
                            | "long-history"
                            | "published-from-elsewhere"
                    )))
    });
    v
}

fn any(
    props: impl Iterator<Item = &'static str>,
) -> Vec<(&'static str, Workload, u64)> {
    let mut v = vec![];
    for p in props {
        let mut w = p_codec::workloads(p);
        w.extend(p_payload::workloads(p));
        w.extend(p_counter::workloads(p));
        w.extend(p_ids::workloads(p));
        w.extend(p_misc::workloads(p));
        w.extend(p_socket::workloads(p));
        w.extend(p_more::workloads(p));
        for w in w {
            let n = match w.kind {
                Kind::Random(_) => 0,
                Kind::Sweep(n, _) => n,
                Kind::Custom(_) => continue,
            };
            v.push((p, w, n));
        }
    }
    v
}

/// Runs one case of another property. Its verdict is not the point here.
fn other(cx: &mut Cx, w: &Workload, n: u64, seed: u64) {
    cx.obs.seen(mix(seed));
    if quietly(cx, w, n, seed) {
        cx.obs.count("cases", 1);
    } else {
        cx.obs.count("cases_failing_otherwise", 1);
    }
}

/// The same, keeping nothing.
fn quietly(cx: &mut Cx, w: &Workload, n: u64, seed: u64) -> bool {
    let mut rng = Rng::new(seed);
    let idx = if n > 0 { rng.below(n as usize) as u64 } else { 0 };
    let mut obs = Obs::default();
    let mut inner = Cx {
        rng,
        dict: cx.dict,
        obs: &mut obs,
        workload: w.name,
        thorough: false,
        idx,
        progress: cx.progress,
        secs: 0.0,
        threads: 1,
        note: None,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        (w.f)(&mut inner)
    }));
    if r.is_err() {
        reset_depth();
        let _ = last_panic();
    }
    #[cfg(feature = "h-machine")]
    drop(crate::p_socket::reports());
    matches!(r, Ok(Ok(())))
}

pub fn everything(cx: &mut Cx) -> Check {
    let a = all();
    let mut k = cx.rng.below(a.len());
    while a[k].1.name == "large" && !cx.rng.chance(1, 30) {
        k = cx.rng.below(a.len());
    }
    let (p, w, n) = &a[k];
    let seed = cx.rng.u64();
    cx.sample(|| format!("{p} {} seed {seed}", w.name));
    // Some of it may be the first use of something; so again, if need be.
    let mut grown = vec![];
    while grown.len() < 6 {
        let before = mem_start();
        other(cx, w, *n, seed);
        let (_, g, _) = mem_since(before);
        // Obs belongs to the harness.
        if g <= 0 || w.name == "published-from-elsewhere" {
            return Ok(());
        }
        grown.push(g);
    }
    Err(format!(
        "memory of {p} {} is not released: every run of the same case (seed {seed}) leaves more behind: {grown:?} bytes",
        w.name
    ))
}

// -------------------------------------------------------- allocator balance

fn batch(cx: &mut Cx, w: &Workload, n: u64, seed: u64) -> i64 {
    let before = all_live();
    let mut obs = Obs::default();
    let mut inner = Cx {
        rng: Rng::new(seed),
        dict: cx.dict,
        obs: &mut obs,
        workload: w.name,
        thorough: false,
        idx: 0,
        progress: cx.progress,
        secs: 0.0,
        threads: 1,
        note: None,
    };
    for i in 0..8 {
        other(&mut inner, w, n, mix(seed ^ i));
    }
    drop(obs);
    cx.obs.count("balanced_cases", 8);
    all_live() - before
}

/// The same cases again must not need more memory again and again.
fn balance(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let a = all();
    let mut k = 0;
    while k < a.len() || Instant::now() < end {
        let (p, w, n) = &a[k % a.len()];
        k += 1;
        let seed = cx.rng.u64();
        cx.tick();
        let mut grown = vec![];
        for _ in 0..5 {
            let g = batch(cx, w, *n, seed);
            cx.obs.count("balance_measurements", 1);
            if g <= 0 {
                grown.clear();
                break;
            }
            grown.push(g);
        }
        cx.obs.seen(mix(seed));
        ensure!(
            grown.len() < 5,
            "memory of {p} {} is not released: every run of the same 8 cases (seed {seed}) leaves more behind: {grown:?} bytes",
            w.name
        );
        if k > 100 * a.len() && cfg!(miri) {
            break;
        }
    }
    Ok(())
}

/// Nor more with every new case: whatever was decoded, built or sent, and is
/// gone, must not be remembered without bound.
fn fresh(cx: &mut Cx) -> Check {
    const WINDOWS: [u64; 8] = [10, 10, 20, 40, 80, 160, 320, 640];
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let a = all();
    let start = cx.rng.below(a.len());
    for k in 0.. {
        let (p, w, n) = &a[(start + k) % a.len()];
        if w.name == "large" || w.name == "published-from-elsewhere" {
            continue;
        }
        let seed = cx.rng.u64();
        let mut i = 0;
        let mut grown = vec![];
        for n_cases in WINDOWS {
            cx.tick();
            let before = all_live();
            for _ in 0..n_cases {
                quietly(cx, w, *n, mix(seed ^ i));
                i += 1;
            }
            let g = all_live() - before;
            cx.obs.count("fresh_cases", n_cases);
            // The first window may set things up.
            if g <= 0 && !grown.is_empty() || Instant::now() >= end {
                grown.clear();
                break;
            }
            grown.push(g);
        }
        if grown.len() == WINDOWS.len() {
            // What is kept of each case grows with their number; the biggest
            // so far does not.
            let total: i64 = grown[1..].iter().sum();
            let keeps = [(7, 5), (6, 10), (5, 20)]
                .iter()
                .all(|(k, share)| grown[*k] >= total / share);
            ensure!(
                !keeps,
                "memory of {p} {} grows with the number of different cases (seed {seed}): {grown:?} bytes more after {WINDOWS:?} cases",
                w.name
            );
        }
        cx.obs.count("kinds_of_fresh_cases", 1);
        cx.obs.seen(mix(seed));
        if Instant::now() >= end {
            break;
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- texts

/// A text handed out must be one: anything else is undefined behaviour.
fn text(cx: &mut Cx, what: &str, s: &str, of: &[u8]) -> Check {
    cx.obs.count("texts", 1);
    let bytes = std::hint::black_box(s).as_bytes();
    let valid = std::str::from_utf8(std::hint::black_box(bytes));
    ensure!(
        valid.is_ok(),
        "{what} of {} bytes is a text that is not UTF-8: {valid:?}",
        of.len()
    );
    // Reads all of it.
    std::hint::black_box(s.chars().map(|c| c as u64).sum::<u64>());
    Ok(())
}

fn almost_text(cx: &mut Cx, max: usize) -> Vec<u8> {
    let n = len(cx, max);
    let mut b = ascii(cx, n + 1).into_bytes();
    if cx.rng.bool() {
        b.extend_from_slice("é€😀".as_bytes());
    }
    let odd: &[&[u8]] = &[
        b"",
        b"\xff",
        b"\x80",
        b"\xc3",
        b"\xc0\xaf",
        b"\xe2\x82",
        b"\xed\xa0\x80",
        b"\xf0\x9f\x98",
        b"\xf4\x90\x80\x80",
        b"\xf8\x88\x80\x80\x80",
    ];
    let x = *cx.rng.pick(odd);
    let at = match cx.rng.below(3) {
        0 => 0,
        1 => b.len(),
        _ => cx.rng.below(b.len() + 1),
    };
    b.splice(at..at, x.iter().copied());
    b
}

pub fn texts(cx: &mut Cx) -> Check {
    let b = almost_text(cx, if cfg!(miri) { 200 } else { 5000 });
    let raw = Bytes::from(b.clone());
    cx.obs.seen(fnv(&b));
    let f = subj(|| {
        binate::frame::codec::ErrorFrame::new(0, 0x101, Some(raw.clone()))
    })?;
    let wire = subj(|| f.to_bytes())?;
    let back = subj(|| Frame::decode(&mut wire.clone()))?;
    let mut errors = vec![f];
    if let Ok(Frame::Error(g)) = back {
        errors.push(g);
    }
    for f in &errors {
        if let Some(s) = subj(|| f.data_utf8())? {
            text(cx, "the data of an error frame", s, &b)?;
        }
        let s = subj(|| format!("{f:?}"))?;
        text(cx, "an error frame, printed,", &s, &b)?;
    }
    let p = subj(|| {
        binate::Payload::builder()
            .set_metadata(raw.clone())
            .set_data(raw.clone())
            .build()
    })?;
    if let Ok(s) = subj(|| p.data_utf8())? {
        text(cx, "the data of a payload", s, &b)?;
    }
    if let Ok(s) = subj(|| p.metadata_utf8())? {
        text(cx, "the metadata of a payload", s, &b)?;
    }
    // MIME types that are no text come from the wire.
    let mut m = b[..b.len().min(255)].to_vec();
    if cx.rng.bool() {
        m = b[b.len() - b.len().min(255)..].to_vec();
    }
    let mut wire = vec![0, 0, 0, 0, 0x04, 0, 0, 1, 0, 0];
    wire.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 1]);
    for _ in 0..2 {
        wire.push(m.len() as u8);
        wire.extend_from_slice(&m);
    }
    let back = subj(|| Frame::decode(&mut &wire[..]))?;
    if let Ok(Frame::Setup(f)) = back {
        cx.obs.count("setup_frames", 1);
        if let Some(s) = subj(|| f.metadata_mimetype())? {
            text(cx, "the metadata MIME type of a SETUP frame", s, &m)?;
        }
        if let Some(s) = subj(|| f.data_mimetype())? {
            text(cx, "the data MIME type of a SETUP frame", s, &m)?;
        }
        let s = subj(|| format!("{f:?}"))?;
        text(cx, "a SETUP frame, printed,", &s, &m)?;
    }
    Ok(())
}

// ------------------------------------------------------------ shared values

/// Frames, payloads and buffers used and dropped on several threads.
pub fn values(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    loop {
        let threads = if cfg!(miri) { 2 } else { cx.rng.range(2, 8) };
        let per = if cfg!(miri) { 2 } else { 40 };
        let mut shared: Vec<(Frame, Bytes)> = vec![];
        for _ in 0..per {
            let m = gen_frame(cx);
            if m.size() > 20_000 {
                continue;
            }
            cx.obs.seen(m.fingerprint());
            let built = subj(|| build(&m))?;
            let bytes = subj(|| built.to_bytes())?;
            // Half of them share the buffer they were decoded from.
            let f = if cx.rng.bool() {
                match subj(|| Frame::decode(&mut bytes.clone()))? {
                    Ok(f) => f,
                    Err(_) => built,
                }
            } else {
                built
            };
            shared.push((f, bytes));
        }
        let seed = cx.rng.u64();
        let shared = &shared;
        team(threads, 1, |t, _| {
            let mut rng = Rng::new(mix(seed ^ t as u64));
            let mut kept = vec![];
            for _ in 0..shared.len() {
                let (f, b) = rng.pick(shared);
                let b = b.clone();
                match rng.below(6) {
                    0 => {
                        let again = subj(|| f.to_bytes())?;
                        let back = subj(|| Frame::decode(&mut &again[..]))?;
                        kept.push(back.ok());
                    }
                    1 => kept.push(subj(|| {
                        Frame::decode(&mut b.clone()).ok()
                    })?),
                    2 => {
                        let g = subj(|| f.clone())?;
                        let same = subj(|| g == *f)?;
                        ensure!(same, "a clone of a shared frame differs");
                        kept.push(Some(g));
                    }
                    3 => {
                        let mut out = BytesMut::new();
                        subj(|| f.encode(&mut out))?;
                        drop(out.freeze());
                    }
                    4 => {
                        let size = rng.range(1, 40).max(b.len() / 50);
                        subj(|| {
                            let p = binate::Payload::builder()
                                .set_metadata(b.clone())
                                .set_data(b.slice(b.len() / 2..))
                                .build();
                            p.chunks(size).map(|c| c.len()).sum::<usize>()
                        })?;
                    }
                    _ => {
                        let n = b.remaining();
                        let s = subj(|| format!("{f:?}").len())?;
                        ensure!(s > 0 && n > 0, "empty");
                        if !kept.is_empty() {
                            let k = rng.below(kept.len());
                            kept.swap_remove(k);
                        }
                    }
                }
            }
            Ok(())
        })?;
        cx.obs.count("shared_frames", shared.len() as u64);
        cx.tick();
        if cfg!(miri) || Instant::now() >= end {
            return Ok(());
        }
    }
}

// ---------------------------------------------------- shared IDs and counts

/// Nothing but the code under test synchronises the threads.
pub fn ids(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    loop {
        let threads = if cfg!(miri) { 2 } else { cx.rng.range(2, 8) };
        let calls = if cfg!(miri) { 3 } else { 400 };
        let server = cx.rng.bool();
        let first = MAX31 - server as u32 - 2 * cx.rng.below(calls) as u32;
        let p = crate::hooks::ids_from(first as i32)
            .filter(|_| cx.rng.bool())
            .unwrap_or_else(|| p_ids::provider(server));
        let store: DashMap<u32, ()> = DashMap::new();
        let seed = cx.rng.u64();
        cx.obs.seen(mix(seed));
        team(threads, 1, |t, _| {
            let mut rng = Rng::new(mix(seed ^ t as u64));
            for _ in 0..calls {
                let id = subj(|| p.next_stream_id(&store))?;
                if rng.chance(1, 3) {
                    store.insert(id, ());
                } else if rng.chance(1, 2) {
                    store.remove(&id.wrapping_sub(4));
                }
            }
            Ok(())
        })?;
        cx.obs.count("stream_ids", (threads * calls) as u64);
        cx.tick();
        if cfg!(miri) || Instant::now() >= end {
            return Ok(());
        }
    }
}

pub fn counter(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    loop {
        let threads = if cfg!(miri) { 3 } else { cx.rng.range(2, 8) };
        let calls = if cfg!(miri) { 4 } else { 2000 };
        let c = RequestCounter::new(calls as u32 * 9);
        let seed = cx.rng.u64();
        cx.obs.seen(mix(seed));
        team(threads, 1, |t, _| {
            let mut rng = Rng::new(mix(seed ^ t as u64));
            subj(|| {
                for _ in 0..calls {
                    match rng.below(4) {
                        0 => c.add(rng.below(5) as u32),
                        1 => {
                            let _ = c.load();
                        }
                        2 => {
                            let _ = c.is_zero();
                        }
                        _ => {
                            let _ = c.dec();
                        }
                    }
                }
            })
        })?;
        cx.obs.count("counter_calls", (threads * calls) as u64);
        cx.tick();
        if cfg!(miri) || Instant::now() >= end {
            return Ok(());
        }
    }
}

#[cfg(feature = "h-machine")]
pub mod hooks {
    use super::*;
    use crate::hooks::*;
    use binate::connection::{ConnectionStatus, DuplexConnection};
    use binate::{Flux, Mono, Result};
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    /// Swallows everything, without synchronising anybody.
    struct Null {
        closed: AtomicBool,
        sent: [AtomicU64; 16],
    }

    impl Null {
        fn new() -> Null {
            Null {
                closed: AtomicBool::new(false),
                sent: [const { AtomicU64::new(0) }; 16],
            }
        }
    }

    impl DuplexConnection for Null {
        fn send(&self, frame: Frame) -> Mono<Result<()>> {
            self.sent[1].fetch_add(frame.len() as u64, Ordering::Relaxed);
            Box::pin(async { Ok(()) })
        }
        fn send_and_forget(&self, frame: Frame) -> Result<()> {
            self.sent[0].fetch_add(frame.len() as u64, Ordering::Relaxed);
            Ok(())
        }
        fn send_stream(&self, _: Flux<Frame>) {}
        fn receive(&self) -> Flux<Frame> {
            Box::pin(tokio_stream::pending())
        }
        fn connect(&self) {}
        fn close(&self) {
            self.closed.store(true, Ordering::Relaxed);
        }
        fn connection_status(&self) -> Flux<ConnectionStatus> {
            Box::pin(tokio_stream::pending())
        }
    }

    fn machine(cx: &mut Cx) -> std::result::Result<(tokio::runtime::Runtime, Machine), String> {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap();
        let server = cx.rng.bool();
        let mut m = subj(|| {
            rt.block_on(Machine::new(
                server,
                Null::new(),
                Duration::from_secs(3600),
            ))
        })?;
        let chunk = if cx.rng.bool() { Some(cx.rng.range(1, 9)) } else { None };
        m.fragments(chunk);
        if cx.rng.bool() {
            let id = MAX31 - server as u32 - 2 * cx.rng.below(20) as u32;
            m.continue_ids(id);
        }
        Ok((rt, m))
    }

    fn payload(rng: &mut Rng) -> binate::Payload {
        let mut b = binate::Payload::builder();
        if rng.bool() {
            b = b.set_metadata(Bytes::from(vec![1u8; rng.below(20)]));
        }
        if rng.bool() {
            b = b.set_data(Bytes::from(vec![2u8; rng.below(20)]));
        }
        b.build()
    }

    /// Swallows most of it; some of it fails, or is never done. Publishes
    /// statuses while there is a budget.
    #[derive(Clone)]
    struct Flaky(Arc<FlakyState>);

    struct FlakyState {
        rng: Mutex<Rng>,
        failing: u32,
        budget: Mutex<(u32, Option<Waker>)>,
    }

    impl Flaky {
        fn new(seed: u64, failing: u32) -> Flaky {
            Flaky(Arc::new(FlakyState {
                rng: Mutex::new(Rng::new(seed)),
                failing,
                budget: Mutex::new((0, None)),
            }))
        }
        fn fate(&self) -> Result<()> {
            let mut rng = self.0.rng.lock().unwrap();
            if rng.below(100) < self.0.failing as usize {
                let kind = rng.below(100);
                return Err(crate::p_socket::fault(kind, format!("e{kind}")));
            }
            Ok(())
        }
        fn publish(&self, n: u32) {
            let mut b = self.0.budget.lock().unwrap();
            b.0 += n;
            if let Some(w) = b.1.take() {
                w.wake();
            }
        }
    }

    struct Statuses(Flaky);

    impl tokio_stream::Stream for Statuses {
        type Item = ConnectionStatus;
        fn poll_next(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
        ) -> Poll<Option<ConnectionStatus>> {
            let st = &self.0 .0;
            let mut b = st.budget.lock().unwrap();
            if b.0 == 0 {
                b.1 = Some(cx.waker().clone());
                return Poll::Pending;
            }
            b.0 -= 1;
            let n = st.rng.lock().unwrap().below(8);
            Poll::Ready(Some(match n {
                0 => ConnectionStatus::Closed,
                1 => ConnectionStatus::Connected,
                2 => ConnectionStatus::Connecting,
                _ => ConnectionStatus::Error("x".repeat(n * 5)),
            }))
        }
    }

    impl DuplexConnection for Flaky {
        fn send(&self, _: Frame) -> Mono<Result<()>> {
            let r = self.fate();
            let hangs = r.is_ok() && self.0.rng.lock().unwrap().chance(1, 5);
            Box::pin(async move {
                if hangs {
                    std::future::pending::<()>().await;
                }
                r
            })
        }
        fn send_and_forget(&self, _: Frame) -> Result<()> {
            self.fate()
        }
        fn send_stream(&self, _: Flux<Frame>) {}
        fn receive(&self) -> Flux<Frame> {
            Box::pin(tokio_stream::pending())
        }
        fn connect(&self) {}
        fn close(&self) {}
        fn connection_status(&self) -> Flux<ConnectionStatus> {
            Box::pin(Statuses(self.clone()))
        }
    }

    /// What went in last must not decide: each batch has new requests.
    const BATCHES: [u64; 8] = [150, 150, 300, 600, 1200, 2400, 4800, 9600];

    /// A machine that lives on does not collect memory, whatever becomes of
    /// what it sends.
    pub fn flat(cx: &mut Cx) -> Check {
        let end = Instant::now() + Duration::from_secs_f64(cx.secs);
        let mut round = 0;
        loop {
            let failing = [0, 30, 100, 3][round % 4];
            round += 1;
            let seed = cx.rng.u64();
            let conn = Flaky::new(seed, failing);
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .build()
                .unwrap();
            let server = cx.rng.bool();
            let c = conn.clone();
            let mut m = subj(|| {
                rt.block_on(Machine::new(server, c, Duration::from_secs(3600)))
            })?;
            let chunk =
                if cx.rng.bool() { Some(cx.rng.range(1, 40)) } else { None };
            m.fragments(chunk);
            if cx.rng.bool() {
                let id = MAX31 - server as u32 - 2 * cx.rng.below(20) as u32;
                m.continue_ids(id);
            }
            let max = *cx.rng.pick(&[3usize, 20, 200]);
            cx.obs.seen(mix(seed));
            let mut rng = Rng::new(mix(seed));
            let mut live = vec![];
            let mut failed = 0;
            for n in BATCHES {
                subj(|| {
                    for i in 0..n {
                        let r = m.clone();
                        if rng.chance(1, 4) {
                            let b =
                                Bytes::from(vec![3u8; rng.below(max + 1)]);
                            let mut f = r.requester().metadata_push(b);
                            let mut cx = Context::from_waker(Waker::noop());
                            if let Poll::Ready(Err(_)) =
                                f.as_mut().poll(&mut cx)
                            {
                                failed += 1;
                            }
                        } else {
                            let part = |rng: &mut Rng, k| {
                                let n = rng.below(max + 1);
                                rng.bool().then(|| Bytes::from(vec![k; n]))
                            };
                            let mut b = binate::Payload::builder();
                            if let Some(x) = part(&mut rng, 1u8) {
                                b = b.set_metadata(x);
                            }
                            if let Some(x) = part(&mut rng, 2u8) {
                                b = b.set_data(x);
                            }
                            let f = r.requester().fire_and_forget(b.build());
                            failed += f.is_err() as u64;
                        }
                        if i % 16 == 15 {
                            conn.publish(4);
                            rt.block_on(async {
                                for _ in 0..3 {
                                    tokio::task::yield_now().await
                                }
                            });
                        }
                    }
                })?;
                drop(crate::p_socket::reports());
                cx.obs.count("requests_of_long_lived_machines", n);
                live.push(all_live());
                cx.tick();
                if cfg!(miri) {
                    break;
                }
            }
            cx.obs.count("of_these_failing", failed);
            let grows = live.len() > 2 && live.windows(2).all(|w| w[1] > w[0]);
            ensure!(
                !grows,
                "live memory keeps growing with the requests of one machine (seed {seed}, {failing} % of the sends fail, {failed} requests failed): {live:?} bytes after batches of {BATCHES:?} requests"
            );
            drop(m);
            drop(rt);
            cx.tick();
            if Instant::now() >= end {
                return Ok(());
            }
        }
    }

    pub fn shared(cx: &mut Cx) -> Check {
        let end = Instant::now() + Duration::from_secs_f64(cx.secs);
        loop {
            let threads = if cfg!(miri) { 2 } else { cx.rng.range(2, 8) };
            let calls = if cfg!(miri) { 2 } else { 200 };
            let (rt, m) = machine(cx)?;
            let seed = cx.rng.u64();
            cx.obs.seen(mix(seed));
            team(threads, 1, |t, _| {
                let mut rng = Rng::new(mix(seed ^ t as u64));
                let mut r = m.clone();
                subj(|| {
                    for i in 0..calls {
                        match rng.below(8) {
                            0 => drop(
                                r.requester().metadata_push(Bytes::from(
                                    vec![3u8; rng.below(20)],
                                )),
                            ),
                            1 => r = m.clone(),
                            2 => drop(m.take_id((t * 7 + i * 2 + 1) as u32)),
                            3 => m.free_id((t * 7 + i * 2 + 1) as u32),
                            4 if i + 1 == calls => r.close(),
                            _ => {
                                let p = payload(&mut rng);
                                let _ = r.requester().fire_and_forget(p);
                            }
                        }
                    }
                })
            })?;
            // The last handles go away on another thread than they came.
            std::thread::scope(|s| {
                s.spawn(move || drop(m));
            });
            drop(rt);
            cx.obs.count("shared_machine_calls", (threads * calls) as u64);
            cx.tick();
            if cfg!(miri) || Instant::now() >= end {
                return Ok(());
            }
        }
    }
}

// --------------------------------------------------------------------- Miri

/// A few cases of everything, single process, for the interpreter.
pub fn mini(prop: &str, seed: u64, n: u64) -> Check {
    let dict = Dict::default();
    let progress = AtomicU64::new(0);
    let mut obs = Obs::default();
    let mut cx = Cx {
        rng: Rng::new(mix(seed)),
        dict: &dict,
        obs: &mut obs,
        workload: "mini",
        thorough: false,
        idx: 0,
        progress: &progress,
        secs: 0.0,
        threads: 2,
        note: None,
    };
    let mut teams: Vec<CaseFn> = match prop {
        "S02" => vec![p_ids::s02_rounds, p_ids::s02_bulk, p_ids::s02_dynamic],
        "S03" => vec![p_counter::s03_histories, p_counter::s03_untimed],
        _ => vec![
            values,
            ids,
            counter,
            p_counter::s03_untimed,
            p_ids::s02_bulk,
        ],
    };
    let own = prop == "S02" || prop == "S03";
    if !own {
        // The first use of anything, from two threads.
        let (cases, _) = start(seed, 2, 2);
        println!("MINI-START {cases}");
    }
    #[cfg(feature = "h-machine")]
    if !own {
        teams.push(hooks::shared);
    }
    let a = all();
    for i in 0..n {
        let k = mix(seed).wrapping_add(i);
        let t0 = Instant::now();
        if !own {
            let (p, w, m) = &a[k as usize % a.len()];
            eprintln!("{p} {}", w.name);
            other(&mut cx, w, *m, mix(k));
            let dt = t0.elapsed().as_millis();
            if dt > 5000 {
                eprintln!("slow {p} {} {dt}ms", w.name);
            }
        }
        let f = teams[k as usize % teams.len()];
        eprintln!("team {}", k as usize % teams.len());
        let r = f(&mut cx);
        // Verdicts on other properties are not the point in U01.
        if own {
            r?;
        }
        // Should this be stopped.
        println!("MINI-DONE {}", i + 1);
    }
    let c: Vec<String> =
        obs.counts.iter().map(|(k, v)| format!("{k}={v}")).collect();
    println!("MINI evals={n} {}", c.join(" "));
    Ok(())
}

// ------------------------------------------------------------------- starts

/// In a process that has not used the crate yet, threads use it at once, all
/// for the same: whatever is set up at its first use is set up then. Returns
/// how many cases there were, and those that did not hold though they did
/// when run again, alone.
pub fn start(seed: u64, threads: usize, n: usize) -> (u64, Vec<String>) {
    // Listing what M01 runs takes long.
    let a = of(OTHERS.iter().copied().filter(|p| *p != "M01"));
    let mut rng = Rng::new(mix(seed ^ 0x57A7));
    let mut picks = vec![];
    while picks.len() < n {
        let k = rng.below(a.len());
        let (_, w, _) = &a[k];
        // Those are long, have threads of their own, or measure.
        let long = matches!(w.name, "large" | "long-history" | "published-from-elsewhere" | "crowds");
        if !long && !w.name.contains("-large") {
            picks.push((k, rng.u64()));
        }
    }
    let dict = Dict::default();
    let progress = AtomicU64::new(0);
    let a = &a;
    let run = |k: usize, seed: u64| {
        let mut obs = Obs::default();
        let mut cx = Cx {
            rng: Rng::new(seed),
            dict: &dict,
            obs: &mut obs,
            workload: "start",
            thorough: false,
            idx: 0,
            progress: &progress,
            secs: 0.0,
            threads: 1,
            note: None,
        };
        quietly(&mut cx, &a[k].1, a[k].2, seed)
    };
    let failed: std::sync::Mutex<Vec<usize>> = Default::default();
    let ran = AtomicU64::new(0);
    let _ = team(threads, n, |_, r| {
        let (k, seed) = picks[r];
        if !run(k, seed) {
            failed.lock().unwrap().push(r);
        }
        ran.fetch_add(1, Ordering::SeqCst);
        Ok(())
    });
    let mut failed = failed.into_inner().unwrap();
    failed.sort_unstable();
    failed.dedup();
    let odd = failed
        .into_iter()
        .filter(|r| run(picks[*r].0, picks[*r].1))
        .map(|r| format!("{} {} (case {r} of the start, seed {})", a[picks[r].0].0, a[picks[r].0].1.name, picks[r].1))
        .collect();
    (ran.into_inner(), odd)
}

// -------------------------------------------------------- other machines

/// What does not depend on the machine: its byte order, its word size.
const PORTABLE: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11",
    "C12", "C13", "C14", "C15", "P01", "P02", "P03", "P04", "P05", "S01",
    "S04", "R01", "R04", "E01",
];

/// Cases of the properties that say what goes over the wire or comes out of
/// it, in turn, for `secs`; or one of them.
pub fn cross(seed: u64, part: u64, parts: u64, secs: f64, only: Option<(String, String, u64)>) -> i32 {
    let slow = |w: &Workload| {
        matches!(
            w.name,
            "long-history" | "long-histories" | "long" | "long-sequences"
                | "many-requests" | "beyond-32-bits" | "crowds" | "mime-chars"
                | "all" | "pairs" | "u24-all" | "repeated" | "long-totals" | "long-tokens"
        ) || w.name.contains("large")
            || w.name.contains("giant")
            || w.name.contains("chars")
            || w.name.contains("many")
    };
    let dict = Dict::default();
    let progress = AtomicU64::new(0);
    let run = |w: &Workload, n: u64, seed: u64| {
        let mut rng = Rng::new(seed);
        let idx = if n > 0 { rng.u64() % n } else { 0 };
        let mut obs = Obs::default();
        let mut cx = Cx {
            rng,
            dict: &dict,
            obs: &mut obs,
            workload: w.name,
            thorough: false,
            idx,
            progress: &progress,
            secs: 0.0,
            threads: 1,
            note: None,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (w.f)(&mut cx)));
        #[cfg(feature = "h-machine")]
        drop(crate::p_socket::reports());
        match r {
            Ok(r) => r,
            Err(_) => {
                reset_depth();
                Err(format!("harness: {}", last_panic().unwrap_or_default().0))
            }
        }
    };
    if let Some((p, name, seed)) = only {
        let v = any(PORTABLE.iter().copied().filter(|x| *x == p));
        let Some((_, w, n)) = v.iter().find(|(_, w, _)| w.name == name) else {
            println!("no such workload");
            return 2;
        };
        return match run(w, *n, seed) {
            Ok(()) => 0,
            Err(e) => {
                println!("CROSS-FAIL {p} {name} {seed} {}", e.replace('\n', " "));
                1
            }
        };
    }
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut v = any(PORTABLE.iter().copied());
    v.retain(|(_, w, _)| !slow(w));
    let mut cases = 0;
    let mut i = part;
    let mut took = vec![0; v.len()];
    loop {
        let k = (i % v.len() as u64) as usize;
        let (p, w, n) = &v[k];
        // Once will do for some.
        if took[k] > 400 && Instant::now() < end {
            took[k] -= 400;
            i += parts;
            continue;
        }
        let seed = mix(mix(seed) ^ i);
        i += parts;
        let t0 = Instant::now();
        // Where the harness itself needs too much, there is no verdict.
        if let Err(e) = run(w, *n, seed).or_else(|e| if e.starts_with("harness") { Ok(()) } else { Err(e) }) {
            println!("CROSS-FAIL {p} {} {seed} {}", w.name, e.replace('\n', " "));
            return 1;
        }
        cases += 1;
        if cases <= 4 {
            println!("CROSS-CASE {p} {} seed {seed}: holds", w.name);
        }
        let dt = t0.elapsed().as_millis();
        took[k] = if cfg!(miri) { dt } else { 0 };
        if dt > 2000 {
            eprintln!("slow {p} {} {dt}ms", w.name);
        }
        if Instant::now() >= end {
            println!("CROSS {cases} of {} kinds, {} bits, {} endian", v.len(), usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
            return 0;
        }
    }
}
