//! R01-R08: the requester and its background tasks.
use crate::kit::*;
use std::cell::RefCell;
use std::fmt::Write;
use std::sync::{Arc, Mutex};
use tracing_core::{span, Event, Level, Metadata, Subscriber};

thread_local! {
    static REPORTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    /// Where the workers of a runtime collect theirs.
    static SHARED: RefCell<Option<Arc<Mutex<Vec<String>>>>> = const { RefCell::new(None) };
}

/// Collects what the code under test reports as errors.
struct Reports;

struct Text(String);

impl tracing_core::field::Visit for Text {
    fn record_debug(
        &mut self,
        field: &tracing_core::Field,
        value: &dyn std::fmt::Debug,
    ) {
        if field.name() == "message" {
            let _ = write!(self.0, "{value:?}");
        } else {
            let _ = write!(self.0, " {}={value:?}", field.name());
        }
    }
    fn record_str(&mut self, field: &tracing_core::Field, value: &str) {
        let _ = write!(self.0, " {}={value}", field.name());
    }
}

impl Subscriber for Reports {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        (*m.level() == Level::ERROR || *m.level() == Level::WARN)
            && m.target().starts_with("binate")
    }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        SHARED.with(|s| match &*s.borrow() {
            Some(s) => s.lock().unwrap().push(t.0),
            None => REPORTS.with(|r| r.borrow_mut().push(t.0)),
        });
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn install_tracing() {
    tracing::subscriber::set_global_default(Reports).unwrap();
}

#[cfg(not(feature = "h-machine"))]
pub fn workloads(_: &str) -> Vec<Workload> {
    vec![]
}

#[cfg(feature = "h-machine")]
pub use hooks::*;

#[cfg(feature = "h-machine")]
mod hooks {
    use super::*;
    use crate::conn::*;
    use crate::gen::*;
    use crate::p_ids::{start_of, succ};
    use crate::p_giant::{alone, giant, part_of as giant_part, GIANT};
    use crate::p_payload::make;
    use crate::team::*;
    use crate::hooks::*;
    use binate::connection::ConnectionStatus;
    use binate::frame::Frame;
    use binate::{Code, Error};
    use bytes::Bytes;
    use std::collections::{BTreeMap, HashMap, HashSet};
    use std::io;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    use std::task::{Context, Poll, Waker};
    use std::time::Duration;
    use tokio::runtime::{Builder, Runtime};
    use tokio::time::Instant;

    pub fn workloads(prop: &str) -> Vec<Workload> {
        match prop {
            "R01" => vec![
                sweep("sizes", 14 * 14 * 15, 34 * 34 * 34, r01_sweep),
                sweep("large", R01_LARGE, R01_LARGE, r01_large),
                sweep("beyond-32-bits", 6 * 3 * 4, 6 * 3 * 4, r01_giants),
                sweep("long-histories", 8, 32, r01_history),
                random("requests", 4, r01),
                random("many-requests", 1, r01_many),
            ],
            "R02" => vec![
                sweep("fail-at", 12 * 12 * 12, 30 * 30 * 30, r02_sweep),
                sweep("large", R01_LARGE, R01_LARGE, r02_large),
                sweep("fault-kinds", (KINDS as u64 + 1) * 12, (KINDS as u64 + 1) * 12, r02_kinds),
                sweep("long-histories", 8, 32, r02_history),
                random("failures", 4, r02),
            ],
            "R03" => vec![
                custom("concurrent", 700, r03),
                custom("concurrent-near-wrap", 300, r03_wrap),
                sweep("from-within", 4 * 4 * 6 * 3 * 2, 4 * 4 * 6 * 3 * 2, r03_within_sweep),
                random("from-within-any", 2, r03_within),
            ],
            "R04" => vec![
                sweep("push-lengths", 600, 3000, r04_sweep),
                sweep("large", 42, 42, r04_large),
                sweep("beyond-32-bits", 12, 12, r04_giants),
                sweep("long-histories", 8, 32, r04_history),
                random("pushes", 4, r04),
                random("delayed", 2, r04_delayed),
                random("held-back", 2, r04_held),
            ],
            "R05" => vec![
                sweep("timeouts", 3000, 20_000, r05_sweep),
                random("with-activity", 4, r05),
                custom("in-real-time", 150, r05_real),
            ],
            "R07" => vec![
                sweep("two-sockets", 4 * 4 * 6 * 6, 4 * 4 * 6 * 6, r07_sweep),
                random("several-sockets", 4, r07),
                sweep("crowds", 3, 24, r07_crowd),
                random("many-sockets", 1, r07_many),
                custom("on-threads", 150, r07_threads),
            ],
            "R08" => vec![
                sweep("short-histories", 7u64.pow(4), 7u64.pow(6), r08_sweep),
                random("histories", 4, r08),
                custom("from-many-threads", 250, r08_threads),
            ],
            "R06" => vec![
                sweep("short-histories", 6u64.pow(4), 6u64.pow(6), r06_sweep),
                sweep("message-lengths", 1_200, 20_000, r06_messages),
                sweep("long-histories", 6, 24, r06_history),
                random("histories", 4, r06),
                random("published-from-elsewhere", 1, r06_threads),
                custom("on-many-workers", 200, r06_workers),
            ],
            _ => vec![],
        }
    }

    pub fn reports() -> Vec<String> {
        REPORTS.with(|r| std::mem::take(&mut *r.borrow_mut()))
    }

    fn runtime(paused: bool) -> Runtime {
        Builder::new_current_thread()
            .enable_time()
            .start_paused(paused)
            .build()
            .unwrap()
    }

    /// A runtime of several threads, and what is reported there.
    fn workers(n: usize) -> Result<(Runtime, Arc<Mutex<Vec<String>>>), String> {
        let told: Arc<Mutex<Vec<String>>> = Default::default();
        let sink = told.clone();
        let rt = Builder::new_multi_thread()
            .worker_threads(n)
            .enable_time()
            .on_thread_start(move || SHARED.with(|s| *s.borrow_mut() = Some(sink.clone())))
            .build()
            .map_err(|e| format!("harness: {e}"))?;
        Ok((rt, told))
    }

    const HOUR: Duration = Duration::from_secs(3600);

    /// Polls to completion, counting.
    fn complete<T>(mut f: binate::Mono<T>) -> Result<(T, usize), String> {
        let mut cx = Context::from_waker(Waker::noop());
        for n in 0..10_000 {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                return Ok((x, n));
            }
        }
        Err("the future does not complete".into())
    }

    /// What matters of a fragment.
    #[derive(Debug, Clone)]
    struct Part {
        first_kind: bool,
        sid: u32,
        follows: bool,
        meta: Option<Bytes>,
        data: Option<Bytes>,
    }

    fn part_of(f: &Frame) -> Option<Part> {
        match f {
            Frame::RequestFnf(f) => Some(Part {
                first_kind: true,
                sid: f.stream_id(),
                follows: f.is_follows(),
                meta: f.metadata().cloned(),
                data: f.request_data().cloned(),
            }),
            Frame::Payload(f) => Some(Part {
                first_kind: false,
                sid: f.stream_id(),
                follows: f.is_follows(),
                meta: f.metadata().cloned(),
                data: f.data().cloned(),
            }),
            _ => None,
        }
    }

    fn parts(log: &[Sent]) -> Result<Vec<Part>, String> {
        log.iter()
            .map(|s| {
                part_of(&s.frame).ok_or_else(|| {
                    format!("a {} frame was sent for a request", crate::model::variant(&s.frame))
                })
            })
            .collect()
    }

    /// The rules for the frames of one request; `cut`: the last was refused.
    fn request(
        parts: &[Part],
        chunk: Option<usize>,
        meta: &[u8],
        data: &[u8],
        cut: bool,
    ) -> Check {
        ensure!(!parts.is_empty(), "no frame was handed to the connection");
        ensure!(chunk.is_some() || parts.len() == 1, "{} frames without a fragment size", parts.len());
        ensure!(parts[0].first_kind, "the first frame is no fire-and-forget request");
        let (mut m, mut d) = (vec![], vec![]);
        for (i, p) in parts.iter().enumerate() {
            ensure!(p.sid == parts[0].sid, "frame {i} is on stream {}, the first on {}", p.sid, parts[0].sid);
            let last = i + 1 == parts.len();
            if !cut {
                ensure!(p.follows != last, "frame {i} of {} has follows={}", parts.len(), p.follows);
            } else {
                ensure!(p.follows || last, "frame {i} has follows=false, yet {} more came", parts.len() - 1 - i);
            }
            for (name, b) in [("metadata", &p.meta), ("data", &p.data)] {
                let n = b.as_ref().map_or(0, |b| b.len());
                if let Some(c) = chunk {
                    ensure!(n <= c, "frame {i} carries {n} bytes of {name}, the fragment size is {c}");
                }
            }
            m.extend_from_slice(p.meta.as_deref().unwrap_or(&[]));
            d.extend_from_slice(p.data.as_deref().unwrap_or(&[]));
        }
        for (name, got, want) in [("metadata", &m[..], meta), ("data", &d[..], data)] {
            if cut {
                ensure!(want.starts_with(got), "{name} sent before the failure is no prefix");
            } else {
                ensure!(got == want, "{name} reassembles to {} instead of {}", crate::model::short(got), crate::model::short(want));
            }
        }
        Ok(())
    }

    fn fresh(sid: u32, server: bool, busy: &HashSet<u32>, used: &mut HashSet<u32>) -> Check {
        ensure!(sid >= 1 && sid <= MAX31, "stream ID {sid}");
        ensure!(sid & 1 == start_of(server) & 1, "stream ID {sid} has the wrong parity");
        ensure!(!busy.contains(&sid), "stream ID {sid} is in use");
        ensure!(used.insert(sid), "stream ID {sid} was already used for a request");
        Ok(())
    }

    fn desc(chunk: Option<usize>, m: &Option<Bytes>, d: &Option<Bytes>) -> String {
        let l = |o: &Option<Bytes>| o.as_ref().map(|b| b.len().to_string()).unwrap_or("none".into());
        format!("fragment size {chunk:?}, metadata {}, data {}", l(m), l(d))
    }

    fn bytes_of_opt(b: &Option<Bytes>) -> &[u8] {
        b.as_deref().unwrap_or(&[])
    }

    fn machine(rt: &Runtime, server: bool, conn: &Conn, timeout: Duration) -> Result<Machine, String> {
        let c = conn.clone();
        subj(|| rt.block_on(Machine::new(server, c, timeout)))
    }

    fn always() -> Box<Decide> {
        Box::new(|_| Fate::ok())
    }

    // --------------------------------------------------------------- R01

    fn numbered(n: Option<usize>, k: u8) -> Option<Bytes> {
        n.map(|n| Bytes::from((0..n).map(|i| (i as u8).wrapping_mul(7) ^ k).collect::<Vec<u8>>()))
    }

    fn opt(i: u64) -> Option<usize> {
        i.checked_sub(1).map(|i| i as usize)
    }

    fn r01_sweep(cx: &mut Cx) -> Check {
        let (a, c) = if cx.thorough { (34, 34) } else { (14, 15) };
        let i = cx.idx;
        let (m, d) = (numbered(opt(i % a), 0), numbered(opt(i / a % a), 0x80));
        let chunk = Some((i / a / a % c) as usize).filter(|c| *c > 0);
        let server = i % 2 == 1;
        cx.obs.seen(i);
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::idle(always());
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = mach.fragments(chunk);
        let p = make(&m, &d);
        let r = subj(|| mach.requester().fire_and_forget(p))
            .map_err(|e| format!("{e} [{}]", desc(chunk, &m, &d)))?;
        let log = conn.log();
        cx.obs.count("frames", log.len() as u64);
        (|| {
            ensure!(r.is_ok(), "the call failed: {:?}", r.err().map(|e| e.to_string()));
            let ps = parts(&log)?;
            request(&ps, chunk, bytes_of_opt(&m), bytes_of_opt(&d), false)?;
            fresh(ps[0].sid, server, &HashSet::new(), &mut HashSet::new())
        })()
        .map_err(|e: String| format!("{e} [{}]", desc(chunk, &m, &d)))
    }

    const BIG: [usize; 14] = [
        65_535, 65_536, 65_537, 131_071, 131_072, 262_144, 1_048_576,
        4_194_305, 8_388_608, 16_777_214, 16_777_215, 16_777_216, 16_777_217,
        33_554_432,
    ];
    const R01_LARGE: u64 = 14 * 3 * 9;

    fn big(n: usize, k: u8) -> Bytes {
        let one = crate::p_codec::pattern(n.min(MAX24), k);
        if n <= MAX24 {
            return one;
        }
        let mut v = one.to_vec();
        while v.len() < n {
            let k = (n - v.len()).min(MAX24);
            v.extend_from_slice(&one[..k]);
        }
        v.into()
    }

    /// Long metadata or data, and a fragment size.
    fn large(i: u64) -> (Option<Bytes>, Option<Bytes>, Option<usize>) {
        let n = BIG[(i % 14) as usize];
        let x = Some(big(n, 5));
        let (m, d) = match i / 14 % 3 {
            0 => (x, [None, Some(big(1, 9))][n % 2].clone()),
            1 => ([None, Some(big(300, 9)), Some(big(0, 9))][n % 3].clone(), x),
            _ => (x, Some(big(BIG[(i * 5 % 14) as usize], 70))),
        };
        let chunk = match i / 42 {
            0 => None,
            1 => Some(65_535),
            2 => Some(65_536),
            3 => Some(MAX24),
            4 => Some(MAX24 + 1),
            5 => Some(n),
            6 => Some(n - 1),
            7 => Some(n / 2),
            _ => Some(n / 300 + 1),
        };
        (m, d, chunk)
    }

    fn r01_large(cx: &mut Cx) -> Check {
        let (m, d, chunk) = large(cx.idx);
        let server = cx.idx % 2 == 1;
        cx.obs.seen(1 << 40 | cx.idx);
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::idle(always());
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = mach.fragments(chunk);
        let p = make(&m, &d);
        let r = subj(|| mach.requester().fire_and_forget(p))
            .map_err(|e| format!("{e} [{}]", desc(chunk, &m, &d)))?;
        let log = conn.log();
        cx.obs.count("frames", log.len() as u64);
        (|| {
            ensure!(r.is_ok(), "the call failed: {:?}", r.err().map(|e| e.to_string()));
            let ps = parts(&log)?;
            request(&ps, chunk, bytes_of_opt(&m), bytes_of_opt(&d), false)
        })()
        .map_err(|e: String| format!("{e} [{}]", desc(chunk, &m, &d)))
    }

    const GIANT_LENS: [usize; 6] = [(1u64 << 32) as usize, (1u64 << 32) as usize + 77, ((1u64 << 32) - 1) as usize, GIANT, 1 << 31, (1 << 30) + 1];

    fn r01_giants(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let n = GIANT_LENS[i % 6];
        let chunk = [None, Some(n / 3 + 1), Some(1 << 31), Some(n)][i / 18];
        let long = Some(giant_part(n));
        let (m, d) = match i / 6 % 3 {
            0 => (long, None),
            1 => (Some(Bytes::from("m")), long),
            _ => (Some(giant_part(n / 2)), long),
        };
        let Some(_one) = alone(cx) else { return Ok(()) };
        cx.obs.seen(9 << 40 | cx.idx);
        cx.obs.count("giant_requests", 1);
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::idle(always());
        let mut mach = machine(&rt, i % 2 == 1, &conn, HOUR)?;
        let chunk = mach.fragments(chunk);
        subj(|| {
            let r = mach.requester().fire_and_forget(make(&m, &d));
            ensure!(r.is_ok(), "the call failed");
            let log = conn.take_log();
            let ps = parts(&log)?;
            ensure!(chunk.is_some() || ps.len() == 1, "{} frames without a fragment size", ps.len());
            ensure!(!ps.is_empty() && ps[0].first_kind, "the first frame is no fire-and-forget request");
            let (mut am, mut ad) = (0, 0);
            for (k, p) in ps.iter().enumerate() {
                ensure!(p.sid == ps[0].sid, "frame {k} is on another stream");
                ensure!(p.follows == (k + 1 < ps.len()), "frame {k} of {} has follows={}", ps.len(), p.follows);
                for (name, got, all, at) in [("metadata", &p.meta, &m, &mut am), ("data", &p.data, &d, &mut ad)] {
                    let Some(b) = got else { continue };
                    ensure!(b.len() <= chunk.unwrap_or(usize::MAX), "frame {k} carries {} bytes of {name}", b.len());
                    let want = bytes_of_opt(all).get(*at..*at + b.len());
                    ensure!(want.is_some(), "{name} is too long from frame {k} on");
                    crate::p_giant::alike_at_ends(name, Some(b), want.unwrap())?;
                    *at += b.len();
                }
            }
            ensure!(am == bytes_of_opt(&m).len(), "{am} bytes of metadata arrive");
            ensure!(ad == bytes_of_opt(&d).len(), "{ad} bytes of data arrive");
            Ok(())
        })
        .and_then(|r| r)
        .map_err(|e| format!("{e} [{}]", desc(chunk, &m, &d)))
    }

    /// As many requests as it takes for small counters to wrap.
    fn r01_history(cx: &mut Cx) -> Check {
        let i = cx.idx;
        let n = if cx.thorough { 500_000 } else { 70_000 };
        let server = i % 2 == 1;
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::idle(always());
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = mach.fragments([None, Some(1), Some(3), None][(i / 2 % 4) as usize]);
        let other = mach.clone();
        let mut used = HashSet::new();
        let busy = HashSet::new();
        for k in 0..n {
            let who = if i >= 8 && k % 3 == 1 { &other } else { &mach };
            let (m, d) = (numbered(opt(k % 5), k as u8), numbered(opt(k / 5 % 5), !k as u8));
            let p = make(&m, &d);
            let r = subj(|| who.requester().fire_and_forget(p)).map_err(|e| format!("{e} [request {k}]"))?;
            let log = conn.take_log();
            cx.obs.count("frames", log.len() as u64);
            (|| {
                ensure!(r.is_ok(), "the call failed: {:?}", r.err().map(|e| e.to_string()));
                let ps = parts(&log)?;
                request(&ps, chunk, bytes_of_opt(&m), bytes_of_opt(&d), false)?;
                fresh(ps[0].sid, server, &busy, &mut used)
            })()
            .map_err(|e: String| format!("{e} [request {k}, {}]", desc(chunk, &m, &d)))?;
            if k % 4096 == 0 {
                cx.tick();
            }
        }
        cx.obs.seen(2 << 40 | i);
        cx.obs.count("requests_in_long_histories", n);
        Ok(())
    }

    fn fragment_size(cx: &mut Cx, n: usize) -> Option<usize> {
        match cx.rng.below(10) {
            0 | 1 => None,
            2 => Some(*cx.rng.pick(&[usize::MAX, 1 << 32, 1 << 24, MAX24, usize::MAX / 2 + 1])),
            3 => Some(n.max(1)),
            4 => Some(n + 1),
            5 => Some((n / cx.rng.range(1, 9)).max(1)),
            6 => Some(cx.rng.range(1, 5).max(n / 5000)),
            _ => Some(cx.rng.range(1, 200).max(n / 5000)),
        }
    }

    /// Uses an ID range somewhere; returns the IDs in use.
    fn place(cx: &mut Cx, mach: &mut Machine, server: bool, budget: usize) -> HashSet<u32> {
        let mut first = start_of(server);
        if cx.rng.bool() {
            let last = if server { MAX31 - 1 } else { MAX31 };
            first = if cx.rng.bool() {
                last - 2 * cx.rng.below(budget + 2) as u32
            } else {
                match u31(cx) & !1 | (first & 1) {
                    0 => 2,
                    x => x,
                }
            };
            if !mach.continue_ids(first) {
                first = start_of(server);
            }
        }
        let mut busy = HashSet::new();
        if cx.rng.bool() {
            let k = cx.rng.range(1, 6);
            let mut id = first;
            for _ in 0..budget * 2 + 4 {
                if cx.rng.chance(k, 8) {
                    if mach.take_id(id) {
                        busy.insert(id);
                    }
                }
                id = succ(id);
            }
        }
        busy
    }

    fn payload(cx: &mut Cx, max: usize) -> (Option<Bytes>, Option<Bytes>) {
        let max = if cx.rng.chance(1, 30) { max } else { 3000 };
        crate::gen::parts(cx, max)
    }

    fn r01(cx: &mut Cx) -> Check {
        let n = cx.rng.range(1, 4);
        r01_run(cx, n, 300_000)
    }

    fn r01_many(cx: &mut Cx) -> Check {
        let n = cx.rng.range(20, 200);
        r01_run(cx, n, 100)
    }

    fn r01_run(cx: &mut Cx, requests: usize, max: usize) -> Check {
        let server = cx.rng.bool();
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::idle(always());
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let mut busy = place(cx, &mut mach, server, requests);
        let mut used = HashSet::new();
        let mut other = mach.clone();
        for i in 0..requests {
            let (m, d) = payload(cx, max);
            let biggest = bytes_of_opt(&m).len().max(bytes_of_opt(&d).len());
            let chunk = fragment_size(cx, biggest);
            let who = if cx.rng.bool() { &mut mach } else { &mut other };
            let chunk = who.fragments(chunk);
            if cx.rng.chance(1, 4) && !busy.is_empty() {
                let id = *busy.iter().min().unwrap();
                who.free_id(id);
                busy.remove(&id);
            }
            let p = make(&m, &d);
            let r = subj(|| who.requester().fire_and_forget(p))
                .map_err(|e| format!("{e} [request {i}, {}]", desc(chunk, &m, &d)))?;
            let log = conn.take_log();
            cx.obs.count("requests", 1);
            cx.obs.count("frames", log.len() as u64);
            let total = log.len();
            (|| {
                ensure!(r.is_ok(), "the call failed: {:?}", r.err().map(|e| e.to_string()));
                let ps = parts(&log)?;
                request(&ps, chunk, bytes_of_opt(&m), bytes_of_opt(&d), false)?;
                fresh(ps[0].sid, server, &busy, &mut used)
            })()
            .map_err(|e: String| format!("{e} [request {i}, {}, server {server}]", desc(chunk, &m, &d)))?;
            cx.obs.seen(mix(
                len_class(m.map(|b| b.len())) ^ mix(len_class(d.map(|b| b.len())) ^ mix(len_class(chunk) ^ (total as u64) << 32)),
            ));
        }
        cx.sample(|| format!("{requests} requests, server {server}, {} IDs in use, used {:?}", busy.len(), used.iter().take(4).collect::<Vec<_>>()));
        Ok(())
    }

    // --------------------------------------------------------------- R02

    const KINDS: usize = 100;

    /// Some error, mostly with its own text.
    pub fn fault(kind: usize, text: String) -> Error {
        use io::ErrorKind::*;
        const IO: [io::ErrorKind; 20] = [
            BrokenPipe, WouldBlock, Interrupted, TimedOut, ConnectionReset,
            ConnectionAborted, ConnectionRefused, NotConnected, WriteZero,
            UnexpectedEof, NotFound, PermissionDenied, AddrInUse,
            AddrNotAvailable, AlreadyExists, InvalidInput, InvalidData,
            Unsupported, OutOfMemory, Other,
        ];
        const CODES: [Code; 10] = [
            Code::ConnectionClose, Code::Rejected, Code::ConnectionError,
            Code::Canceled, Code::Invalid, Code::ApplicationError,
            Code::InvalidSetup, Code::UnsupportedSetup, Code::RejectedSetup,
            Code::RejectedResume,
        ];
        let n = kind / 4;
        match kind % 4 {
            0 => io::Error::new(IO[n % 20], text).into(),
            1 => protocol(CODES[n % 10], Some(text.clone()).filter(|_| n < 15)).unwrap_or_else(|| io::Error::other(text).into()),
            2 if n < 3 => match n {
                0 => binate::frame::DecodeError::InComplete.into(),
                1 => binate::frame::DecodeError::UnrecognizedFrameType(9).into(),
                _ => binate::frame::DecodeError::InvalidStreamId { expected: "0", found: 5 }.into(),
            },
            2 => io::Error::from(IO[n % 20]).into(),
            _ => io::Error::from_raw_os_error([4, 11, 32, 104, 110, 12, 5, 103, 107, 111, 9, 28][n % 12]).into(),
        }
    }

    /// In place of a kind: the connection panics.
    const BROKEN: usize = usize::MAX;

    /// How a frame is not taken.
    fn failing(kind: usize, text: String) -> Fate {
        if kind == BROKEN {
            Fate::broken()
        } else {
            Fate::refused(fault(kind, text))
        }
    }

    fn any_kind(rng: &mut Rng) -> usize {
        match rng.below(KINDS + KINDS / 6) {
            k if k < KINDS => k,
            _ => BROKEN,
        }
    }

    fn same_error(got: &Error, want: &Error) -> bool {
        use std::error::Error as _;
        let io = |e: &Error| e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|i| (i.kind(), i.raw_os_error()));
        got.to_string() == want.to_string()
            && format!("{got:?}") == format!("{want:?}")
            && crate::p_misc::answers(got) == crate::p_misc::answers(want)
            && io(got) == io(want)
    }

    struct Faults {
        sent: usize,
        at: Option<usize>,
        kind: usize,
        text: String,
    }

    fn faulty() -> (Conn, Arc<Mutex<Faults>>) {
        let plan = Arc::new(Mutex::new(Faults { sent: 0, at: None, kind: 0, text: String::new() }));
        let p = plan.clone();
        let conn = Conn::idle(Box::new(move |_| {
            let mut p = p.lock().unwrap();
            p.sent += 1;
            if p.at == Some(p.sent - 1) {
                failing(p.kind, p.text.clone())
            } else {
                Fate::ok()
            }
        }));
        (conn, plan)
    }

    #[allow(clippy::too_many_arguments)]
    fn r02_one(
        cx: &mut Cx,
        mach: &Machine,
        conn: &Conn,
        plan: &Arc<Mutex<Faults>>,
        server: bool,
        busy: &HashSet<u32>,
        used: &mut HashSet<u32>,
        chunk: Option<usize>,
        m: Option<Bytes>,
        d: Option<Bytes>,
        at: Option<usize>,
        kind: usize,
        tag: usize,
    ) -> Check {
        let text = format!("fault {tag:x}");
        *plan.lock().unwrap() = Faults { sent: 0, at, kind, text: text.clone() };
        let p = make(&m, &d);
        let r = subj_through(|| mach.requester().fire_and_forget(p))
            .map_err(|e| format!("{e} [{}, frame {at:?} refused]", desc(chunk, &m, &d)))?;
        let broken = r.is_none();
        let r = r.unwrap_or_else(|| Err(io::Error::other("the connection panicked").into()));
        if broken {
            cx.obs.count("requests_whose_connection_panicked", 1);
        }
        let log = conn.take_log();
        let hit = log.iter().any(|s| s.refused);
        cx.obs.count("frames", log.len() as u64);
        cx.obs.count(if hit { "failed_requests" } else { "successful_requests" }, 1);
        (|| {
            let ps = parts(&log)?;
            match (hit, r) {
                (false, Ok(())) => request(&ps, chunk, bytes_of_opt(&m), bytes_of_opt(&d), false)?,
                (false, Err(e)) => return Err(format!("nothing was refused, yet the call failed with '{e}'")),
                (true, Ok(())) => return Err(format!("frame {} was refused, yet the call succeeded", at.unwrap())),
                (true, Err(e)) => {
                    let k = at.unwrap();
                    ensure!(log.len() == k + 1, "{} more frames were sent after frame {k} was refused", log.len() - k - 1);
                    if kind != BROKEN {
                        let want = fault(kind, text);
                        ensure!(same_error(&e, &want), "the connection failed with '{want}', the call with '{e}'");
                    }
                    // The refused frame belongs to the request as well.
                    request(&ps, chunk, bytes_of_opt(&m), bytes_of_opt(&d), true)?;
                }
            }
            fresh(ps[0].sid, server, busy, used)
        })()
        .map_err(|e: String| format!("{e} [{}, frame {at:?} refused]", desc(chunk, &m, &d)))
    }

    fn r02_sweep(cx: &mut Cx) -> Check {
        let a = if cx.thorough { 30 } else { 12 };
        let i = cx.idx;
        let n = (i % a) as usize;
        let chunk = Some((i / a % a) as usize).filter(|c| *c > 0);
        let at = (i / a / a) as usize;
        cx.obs.seen(i);
        let server = i % 2 == 0;
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = faulty();
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = mach.fragments(chunk);
        let mut used = HashSet::new();
        let busy = HashSet::new();
        let m = numbered(opt((i % 5) * n as u64 / 4), 3);
        let d = numbered(Some(n), 0x83);
        r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, m.clone(), d.clone(), Some(at), if i % 7 == 3 { BROKEN } else { i as usize % KINDS }, i as usize)?;
        // Later requests are not affected.
        r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, d.clone(), m.clone(), None, 0, 1)?;
        r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, m, d, None, 0, 2)
    }

    /// Every kind of error at the first few frames.
    fn r02_kinds(cx: &mut Cx) -> Check {
        let k = cx.idx as usize % (KINDS + 1);
        let at = cx.idx as usize / (KINDS + 1);
        cx.obs.seen(3 << 40 | cx.idx);
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = faulty();
        let mut mach = machine(&rt, k % 2 == 0, &conn, HOUR)?;
        let (chunk, at) = if at < 4 { (None, at) } else { (Some(10), at - 4) };
        let chunk = mach.fragments(chunk);
        let (busy, mut used) = (HashSet::new(), HashSet::new());
        let (m, d) = (numbered(Some(35), 1), numbered(Some(52), 2));
        for j in 0..3 {
            // Again, from a new request, and a different kind.
            let kind = if j < 2 { k } else { (k * 7 + 3) % KINDS };
            let kind = if kind < KINDS { kind } else { BROKEN };
            r02_one(cx, &mach, &conn, &plan, k % 2 == 0, &busy, &mut used, chunk, m.clone(), d.clone(), Some(at), kind, j)?;
        }
        r02_one(cx, &mach, &conn, &plan, k % 2 == 0, &busy, &mut used, chunk, m.clone(), d, None, 0, 9)
    }

    fn r02_large(cx: &mut Cx) -> Check {
        let (m, d, chunk) = large(cx.idx);
        let server = cx.idx % 2 == 1;
        cx.obs.seen(1 << 40 | cx.idx);
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = faulty();
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = mach.fragments(chunk);
        let n = bytes_of_opt(&m).len().max(bytes_of_opt(&d).len());
        let frames = n.div_ceil(chunk.unwrap_or(n));
        let (busy, mut used) = (HashSet::new(), HashSet::new());
        let mut at = vec![0, frames / 2, frames - 1];
        at.dedup();
        for (k, at) in at.into_iter().enumerate() {
            r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, m.clone(), d.clone(), Some(at), if k == 1 { BROKEN } else { k }, k)?;
        }
        let m = numbered(Some(2), 1);
        r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, m.clone(), m, None, 0, 9)
    }

    /// Many refusals over one connection.
    fn r02_history(cx: &mut Cx) -> Check {
        let i = cx.idx;
        let n = if cx.thorough { 200_000 } else { 40_000 };
        let server = i % 2 == 1;
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = faulty();
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = mach.fragments([None, Some(1), Some(2), Some(1)][(i / 2 % 4) as usize]);
        let (busy, mut used) = (HashSet::new(), HashSet::new());
        for k in 0..n {
            let at = match i % 4 {
                0 => Some(0),
                1 => (k % 2 == 0).then_some(k % 3),
                2 => (k % 1000 != 7).then_some(k / 7 % 4),
                _ => (mix(k as u64) % 8 == 0).then_some(1),
            };
            let (m, d) = (numbered(opt(k as u64 % 4), k as u8), numbered(opt(k as u64 / 4 % 5), !k as u8));
            r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, m, d, at, if (k / 3 + i as usize / 2) % 3 == 1 { BROKEN } else { k }, k).map_err(|e| format!("{e} [request {k}]"))?;
            if k % 4096 == 0 {
                cx.tick();
            }
        }
        cx.obs.seen(2 << 40 | i);
        cx.obs.count("requests_in_long_histories", n as u64);
        Ok(())
    }

    fn r02(cx: &mut Cx) -> Check {
        let server = cx.rng.bool();
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = faulty();
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let n = cx.rng.range(2, 12);
        let busy = place(cx, &mut mach, server, n);
        let mut used = HashSet::new();
        let mut fp = 1;
        for i in 0..n {
            let (m, d) = payload(cx, 60_000);
            let big = bytes_of_opt(&m).len().max(bytes_of_opt(&d).len());
            let chunk = fragment_size(cx, big);
            let chunk = mach.fragments(chunk);
            let frames = big / chunk.unwrap_or(usize::MAX) + 1;
            let at = match cx.rng.below(6) {
                0 => None,
                1 => Some(0),
                2 => Some(frames.saturating_sub(2)),
                3 => Some(frames.saturating_sub(1)),
                4 => Some(frames),
                _ => Some(cx.rng.below(frames + 1)),
            };
            fp = mix(fp ^ mix(frames as u64) ^ at.map_or(0, |a| a as u64 + 1));
            let kind = any_kind(&mut cx.rng);
            let tag = cx.rng.u64() as usize ^ i;
            r02_one(cx, &mach, &conn, &plan, server, &busy, &mut used, chunk, m, d, at, kind, tag)?;
            if cx.rng.chance(1, 5) {
                // Something else in between.
                *plan.lock().unwrap() = Faults { sent: 0, at: None, kind: 0, text: String::new() };
                let r = subj(|| complete(mach.requester().metadata_push(Bytes::from_static(b"x"))))??;
                ensure!(r.0.is_ok(), "a metadata push failed without cause");
                conn.take_log();
            }
        }
        cx.obs.seen(fp);
        cx.sample(|| format!("{n} requests over one connection, server {server}, {} IDs in use", busy.len()));
        Ok(())
    }

    // --------------------------------------------------------------- R03

    thread_local! {
        /// Which frame of the current request is to be refused, and how many
        /// have been sent.
        static NOW: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((usize::MAX, 0)) };
    }

    fn k_of(salt: u64, n: usize) -> usize {
        match mix(salt ^ n as u64) {
            k if k % 5 == 0 => BROKEN,
            k => (k / 5 % KINDS as u64) as usize,
        }
    }

    pub fn r03(cx: &mut Cx) -> Check {
        r03_run(cx, false)
    }

    pub fn r03_wrap(cx: &mut Cx) -> Check {
        r03_run(cx, true)
    }

    fn r03_run(cx: &mut Cx, wrap: bool) -> Check {
        let end = std::time::Instant::now() + Duration::from_secs_f64(cx.secs);
        loop {
            r03_round(cx, wrap)?;
            cx.tick();
            if std::time::Instant::now() >= end {
                return Ok(());
            }
        }
    }

    /// A request recognisable by its first bytes.
    struct Job {
        meta: Option<Bytes>,
        data: Option<Bytes>,
        push: bool,
        fail: usize,
    }

    pub fn r03_round(cx: &mut Cx, wrap: bool) -> Check {
        let threads = if cfg!(miri) { 2 } else { cx.rng.range(2, cx.threads.max(2)) };
        let per = if cfg!(miri) { 2 } else { cx.rng.range(3, 60) };
        let server = cx.rng.bool();
        let delays = cx.rng.below(3);
        let rt = runtime(true);
        let _in = rt.enter();
        let salt = cx.rng.u64();
        let conn = Conn::idle(Box::new(move |f| {
            let (fail, n) = NOW.get();
            NOW.set((fail, n + 1));
            if delays > 0 {
                let k = crate::kit::mix(salt ^ n as u64 ^ (f as *const _ as u64));
                if delays == 2 && k % 16 == 0 {
                    std::thread::yield_now();
                }
                spin((k >> 8) as u32 % 300);
            }
            if fail == n {
                failing(k_of(salt, n), "refused".into())
            } else {
                Fate::ok()
            }
        }));
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = match cx.rng.below(4) {
            0 => None,
            1 => Some(1),
            _ => Some(cx.rng.range(2, 40)),
        };
        let mut first = start_of(server);
        if wrap {
            let last = if server { MAX31 - 1 } else { MAX31 };
            first = last - 2 * cx.rng.below(threads * per) as u32;
            if !mach.continue_ids(first) {
                first = start_of(server);
            }
        }
        let mut busy = HashSet::new();
        if cx.rng.bool() {
            let mut id = first;
            for _ in 0..threads * per {
                if cx.rng.chance(1, 3) {
                    if mach.take_id(id) {
                        busy.insert(id);
                    }
                }
                id = succ(id);
            }
        }
        let chunk = mach.fragments(chunk);
        let failures = cx.rng.bool();
        // All requests are of the same few lengths, so that a mix-up shows.
        let max = if cfg!(miri) { 8 } else { cx.rng.range(12, 100) };
        let mut jobs: Vec<Vec<Job>> = vec![];
        for t in 0..threads {
            let mut v = vec![];
            for i in 0..per {
                // Every byte tells whose it is.
                let mark = |n: usize, k: u32| {
                    let tag = (t as u32) << 20 | (i as u32) << 4 | k;
                    Bytes::from(
                        (0..n)
                            .map(|j| if j < 4 { (tag >> (8 * (3 - j))) as u8 } else { mix(tag as u64 ^ (j as u64) << 32) as u8 })
                            .collect::<Vec<u8>>(),
                    )
                };
                let push = cx.rng.chance(1, 6);
                let n = cx.rng.range(4, max);
                v.push(Job {
                    meta: (push || cx.rng.bool()).then(|| mark(n, 1)),
                    data: Some(mark(cx.rng.range(4, max), 2)),
                    push,
                    fail: if failures && cx.rng.chance(1, 4) { cx.rng.below(6) } else { usize::MAX },
                });
            }
            jobs.push(v);
        }
        let results: Vec<Mutex<Vec<bool>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
        let clones: Vec<Option<Machine>> = (0..threads).map(|_| cx.rng.bool().then(|| mach.clone())).collect();
        team(threads, 1, |t, _| {
            let m = clones[t].as_ref().unwrap_or(&mach);
            let _in = rt.enter();
            let mut v = vec![];
            subj(|| -> Check {
                for j in &jobs[t] {
                    NOW.set((j.fail, 0));
                    let r = subj_through(|| -> Result<_, String> {
                        if j.push {
                            complete(m.requester().metadata_push(j.meta.clone().unwrap())).map(|r| r.0)
                        } else {
                            Ok(m.requester().fire_and_forget(make(&j.meta, &j.data)))
                        }
                    })?;
                    v.push(r.transpose()?.is_some_and(|r| r.is_ok()));
                }
                Ok(())
            })??;
            *results[t].lock().unwrap() = v;
            Ok(())
        })?;
        let log = conn.take_log();
        let ctx = format!("{threads} threads x {per} requests, fragment size {chunk:?}, first ID {first}");
        // Group by stream.
        let mut streams: BTreeMap<u32, Vec<&Sent>> = BTreeMap::new();
        let mut pushes: HashMap<Bytes, usize> = HashMap::new();
        let mut order = vec![];
        for s in &log {
            match &s.frame {
                Frame::MetadataPush(f) => *pushes.entry(f.metadata().clone()).or_default() += 1,
                f => {
                    let p = part_of(f).ok_or_else(|| format!("a {} frame was sent [{ctx}]", crate::model::variant(f)))?;
                    order.push(p.sid);
                    streams.entry(p.sid).or_default().push(s);
                }
            }
        }
        let mut by_tag: HashMap<u32, u32> = HashMap::new();
        for (sid, sent) in &streams {
            let mut used = HashSet::new();
            fresh(*sid, server, &busy, &mut used).map_err(|e| format!("{e} [{ctx}]"))?;
            let sent_log: Vec<Sent> = sent.iter().map(|s| (*s).clone()).collect();
            let ps = parts(&sent_log)?;
            // Whose request is it? Its data or metadata starts with the tag,
            // which may come in several pieces.
            let cat = |f: fn(&Part) -> &Option<Bytes>| -> Vec<u8> { ps.iter().flat_map(|p| bytes_of_opt(f(p)).to_vec()).collect() };
            let d = cat(|p| &p.data);
            let refused = sent_log.last().unwrap().refused;
            ensure!(!sent_log[..sent_log.len() - 1].iter().any(|s| s.refused), "frames follow a refused one on stream {sid} [{ctx}]");
            if d.len() < 4 {
                ensure!(refused, "stream {sid} carries only {} bytes of data [{ctx}]", d.len());
                continue;
            }
            let tag = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
            let (t, i) = ((tag >> 20) as usize, (tag >> 4 & 0xFFFF) as usize);
            let Some(j) = jobs.get(t).and_then(|v| v.get(i)) else {
                return Err(format!("stream {sid} carries no known request [{ctx}]"));
            };
            if let Some(o) = by_tag.insert(tag, *sid) {
                return Err(format!("request {i} of thread {t} appears on streams {o} and {sid} [{ctx}]"));
            }
            ensure!(!j.push, "a metadata push appears on stream {sid} [{ctx}]");
            ensure!(results[t].lock().unwrap()[i] != refused, "request {i} of thread {t} has result ok={}, refused={refused} [{ctx}]", !refused);
            request(&ps, chunk, bytes_of_opt(&j.meta), bytes_of_opt(&j.data), refused)
                .map_err(|e| format!("stream {sid}, request {i} of thread {t}: {e} [{ctx}]"))?;
        }
        let (mut ok, mut failed, mut pushed) = (0u64, 0u64, 0u64);
        for (t, v) in jobs.iter().enumerate() {
            for (i, j) in v.iter().enumerate() {
                let good = results[t].lock().unwrap()[i];
                if j.push {
                    pushed += 1;
                    ensure!(good || j.fail == 0, "push {i} of thread {t} failed without cause [{ctx}]");
                    let n = pushes.get_mut(j.meta.as_ref().unwrap());
                    match n {
                        Some(n) if *n > 0 => *n -= 1,
                        _ => return Err(format!("push {i} of thread {t} was not sent [{ctx}]")),
                    }
                } else if good {
                    ok += 1;
                    let tag = (t as u32) << 20 | (i as u32) << 4 | 2;
                    ensure!(by_tag.contains_key(&tag), "request {i} of thread {t} succeeded but was not sent [{ctx}]");
                } else {
                    failed += 1;
                    ensure!(j.fail != usize::MAX, "request {i} of thread {t} failed without cause [{ctx}]");
                }
            }
        }
        ensure!(pushes.values().all(|n| *n == 0), "a metadata push was sent twice [{ctx}]");
        ensure!(streams.len() as u64 == ok + failed, "{} streams for {ok} successful and {failed} failed requests [{ctx}]", streams.len());
        let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
        cx.obs.evals += 1;
        cx.obs.count("requests", ok + failed);
        cx.obs.count("failed_requests", failed);
        cx.obs.count("metadata_pushes", pushed);
        cx.obs.count("frames", log.len() as u64);
        cx.obs.count("switches_between_streams", switches as u64);
        if switches >= streams.len() && !streams.is_empty() {
            cx.obs.count("rounds_with_interleaved_streams", 1);
        }
        cx.obs.seen(order.iter().fold(salt & 1, |a, s| mix(a ^ *s as u64)));
        cx.sample(|| format!("{ctx}; {} streams, {switches} switches, order starts {:?}", streams.len(), &order[..order.len().min(12)]));
        Ok(())
    }

    /// Requests issued while the connection takes a frame.
    #[derive(Default)]
    struct Within {
        mach: Option<Machine>,
        jobs: Vec<Inner>,
        next: usize,
        /// The requests under way, innermost last.
        stack: Vec<usize>,
        deepest: usize,
        owner: Vec<usize>,
        trouble: Option<String>,
    }

    struct Inner {
        meta: Option<Bytes>,
        data: Option<Bytes>,
        push: bool,
        /// Issued at this frame of the request under way; the depth is bounded.
        at: usize,
        fail: usize,
        sent: usize,
        ok: Option<bool>,
    }

    const DEPTH: usize = 5;

    fn issue(w: &Mutex<Within>, k: usize) {
        let (mach, job) = {
            let mut w = w.lock().unwrap();
            w.stack.push(k);
            w.deepest = w.deepest.max(w.stack.len());
            let m = w.mach.as_ref().unwrap();
            (m.clone(), (w.jobs[k].meta.clone(), w.jobs[k].data.clone(), w.jobs[k].push))
        };
        let ok = subj_through(|| {
            if job.2 {
                complete(mach.requester().metadata_push(job.0.unwrap())).map(|r| r.0.is_ok())
            } else {
                Ok(mach.requester().fire_and_forget(make(&job.0, &job.1)).is_ok())
            }
        })
        .and_then(|r| r.unwrap_or(Ok(false)));
        let mut w = w.lock().unwrap();
        w.stack.pop();
        match ok {
            Ok(ok) => w.jobs[k].ok = Some(ok),
            Err(e) => w.trouble = Some(e),
        }
    }

    fn r03_within_sweep(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let (outer, inner) = (1 + i % 4 * 3, 1 + i / 4 % 4 * 3);
        let at = i / 16 % 6;
        let chunk = [None, Some(1), Some(4)][i / 96 % 3];
        let push = i / 288 == 1;
        let job = |n: usize, k: u8, at, push| Inner {
            meta: numbered(Some(n), k),
            data: numbered(Some(n + 1), !k),
            push,
            at,
            fail: usize::MAX,
            sent: 0,
            ok: None,
        };
        let jobs = vec![job(outer, 1, usize::MAX, false), job(inner, 2, at, push), job(3, 3, 0, false)];
        r03_within_run(cx, i % 2 == 1, chunk, jobs)
    }

    fn r03_within(cx: &mut Cx) -> Check {
        let n = cx.rng.range(2, 12);
        let failures = cx.rng.bool();
        let chunk = match cx.rng.below(4) {
            0 => None,
            1 => Some(1),
            _ => Some(cx.rng.range(2, 40)),
        };
        let jobs = (0..n)
            .map(|_| {
                let (a, b) = (cx.rng.range(0, 60), cx.rng.range(1, 60));
                let push = cx.rng.chance(1, 4);
                Inner {
                    meta: (push || cx.rng.bool()).then(|| content(cx, a).into()),
                    data: Some(content(cx, b).into()),
                    push,
                    at: if cx.rng.bool() { 0 } else { cx.rng.below(20) },
                    fail: if failures && cx.rng.chance(1, 4) { cx.rng.below(6) } else { usize::MAX },
                    sent: 0,
                    ok: None,
                }
            })
            .collect();
        let server = cx.rng.bool();
        r03_within_run(cx, server, chunk, jobs)
    }

    fn r03_within_run(cx: &mut Cx, server: bool, chunk: Option<usize>, jobs: Vec<Inner>) -> Check {
        let rt = runtime(true);
        let _in = rt.enter();
        let within = Arc::new(Mutex::new(Within { jobs, ..Within::default() }));
        let shared = within.clone();
        let conn = Conn::idle(Box::new(move |_| {
            let (me, n) = {
                let mut w = shared.lock().unwrap();
                let me = w.stack.last().copied().unwrap_or(usize::MAX);
                w.owner.push(me);
                let Some(j) = w.jobs.get_mut(me) else { return Fate::ok() };
                j.sent += 1;
                (me, j.sent - 1)
            };
            loop {
                let k = {
                    let mut w = shared.lock().unwrap();
                    let k = w.next;
                    if k >= w.jobs.len() || w.stack.len() > DEPTH || w.jobs[k].at > n {
                        break;
                    }
                    w.next += 1;
                    k
                };
                issue(&shared, k);
            }
            let w = shared.lock().unwrap();
            match w.jobs[me].fail == n {
                false => Fate::ok(),
                true if (me + n) % 3 == 1 => Fate::broken(),
                true => Fate::refused(io::Error::other("refused").into()),
            }
        }));
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let busy = place(cx, &mut mach, server, 24);
        let chunk = mach.fragments(chunk);
        conn.take_log();
        {
            let mut w = within.lock().unwrap();
            w.owner.clear();
            w.mach = Some(mach.clone());
        }
        let r = subj(|| loop {
            let k = {
                let mut w = within.lock().unwrap();
                let k = w.next;
                w.next += 1;
                if k >= w.jobs.len() {
                    break;
                }
                k
            };
            issue(&within, k);
        });
        // The connection must not hold itself alive.
        let held = within.lock().unwrap_or_else(|e| e.into_inner()).mach.take();
        drop(held);
        r?;
        let w = std::mem::take(&mut *within.lock().unwrap());
        if let Some(e) = w.trouble {
            return Err(e);
        }
        let log = conn.take_log();
        let ctx = format!("{} requests, {} deep, fragment size {chunk:?}", w.jobs.len(), w.deepest);
        ensure!(log.len() == w.owner.len(), "{} frames recorded, {} seen [{ctx}]", log.len(), w.owner.len());
        let mut of: Vec<Vec<Sent>> = (0..w.jobs.len()).map(|_| vec![]).collect();
        for (s, o) in log.iter().zip(&w.owner) {
            ensure!(*o < of.len(), "a frame outside any request [{ctx}]");
            of[*o].push(s.clone());
        }
        let mut used = HashSet::new();
        for (k, (j, sent)) in w.jobs.iter().zip(&of).enumerate() {
            (|| {
                let refused = sent.last().map_or(false, |s| s.refused);
                ensure!(j.ok.is_some(), "was never issued");
                ensure!(!sent.is_empty(), "no frame was sent");
                ensure!(j.ok == Some(!refused), "ended with ok={:?}, refused={refused}", j.ok);
                ensure!(!sent[..sent.len() - 1].iter().any(|s| s.refused), "frames follow a refused one");
                if j.push {
                    let [Sent { frame: Frame::MetadataPush(f), .. }] = &sent[..] else {
                        return Err(format!("{} frames for a push", sent.len()));
                    };
                    ensure!(Some(f.metadata()) == j.meta.as_ref(), "pushed other metadata");
                    return Ok(());
                }
                let ps = parts(sent)?;
                request(&ps, chunk, bytes_of_opt(&j.meta), bytes_of_opt(&j.data), refused)?;
                fresh(ps[0].sid, server, &busy, &mut used)
            })()
            .map_err(|e: String| format!("request {k} of several, each issued while the connection takes a frame of another: {e} [{ctx}]"))?;
        }
        cx.obs.count("requests_from_within", w.jobs.len() as u64);
        cx.obs.count("frames", log.len() as u64);
        if w.deepest > 1 {
            cx.obs.count("nested_runs", 1);
        }
        cx.obs.seen(w.owner.iter().fold(3 << 40, |a, o| mix(a ^ *o as u64)));
        cx.sample(|| format!("{ctx}; frames belong to {:?}", &w.owner[..w.owner.len().min(16)]));
        Ok(())
    }

    // --------------------------------------------------------------- R04

    fn r04_push(
        cx: &mut Cx,
        mach: &Machine,
        conn: &Conn,
        plan: &Arc<Mutex<(Option<(usize, String)>, usize)>>,
        data: Bytes,
        fail: Option<usize>,
        pending: usize,
        tag: u64,
    ) -> Check {
        let text = format!("push {tag:x}");
        *plan.lock().unwrap() = (fail.map(|k| (k, text.clone())), pending);
        conn.take_log();
        let d = data.clone();
        let done = subj_through(|| complete(mach.requester().metadata_push(d)))?.transpose()?;
        if done.is_none() {
            cx.obs.count("pushes_whose_connection_panicked", 1);
        }
        let (r, polls) = done.unwrap_or_else(|| (Err(io::Error::other("the connection panicked").into()), 0));
        let log = conn.take_log();
        cx.obs.count(if fail.is_some() { "pushes_failed" } else { "pushes_ok" }, 1);
        cx.obs.count("pending_polls", polls as u64);
        (|| {
            ensure!(log.len() == 1, "{} frames were sent", log.len());
            match &log[0].frame {
                Frame::MetadataPush(f) => ensure!(f.metadata() == &data, "the frame carries {} instead of {}", crate::model::short(f.metadata()), crate::model::short(&data)),
                f => return Err(format!("a {} frame was sent", crate::model::variant(f))),
            }
            match (fail, r) {
                (None, Ok(())) => {}
                (None, Err(e)) => return Err(format!("sending succeeded, the push failed with '{e}'")),
                (Some(BROKEN), Err(_)) => {}
                (Some(BROKEN), Ok(())) => return Err("the connection panicked, the push succeeded".into()),
                (Some(k), Ok(())) => return Err(format!("sending failed with '{}', the push succeeded", fault(k, text))),
                (Some(k), Err(e)) => {
                    let want = fault(k, text);
                    ensure!(same_error(&e, &want), "sending failed with '{want}', the push with '{e}'");
                }
            }
            let left = conn.0.outcomes.load(Ordering::SeqCst);
            ensure!(left == 0, "the push completed before the connection's send did");
            Ok(())
        })()
        .map_err(|e: String| format!("{e} [{} bytes, fail {fail:?}, pending {pending}]", data.len()))
    }

    type PushPlan = Arc<Mutex<(Option<(usize, String)>, usize)>>;

    fn push_conn() -> (Conn, PushPlan) {
        let plan: PushPlan = Arc::new(Mutex::new((None, 0)));
        let p = plan.clone();
        let conn = Conn::idle(Box::new(move |f| {
            if !matches!(f, Frame::MetadataPush(_)) {
                return Fate::ok();
            }
            let p = p.lock().unwrap();
            let fate = p.0.as_ref().map_or_else(Fate::ok, |(k, t)| failing(*k, t.clone()));
            Fate { pending: p.1, ..fate }
        }));
        (conn, plan)
    }

    fn expect_id(mach: &Machine, conn: &Conn, want: u32) -> Check {
        conn.take_log();
        let r = subj(|| mach.requester().fire_and_forget(make(&None, &Some(Bytes::from_static(b"d")))))?;
        ensure!(r.is_ok(), "a later request failed");
        let log = conn.take_log();
        let ps = parts(&log)?;
        ensure!(ps.len() == 1 && ps[0].sid == want, "the next request went out on stream {:?}, not {want}: a push used up a stream ID", ps.first().map(|p| p.sid));
        Ok(())
    }

    fn r04_sweep(cx: &mut Cx) -> Check {
        let n = cx.idx as usize / 2;
        let server = cx.idx % 2 == 1;
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = push_conn();
        let mach = machine(&rt, server, &conn, HOUR)?;
        let d = numbered(Some(n), 9).unwrap();
        cx.obs.seen(cx.idx);
        let fail = (n % 3 == 1).then_some(n / 3 % KINDS);
        let fail = if n % 12 == 11 { Some(BROKEN) } else { fail };
        r04_push(cx, &mach, &conn, &plan, d, fail, n % 4, n as u64)?;
        expect_id(&mach, &conn, start_of(server))
    }

    fn r04_large(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = push_conn();
        let mut mach = machine(&rt, i % 2 == 1, &conn, HOUR)?;
        mach.fragments((i / 14 == 2).then_some(1000));
        cx.obs.seen(1 << 40 | cx.idx);
        let fail = (i / 14 == 1).then_some(i % KINDS);
        r04_push(cx, &mach, &conn, &plan, big(BIG[i % 14], 7), fail, i % 3, i as u64)?;
        expect_id(&mach, &conn, start_of(i % 2 == 1))
    }

    fn r04_giants(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let n = GIANT_LENS[i % 6];
        let Some(_one) = alone(cx) else { return Ok(()) };
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, _) = push_conn();
        let mut mach = machine(&rt, i % 2 == 1, &conn, HOUR)?;
        mach.fragments((i / 6 == 1).then_some(1 << 31));
        cx.obs.seen(9 << 40 | cx.idx);
        cx.obs.count("giant_pushes", 1);
        subj(|| {
            let (r, _) = complete(mach.requester().metadata_push(giant_part(n)))?;
            ensure!(r.is_ok(), "the push failed");
            let log = conn.take_log();
            ensure!(log.len() == 1, "{} frames were sent", log.len());
            let Frame::MetadataPush(f) = &log[0].frame else { return Err("another frame was sent".into()) };
            crate::p_giant::alike_at_ends("metadata", Some(f.metadata()), &giant()[..n])
        })
        .and_then(|r| r)
        .map_err(|e| format!("{e} [a push of {n} bytes]"))?;
        expect_id(&mach, &conn, start_of(i % 2 == 1))
    }

    fn r04_history(cx: &mut Cx) -> Check {
        let i = cx.idx;
        let n = if cx.thorough { 500_000 } else { 70_000 };
        let server = i % 2 == 1;
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = push_conn();
        let mach = machine(&rt, server, &conn, HOUR)?;
        for k in 0..n {
            let d = numbered(Some(k as usize % 7), k as u8).unwrap();
            let fail = match i / 2 % 4 {
                0 => None,
                1 => Some(k as usize % KINDS),
                2 => (mix(k) % 4 == 0).then_some(if k % 5 == 2 { BROKEN } else { k as usize % KINDS }),
                _ => (k % 3 == 0).then_some(0),
            };
            let pending = if i % 3 == 0 { k as usize % 3 } else { 0 };
            if k % 3 == 1 && i / 2 % 4 != 1 {
                r04_abandon(cx, &mach, &conn, &plan, k as usize / 3 % 3).map_err(|e| format!("{e} [push {k}]"))?;
            }
            r04_push(cx, &mach, &conn, &plan, d, fail, pending, k).map_err(|e| format!("{e} [push {k}]"))?;
            if k % 4096 == 0 {
                cx.tick();
            }
        }
        cx.obs.seen(2 << 40 | i);
        cx.obs.count("pushes_in_long_histories", n);
        expect_id(&mach, &conn, start_of(server))
    }

    fn r04(cx: &mut Cx) -> Check {
        let server = cx.rng.bool();
        let rt = runtime(true);
        let _in = rt.enter();
        let (conn, plan) = push_conn();
        let mut mach = machine(&rt, server, &conn, HOUR)?;
        let chunk = if cx.rng.bool() { None } else { Some(cx.rng.range(1, 20)) };
        let chunk = mach.fragments(chunk);
        let other = mach.clone();
        let mut id = start_of(server);
        let mut fp = 1;
        for _ in 0..cx.rng.range(1, 8) {
            let who = if cx.rng.bool() { &mach } else { &other };
            if cx.rng.chance(1, 4) {
                expect_id(who, &conn, id)?;
                id = succ(id);
                fp = mix(fp);
                continue;
            }
            let max = if cx.rng.chance(1, 20) { 1 << 20 } else { 2000 };
            let n = len(cx, max);
            let v = bytes_of(cx, n);
            let fail = cx.rng.chance(1, 3).then(|| any_kind(&mut cx.rng));
            let pending = if cx.rng.bool() { 0 } else { cx.rng.below(20) };
            let tag = cx.rng.u64();
            fp = mix(fp ^ len_class(Some(v.len())) ^ mix(pending as u64 ^ fail.map_or(0, |f| (f as u64).wrapping_add(30))));
            r04_push(cx, who, &conn, &plan, v, fail, pending, tag)?;
        }
        expect_id(&mach, &conn, id)?;
        cx.obs.seen(fp);
        cx.sample(|| format!("pushes and requests up to stream {id}, fragment size {chunk:?}"));
        Ok(())
    }

    /// Pushes under way together, over a connection that takes its time.
    fn r04_delayed(cx: &mut Cx) -> Check {
        struct Plan {
            delay: Duration,
            pending: usize,
            kind: Option<usize>,
        }
        let mut plans = vec![];
        for _ in 0..cx.rng.range(1, 8) {
            let delay = match cx.rng.below(5) {
                0 => Duration::ZERO,
                1 => Duration::from_millis(cx.rng.below(20) as u64),
                2 => HOUR * cx.rng.below(100) as u32,
                3 => Duration::from_secs(5 * cx.rng.below(30) as u64),
                _ => Duration::from_millis(1 << cx.rng.below(30)),
            };
            let kind = cx.rng.chance(1, 2).then(|| cx.rng.below(KINDS));
            plans.push(Plan { delay, pending: cx.rng.below(3), kind });
        }
        let text = |k: usize| format!("push {k}");
        let total = plans.len();
        let describe = plans.iter().map(|p| format!("{:?}{}", p.delay, if p.kind.is_some() { " refused" } else { "" })).collect::<Vec<_>>().join(", ");
        cx.obs.seen(plans.iter().fold(1, |a, p| mix(a ^ p.delay.as_nanos() as u64 ^ (p.kind.unwrap_or(200) as u64) << 48)));
        let longest = plans.iter().map(|p| p.delay).max().unwrap();
        let plans = Arc::new(plans);
        let ps = plans.clone();
        let conn = Conn::idle(Box::new(move |f| match f {
            Frame::MetadataPush(f) => {
                let k = f.metadata().first().copied().unwrap_or(0) as usize % ps.len();
                let p = &ps[k];
                Fate { error: p.kind.map(|n| fault(n, text(k))), pending: p.pending, delay: p.delay, ..Fate::ok() }
            }
            _ => Fate::ok(),
        }));
        let server = cx.rng.bool();
        let timeout = if cx.rng.bool() { longest * 3 + HOUR } else { Duration::from_millis(1 << cx.rng.range(1, 24)) };
        let spawned = cx.rng.bool();
        let sizes: Vec<usize> = (0..total).map(|_| len(cx, 300)).collect();
        let bytes = |k: usize| {
            let mut v = vec![k as u8; sizes[k] + 1];
            v.extend_from_slice(b"metadata");
            Bytes::from(v)
        };
        let c = conn.clone();
        let rt = runtime(true);
        let _in = rt.enter();
        let done = subj(|| {
            rt.block_on(async {
                let mach = Machine::new(server, c, timeout).await;
                let t0 = Instant::now();
                let mut running = vec![];
                let mut done = vec![];
                for k in 0..total {
                    let push = mach.requester().metadata_push(bytes(k));
                    let timed = async move {
                        let r = push.await;
                        (k, r, t0.elapsed())
                    };
                    if spawned {
                        running.push(tokio::spawn(timed));
                    } else {
                        // One after the other, each under way since before.
                        done.push(timed);
                    }
                }
                let mut out = vec![];
                for d in done {
                    out.push(d.await);
                }
                for r in running {
                    match r.await {
                        Ok(r) => out.push(r),
                        Err(e) => std::panic::resume_unwind(e.into_panic()),
                    }
                }
                drop(mach);
                out
            })
        })
        .map_err(|e| format!("{e} [{describe}]"))?;
        drop(rt);
        drop(reports());
        let log = conn.take_log();
        cx.obs.count("delayed_pushes", total as u64);
        cx.obs.count("virtual_s_of_delays", plans.iter().map(|p| p.delay.as_secs()).sum());
        (|| {
            ensure!(log.len() == total, "{} frames were sent for {total} pushes", log.len());
            let mut left: Vec<usize> = (0..total).collect();
            for s in &log {
                let Frame::MetadataPush(f) = &s.frame else {
                    return Err(format!("a {} frame was sent", crate::model::variant(&s.frame)));
                };
                match left.iter().position(|k| f.metadata() == &bytes(*k)) {
                    Some(i) => left.remove(i),
                    None => return Err(format!("{} was sent, twice or not given", crate::model::short(f.metadata()))),
                };
            }
            for (k, r, at) in &done {
                let p = &plans[*k];
                match (p.kind, r) {
                    (None, Ok(())) => {}
                    (None, Err(e)) => return Err(format!("sending {k} succeeded, the push failed with '{e}'")),
                    (Some(n), Ok(())) => return Err(format!("sending {k} failed with '{}', the push succeeded", fault(n, text(*k)))),
                    (Some(n), Err(e)) => {
                        let want = fault(n, text(*k));
                        ensure!(same_error(e, &want), "sending {k} failed with '{want}', the push with '{e}'");
                    }
                }
                ensure!(*at >= p.delay, "push {k} was over after {at:?}, before the connection's send ({:?})", p.delay);
            }
            let left = conn.0.outcomes.load(Ordering::SeqCst);
            ensure!(left == 0, "{left} pushes completed before the connection's send did");
            Ok(())
        })()
        .map_err(|e: String| format!("{e} [{describe}; keepalive timeout {timeout:?}]"))
    }

    /// Counts how often it was woken.
    #[derive(Default)]
    struct Task(AtomicU64);

    impl std::task::Wake for Task {
        fn wake(self: Arc<Self>) {
            self.wake_by_ref()
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.0.fetch_add(1, Ordering::SeqCst);
        }
    }

    /// A push the connection takes when it is let.
    struct Held {
        gate: Arc<Gate>,
        pending: usize,
        kind: Option<usize>,
        push: Option<binate::Mono<binate::Result<()>>>,
        made: bool,
        open: bool,
        over: bool,
        /// Polled last on behalf of this task, woken so often before.
        last: Option<(usize, u64)>,
    }

    async fn others_run() {
        for _ in 0..20 {
            let _ = tokio::task::yield_now().await;
        }
    }

    /// Pushes that are polled by one task and then by another, or dropped.
    fn r04_held(cx: &mut Cx) -> Check {
        let n = cx.rng.range(1, 10);
        let mut held: Vec<Held> = (0..n)
            .map(|_| Held {
                gate: Arc::default(),
                pending: if cx.rng.bool() { 0 } else { cx.rng.below(5) },
                kind: cx.rng.chance(1, 3).then(|| cx.rng.below(KINDS)),
                push: None,
                made: false,
                open: false,
                over: false,
                last: None,
            })
            .collect();
        let text = |k: usize| format!("push {k}");
        let plans: Vec<(Arc<Gate>, usize, Option<usize>)> = held.iter().map(|h| (h.gate.clone(), h.pending, h.kind)).collect();
        let conn = Conn::idle(Box::new(move |f| match f {
            Frame::MetadataPush(f) => match plans.get(f.metadata().first().map_or(usize::MAX, |b| *b as usize)) {
                Some((gate, pending, kind)) => Fate {
                    error: kind.map(|k| fault(k, text(f.metadata()[0] as usize))),
                    pending: *pending,
                    gate: Some(gate.clone()),
                    ..Fate::ok()
                },
                None => Fate::ok(),
            },
            _ => Fate::ok(),
        }));
        let server = cx.rng.bool();
        let sizes: Vec<usize> = (0..n).map(|_| len(cx, 300)).collect();
        let bytes = |k: usize| {
            let mut v = vec![k as u8; sizes[k] + 1];
            v.extend_from_slice(b"metadata");
            Bytes::from(v)
        };
        let tasks: Vec<Arc<Task>> = (0..cx.rng.range(1, 4)).map(|_| Arc::default()).collect();
        let steps = cx.rng.range(5, 80);
        let (mut moved, mut dropped, mut woken, mut polls) = (0u64, 0u64, 0u64, 0u64);
        let mut history = vec![];
        let c = conn.clone();
        let rt = runtime(true);
        let _in = rt.enter();
        let rng = &mut cx.rng;
        let done: Check = subj(|| {
            rt.block_on(async {
                let mach = Machine::new(server, c, HOUR).await;
                let mut step = 0;
                while step < steps || held.iter().any(|h| h.made && !h.over) {
                    step += 1;
                    ensure!(step < 20_000, "a push does not complete");
                    let k = rng.below(n);
                    let h = &mut held[k];
                    // Towards the end they are all let through.
                    let what = if step < steps { rng.below(10) } else { 9 - rng.below(8) };
                    match what {
                        0 | 1 if !h.made => {
                            h.push = Some(mach.requester().metadata_push(bytes(k)));
                            h.made = true;
                            history.push(format!("make {k}"));
                        }
                        0 | 1 if rng.chance(1, 4) => {
                            if h.push.take().is_some() && !h.over {
                                h.over = true;
                                dropped += 1;
                                history.push(format!("drop {k}"));
                            }
                        }
                        2 | 3 if !h.open && (step >= steps || rng.chance(1, 3)) => {
                            history.push(format!("let {k}"));
                            h.open = true;
                            h.gate.open();
                            if let Some((t, had)) = h.last.filter(|_| !h.over) {
                                others_run().await;
                                let now = tasks[t].0.load(Ordering::SeqCst);
                                ensure!(now > had, "push {k} is over, but task {t}, which polled it last, is not woken");
                                woken += 1;
                            }
                        }
                        4..=9 if h.push.is_some() && !h.over => {
                            let t = rng.below(tasks.len());
                            if h.last.is_some_and(|l| l.0 != t) {
                                moved += 1;
                            }
                            polls += 1;
                            history.push(format!("poll {k} by {t}"));
                            let had = tasks[t].0.load(Ordering::SeqCst);
                            let w = Waker::from(tasks[t].clone());
                            let r = h.push.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
                            let Poll::Ready(r) = r else {
                                h.last = Some((t, had));
                                if h.open {
                                    others_run().await;
                                    let now = tasks[t].0.load(Ordering::SeqCst);
                                    ensure!(now > had, "push {k} goes on, but task {t}, which polled it last, is not woken");
                                }
                                continue;
                            };
                            ensure!(h.open, "push {k} was over before the connection's send");
                            h.over = true;
                            match (h.kind, r) {
                                (None, Ok(())) => {}
                                (None, Err(e)) => return Err(format!("sending {k} succeeded, the push failed with '{e}'")),
                                (Some(f), Ok(())) => return Err(format!("sending {k} failed with '{}', the push succeeded", fault(f, text(k)))),
                                (Some(f), Err(e)) => {
                                    let want = fault(f, text(k));
                                    ensure!(same_error(&e, &want), "sending {k} failed with '{want}', the push with '{e}'");
                                }
                            }
                        }
                        _ => {}
                    }
                }
                others_run().await;
                Ok(())
            })
        })
        .and_then(|r| r);
        let text: String = history.join(", ").chars().take(900).collect();
        done.map_err(|e| format!("{e} [{text}]"))?;
        let log = conn.take_log();
        let mut times = vec![0; n];
        for s in &log {
            let k = (0..n).find(|k| matches!(&s.frame, Frame::MetadataPush(f) if f.metadata() == &bytes(*k)));
            let k = k.ok_or_else(|| format!("a {} frame was sent that was not asked for [{text}]", crate::model::variant(&s.frame)))?;
            times[k] += 1;
        }
        for (k, h) in held.iter().enumerate() {
            // One that was never polled need not have been sent.
            let least = h.made as usize * (h.last.is_some() || h.push.is_some()) as usize;
            ensure!(times[k] >= least && times[k] <= h.made as usize, "push {k} was sent {} times [{text}]", times[k]);
        }
        drop(held);
        drop(rt);
        drop(reports());
        cx.obs.count("held_pushes", log.len() as u64);
        cx.obs.count("pushes_dropped", dropped);
        cx.obs.count("polls_by_another_task", moved);
        cx.obs.count("wakes_due_seen", woken);
        cx.obs.count("polls", polls);
        cx.obs.seen(fnv(text.as_bytes()));
        cx.sample(|| text);
        Ok(())
    }

    /// A push that is dropped early.
    fn r04_abandon(cx: &mut Cx, mach: &Machine, conn: &Conn, plan: &PushPlan, polls: usize) -> Check {
        *plan.lock().unwrap() = (None, usize::MAX);
        conn.take_log();
        let left = subj(|| {
            let mut push = mach.requester().metadata_push(Bytes::from_static(b"abandoned"));
            let mut cx = Context::from_waker(Waker::noop());
            (0..polls).all(|_| push.as_mut().poll(&mut cx).is_pending())
        })?;
        ensure!(left, "a push was over before the connection's send");
        let sent = conn.take_log().len();
        ensure!(sent == 1 || polls == 0 && sent == 0, "a push, dropped after {polls} polls, was sent {sent} times");
        conn.0.outcomes.store(0, Ordering::SeqCst);
        cx.obs.count("pushes_dropped", 1);
        Ok(())
    }

    // --------------------------------------------------------------- R05

    #[derive(Debug, Clone)]
    enum Act {
        Fnf(usize),
        Push,
        Sleep(Duration),
        Clone,
        /// A request whose last frame is refused.
        Refused(usize),
        /// A request at whose last frame the connection panics.
        Broken(usize),
        /// A push that takes its time, meanwhile.
        Slow(Duration),
    }

    /// Does what the data say.
    fn obeying() -> Box<Decide> {
        let refused = |k: u8| fault(k as usize % KINDS, "connection was closed".into());
        Box::new(move |f| match f {
            Frame::MetadataPush(f) if f.metadata().len() == 16 => {
                let n = u64::from_be_bytes(f.metadata()[..8].try_into().unwrap());
                let k = f.metadata()[8];
                Fate { error: (k > 0).then(|| refused(k)), delay: Duration::from_nanos(n), ..Fate::ok() }
            }
            f => match part_of(f) {
                Some(p) if p.data.as_ref().is_some_and(|d| d.contains(&0xEE)) => {
                    Fate::refused(refused(p.sid as u8))
                }
                Some(p) if p.data.as_ref().is_some_and(|d| d.contains(&0xEF)) => Fate::broken(),
                _ => Fate::ok(),
            },
        })
    }

    fn slow_push(mach: &Machine, d: Duration) {
        let mut m = vec![0; 16];
        m[..8].copy_from_slice(&(d.as_nanos() as u64).to_be_bytes());
        m[8] = d.as_nanos() as u8 & 15;
        let push = mach.requester().metadata_push(Bytes::from(m));
        tokio::spawn(push);
    }

    fn r05_run(
        cx: &mut Cx,
        server: bool,
        timeout: Duration,
        script: Vec<Item>,
        failing: usize,
        acts: Vec<Act>,
    ) -> Check {
        reports();
        let text = format!("timeout {timeout:?}, server {server}, statuses {script:?}, {acts:?}");
        let text: String = text.chars().take(600).collect();
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::new(script, obeying());
        let c = conn.clone();
        let r = subj(|| {
            rt.block_on(async {
                let t0 = Instant::now();
                let mach = Machine::new(server, c, timeout).await;
                let mut clones = vec![];
                for a in &acts {
                    match a {
                        Act::Fnf(n) => {
                            let _ = mach.requester().fire_and_forget(make(&None, &Some(Bytes::from(vec![1; *n]))));
                        }
                        Act::Push => {
                            let _ = mach.requester().metadata_push(Bytes::from_static(b"p")).await;
                        }
                        Act::Refused(n) => {
                            let mut d = vec![1; *n];
                            d.push(0xEE);
                            let _ = mach.requester().fire_and_forget(make(&None, &Some(Bytes::from(d))));
                        }
                        Act::Broken(n) => {
                            let mut d = vec![1; *n];
                            d.push(0xEF);
                            let _ = subj_through(|| mach.requester().fire_and_forget(make(&None, &Some(Bytes::from(d)))));
                        }
                        Act::Slow(d) => slow_push(&mach, *d),
                        Act::Sleep(d) => tokio::time::sleep(*d).await,
                        Act::Clone => clones.push(mach.clone()),
                    }
                }
                // Well past the deadline.
                let horizon = timeout * 4 + Duration::from_millis(10);
                tokio::time::sleep_until(t0 + horizon).await;
                tokio::time::sleep(timeout).await;
                let n = conn.0.closes.lock().unwrap().len();
                drop(clones);
                drop(mach);
                (t0, n)
            })
        })
        .map_err(|e| format!("{e} [{text}]"))?;
        let (t0, n) = r;
        let told = reports();
        let closes: Vec<Duration> = conn.0.closes.lock().unwrap().iter().map(|t| *t - t0).collect();
        cx.obs.count("virtual_ms_of_timeouts", timeout.as_millis().max(1) as u64);
        let ok = |at: &Duration| *at >= timeout && *at <= timeout * 2 + Duration::from_millis(2);
        (|| {
            ensure!(n == 1 && closes.len() == 1, "the connection was closed {n} times: {closes:?}");
            ensure!(ok(&closes[0]), "the connection was closed at {closes:?}, not between {timeout:?} and {:?}", timeout * 2);
            ensure!(told.len() == 1 + failing, "{} errors were reported ({} of them about the connection's status): {told:?}", told.len(), failing);
            Ok(())
        })()
        .map_err(|e: String| format!("{e} [{text}]"))?;
        cx.obs.count("timeouts_observed", 1);
        cx.obs.count("closed_in_window", 1);
        cx.sample(|| format!("{text}: closed at {closes:?}, reported {told:?}"));
        Ok(())
    }

    fn timeout_of(cx: &mut Cx) -> Duration {
        match cx.rng.below(8) {
            6 => Duration::from_millis(cx.rng.range(1, 1 << 33) as u64),
            7 => {
                let p = 1u64 << cx.rng.range(10, 33);
                Duration::from_millis(p + cx.rng.below(5) as u64 - 2)
            }
            0 => Duration::from_millis(cx.rng.range(1, 100) as u64),
            1 => Duration::from_millis(*cx.rng.pick(&[500, 1000, 5000, 20_000, 30_000, 60_000, 90_000, 3_600_000, 86_400_000])),
            2 => Duration::from_micros(cx.rng.range(1, 5_000_000) as u64),
            3 => Duration::from_secs(cx.rng.range(1, 100_000) as u64),
            4 => Duration::from_nanos(cx.rng.range(1, 1 << 40) as u64),
            _ => Duration::from_millis(cx.rng.range(1, 200_000) as u64),
        }
    }

    fn r05_sweep(cx: &mut Cx) -> Check {
        // Every millisecond value up to a limit, then sparser.
        let i = cx.idx;
        let ms = if i < 2000 { i + 1 } else { (i - 1999) * 997 };
        cx.obs.seen(i);
        let acts = if i % 3 == 0 { vec![Act::Sleep(Duration::from_millis(ms / 2 + 1)), Act::Fnf(3)] } else { vec![] };
        r05_run(cx, i % 2 == 0, Duration::from_millis(ms), vec![Item::Idle], 0, acts)
    }

    fn r05(cx: &mut Cx) -> Check {
        let timeout = timeout_of(cx);
        let server = cx.rng.bool();
        let mut script = vec![];
        let mut failing = 0;
        let mut at = Duration::ZERO;
        for _ in 0..cx.rng.below(5) {
            let d = timeout.mul_f64(cx.rng.below(100) as f64 / 70.0);
            if cx.rng.bool() && at + d < timeout * 3 {
                at += d;
                script.push(Item::Wait(d));
            }
            let s = status(cx, 0);
            failing += is_failure(&s) as usize;
            script.push(Item::Emit(s));
        }
        if cx.rng.bool() {
            script.push(Item::Idle);
        }
        let mut acts = vec![];
        let mut left = timeout * 4;
        for _ in 0..cx.rng.below(12) {
            acts.push(match cx.rng.below(15) {
                14 => Act::Broken(cx.rng.below(20)),
                10 | 11 => Act::Refused(cx.rng.below(20)),
                12 | 13 => Act::Slow(timeout.mul_f64(cx.rng.below(500) as f64 / 100.0)),
                0..=2 => Act::Fnf(cx.rng.below(50)),
                3 | 4 => Act::Push,
                5 => Act::Clone,
                _ => {
                    let d = timeout.mul_f64(cx.rng.below(120) as f64 / 100.0).min(left);
                    left -= d;
                    Act::Sleep(d)
                }
            });
        }
        cx.obs.seen(mix(timeout.as_nanos() as u64 ^ mix(acts.len() as u64 * 31 + script.len() as u64)));
        r05_run(cx, server, timeout, script, failing, acts)
    }

    /// Many sockets on a runtime of several threads, by the wall clock. How
    /// late they may be is up to the machine; but not early, and once each.
    fn r05_real(cx: &mut Cx) -> Check {
        let end = std::time::Instant::now() + Duration::from_secs_f64(cx.secs);
        loop {
            let rt = Builder::new_multi_thread()
                .worker_threads(4)
                .enable_time()
                .build()
                .map_err(|e| format!("harness: {e}"))?;
            let n = cx.rng.range(2, 40);
            let timeouts: Vec<Duration> = (0..n)
                .map(|_| Duration::from_millis(*cx.rng.pick(&[1, 2, 3, 5, 10, 20, 50, 100])))
                .collect();
            let conns: Vec<Conn> = (0..n).map(|_| Conn::idle(obeying())).collect();
            let servers: Vec<bool> = (0..n).map(|_| cx.rng.bool()).collect();
            cx.obs.seen(cx.rng.u64());
            let late = subj(|| {
                rt.block_on(async {
                    let mut all = vec![];
                    for k in 0..n {
                        let (c, server, timeout) = (conns[k].clone(), servers[k], timeouts[k]);
                        all.push(tokio::spawn(async move {
                            let t0 = Instant::now();
                            let mach = Machine::new(server, c.clone(), timeout).await;
                            let mut i = 0;
                            while c.0.closes.lock().unwrap().is_empty() && t0.elapsed() < Duration::from_secs(60) {
                                if i % 5 == 0 {
                                    let _ = mach.requester().fire_and_forget(make(&None, &Some(Bytes::from(vec![1; i % 50]))));
                                }
                                slow_push(&mach, timeout);
                                i += 1;
                                tokio::time::sleep(Duration::from_millis(1)).await;
                            }
                            tokio::time::sleep(timeout * 2).await;
                            (k, t0)
                        }));
                    }
                    let mut late = vec![];
                    for a in all {
                        let (k, t0) = a.await.map_err(|e| format!("a task ended: {e}"))?;
                        let closes: Vec<Duration> = conns[k].0.closes.lock().unwrap().iter().map(|t| *t - t0).collect();
                        let t = timeouts[k];
                        ensure!(closes.len() == 1, "the connection was closed {} times: {closes:?} [timeout {t:?}, socket {k} of {n}]", closes.len());
                        ensure!(closes[0] >= t, "the connection was closed at {closes:?}, before {t:?} [socket {k} of {n}]");
                        late.push(closes[0] - t);
                    }
                    Ok::<_, String>(late)
                })
            })??;
            rt.shutdown_timeout(Duration::from_secs(20));
            cx.obs.evals += 1;
            cx.obs.count("timeouts_in_real_time", late.len() as u64);
            cx.obs.count("real_ms_beyond_the_timeout", late.iter().map(|d| d.as_millis() as u64).sum());
            cx.tick();
            if std::time::Instant::now() >= end {
                return Ok(());
            }
        }
    }

    // --------------------------------------------------------------- R06

    fn is_failure(s: &ConnectionStatus) -> bool {
        matches!(s, ConnectionStatus::Closed | ConnectionStatus::Error(_))
    }

    fn status(cx: &mut Cx, k: u64) -> ConnectionStatus {
        match cx.rng.below(8) {
            0 => ConnectionStatus::Unconnected,
            1 => ConnectionStatus::Connecting,
            2 => ConnectionStatus::Connected,
            3 | 4 => ConnectionStatus::Closed,
            _ => ConnectionStatus::Error(match cx.rng.below(6) {
                0 => String::new(),
                1 => format!("{{}} {{0}} %s \"quoted\"\n{k:x}"),
                2 => "é€😀".repeat(cx.rng.range(1, 20)),
                3 => "same text".into(),
                4 => "connection was closed".into(),
                _ => format!("failure {k:x}"),
            }),
        }
    }

    /// With `timeout`, one of the reports is that of the keepalive.
    #[allow(clippy::too_many_arguments)]
    fn judge(cx: &mut Cx, conn: &Conn, told: &[String], published: &[ConnectionStatus], waited: u64, ends: bool, alive: u64, timeout: bool) -> Check {
        let want: Vec<&ConnectionStatus> = published.iter().filter(|s| is_failure(s)).collect();
        let i = &conn.0;
        let subs = i.subscriptions.load(Ordering::SeqCst);
        let polls = i.polls.load(Ordering::SeqCst);
        let wakes = i.wakes.load(Ordering::SeqCst);
        cx.obs.count("statuses_published", published.len() as u64);
        cx.obs.count("failures_published", want.len() as u64);
        cx.obs.count("reports_seen", told.len() as u64);
        cx.obs.count("polls_seen", polls);
        let s = format!("[published {:?}, reported {:?}]", published, told);
        let s: String = s.chars().take(900).collect();
        ensure!(subs == 1, "the status was subscribed to {subs} times {s}");
        let bound = 3 * (published.len() as u64 + wakes + waited) + 8;
        ensure!(polls <= bound, "{polls} polls for {} statuses and {} wake-ups {s}", published.len(), wakes + waited);
        let n = want.len() + timeout as usize;
        ensure!(told.len() == n, "{} failures were published, {} errors reported, expected {n} {s}", want.len(), told.len());
        let fits = |w: &ConnectionStatus, t: &String| match w {
            ConnectionStatus::Error(m) => t.contains(m.as_str()),
            _ => true,
        };
        if timeout {
            // Its place among the others is not known.
            let fit = |w: usize, t: usize| fits(want[w], &told[t]);
            let mut head = 0;
            while head < want.len() && fit(head, head) {
                head += 1;
            }
            let tail = (head..want.len()).all(|k| fit(k, k + 1));
            ensure!(tail, "the reports are not those of the failures and of the timeout, in order {s}");
        } else {
            for (k, (w, t)) in want.iter().zip(told).enumerate() {
                ensure!(fits(w, t), "failure {k} is {w:?}, reported as '{t}' {s}");
            }
        }
        if ends {
            ensure!(i.ended.load(Ordering::SeqCst) == 1, "the end of the status stream was not observed {s}");
            ensure!(i.polls_after_end.load(Ordering::SeqCst) == 0, "the status stream was polled after its end {s}");
            ensure!(alive == 0, "the status stream is still held after its end {s}");
        }
        Ok(())
    }

    fn r06_run(cx: &mut Cx, script: Vec<Item>, idle: Duration, timeout: Option<Duration>) -> Check {
        reports();
        let published: Vec<ConnectionStatus> = script
            .iter()
            .filter_map(|i| if let Item::Emit(s) = i { Some(s.clone()) } else { None })
            .collect();
        let ends = !matches!(script.last(), Some(Item::Idle));
        let span: Duration = script.iter().map(|i| if let Item::Wait(d) = i { *d } else { Duration::ZERO }).sum();
        let rt = runtime(true);
        let _in = rt.enter();
        let conn = Conn::new(script, obeying());
        let c = conn.clone();
        let server = cx.rng.bool();
        // Requests meanwhile, which have nothing to do with it.
        let traffic: Vec<usize> = match cx.rng.below(3) {
            0 => (0..cx.rng.range(1, 6)).map(|_| cx.rng.below(4)).collect(),
            _ => vec![],
        };
        cx.obs.count("requests_meanwhile", traffic.len() as u64);
        // Mostly, the keepalive stays out of the way.
        let expires = timeout.is_some();
        let timeout = timeout.unwrap_or((span + idle) * 4 + HOUR);
        let rest = if expires { timeout * 2 } else { Duration::ZERO } + Duration::from_millis(5);
        let (busy, alive, mut told) = subj(|| {
            rt.block_on(async {
                let mach = Machine::new(server, c.clone(), timeout).await;
                let pause = span / (traffic.len() as u32 + 1);
                for k in &traffic {
                    tokio::time::sleep(pause).await;
                    let d = |n: u8| make(&None, &Some(Bytes::from(vec![1, 2, n])));
                    match k {
                        0 => drop(mach.requester().fire_and_forget(d(3))),
                        1 => drop(mach.requester().fire_and_forget(d(0xEE))),
                        2 => slow_push(&mach, Duration::from_millis(3)),
                        _ => slow_push(&mach, pause + Duration::from_nanos(5)),
                    }
                }
                tokio::time::sleep(span + rest - pause * traffic.len() as u32).await;
                let p = c.0.polls.load(Ordering::SeqCst) + c.0.subscriptions.load(Ordering::SeqCst);
                tokio::time::sleep(idle).await;
                let q = c.0.polls.load(Ordering::SeqCst) + c.0.subscriptions.load(Ordering::SeqCst);
                let alive = c.0.alive.load(Ordering::SeqCst);
                drop(mach);
                (q - p, alive, reports())
            })
        })?;
        drop(rt);
        told.extend(reports());
        ensure!(busy == 0, "the status was polled {busy} times while nothing was published for {idle:?}");
        cx.obs.count("idle_virtual_s", idle.as_secs());
        cx.obs.count("keepalives_expired", expires as u64);
        judge(cx, &conn, &told, &published, 0, ends, alive, expires).map_err(|e| format!("{e} [keepalive timeout {timeout:?}]"))?;
        cx.sample(|| format!("published {published:?}, reported {told:?}"));
        Ok(())
    }

    fn r06_sweep(cx: &mut Cx) -> Check {
        let mut script = vec![];
        let mut i = cx.idx;
        let n = if cx.thorough { 6 } else { 4 };
        for k in 0..n {
            match i % 6 {
                0 => {}
                1 => script.push(Item::Emit(ConnectionStatus::Connected)),
                2 => script.push(Item::Emit(ConnectionStatus::Closed)),
                3 => script.push(Item::Emit(ConnectionStatus::Error(format!("e{k}")))),
                4 => script.push(Item::Wait(Duration::from_millis(3 + k))),
                _ => script.push(Item::Wake(1)),
            }
            i /= 6;
        }
        cx.obs.seen(cx.idx);
        let idle = Duration::from_secs(cx.idx % 50) * (cx.idx % 13 * 3600).max(1) as u32;
        let timeout = (cx.idx % 5 == 4).then(|| Duration::from_millis(1 + cx.idx % 11));
        r06_run(cx, script, idle, timeout)
    }

    /// Messages of every length, among others.
    fn r06_messages(cx: &mut Cx) -> Check {
        let i = cx.idx as usize;
        let n = match i {
            0..=59 => (1usize << (8 + i % 12)) + i / 12 - 2,
            _ => i - 60,
        };
        // Characters of one to four bytes; no two places alike.
        let unit = ["abcdefg ", "é€😀ab", "😀", "ß"][i % 4];
        let mut text = String::with_capacity(n + 4);
        while text.len() < n {
            text.extend(unit.chars());
            text += &format!("{:x}", text.len());
        }
        while text.len() > n || !text.is_char_boundary(text.len()) {
            text.pop();
        }
        cx.obs.seen(1 << 40 | cx.idx);
        cx.obs.count("message_bytes", text.len() as u64);
        let message = ConnectionStatus::Error(text);
        let script = match i % 3 {
            0 => vec![Item::Emit(message)],
            1 => vec![Item::Emit(ConnectionStatus::Connected), Item::Emit(message), Item::Emit(ConnectionStatus::Closed)],
            _ => vec![Item::Emit(message.clone()), Item::Wait(Duration::from_millis(2)), Item::Emit(message), Item::Idle],
        };
        r06_run(cx, script, Duration::from_secs(1), None)
    }

    /// As many statuses as it takes for small counters to wrap.
    fn r06_history(cx: &mut Cx) -> Check {
        let i = cx.idx;
        let n = if cx.thorough { 300_000 } else { 70_000 };
        let mut script = Vec::with_capacity(n);
        for k in 0..n {
            script.push(match (i % 6, k % 5) {
                (0, _) => Item::Emit(ConnectionStatus::Closed),
                (1, _) => Item::Emit(ConnectionStatus::Error(format!("{k:x}"))),
                (2, 0) => Item::Emit(ConnectionStatus::Closed),
                (2, _) => Item::Emit(ConnectionStatus::Connected),
                (3, 0) => Item::Wait(Duration::from_millis(k as u64 % 50)),
                (3, _) => Item::Emit(status(cx, k as u64)),
                (4, 0) => Item::Wake(1),
                (4, _) => Item::Emit(ConnectionStatus::Error("same".into())),
                _ if k + 1 == n => Item::Emit(ConnectionStatus::Closed),
                _ => Item::Emit(ConnectionStatus::Connecting),
            });
        }
        cx.obs.seen(2 << 40 | i);
        r06_run(cx, script, Duration::from_secs(1), None)
    }

    fn r06(cx: &mut Cx) -> Check {
        let mut script = vec![];
        let n = match cx.rng.below(10) {
            0 => 0,
            1 if cx.rng.chance(1, 20) => cx.rng.range(300, 3000),
            1 => cx.rng.range(20, 300),
            _ => cx.rng.range(1, 12),
        };
        let mut fp = 1;
        for k in 0..n {
            match cx.rng.below(8) {
                0 => script.push(Item::Wait(match cx.rng.below(6) {
                    0 => HOUR * cx.rng.range(1, 100) as u32,
                    _ => Duration::from_millis(cx.rng.range(1, 10_000) as u64),
                })),
                1 => script.push(Item::Wake(cx.rng.range(1, 4))),
                _ => {
                    let s = status(cx, k as u64);
                    fp = mix(fp ^ fnv(format!("{s:?}").as_bytes()));
                    script.push(Item::Emit(s));
                }
            }
        }
        if cx.rng.bool() {
            script.push(Item::Idle);
        }
        cx.obs.seen(fp ^ script.len() as u64);
        let idle = match cx.rng.below(3) {
            0 => Duration::from_secs(cx.rng.below(5000) as u64),
            1 => HOUR * cx.rng.below(1000) as u32,
            _ => Duration::from_millis(1 << cx.rng.range(1, 32)),
        };
        // Sometimes the keepalive's timeout comes in between.
        let span: Duration = script.iter().map(|i| if let Item::Wait(d) = i { *d } else { Duration::ZERO }).sum();
        let timeout = cx.rng.chance(1, 3).then(|| {
            span.mul_f64(cx.rng.below(100) as f64 / 80.0).max(Duration::from_millis(1))
        });
        r06_run(cx, script, idle, timeout)
    }

    /// Another thread publishes while the runtime runs in real time.
    fn r06_threads(cx: &mut Cx) -> Check {
        reports();
        let n = cx.rng.range(1, 30);
        let published: Vec<ConnectionStatus> = (0..n).map(|k| status(cx, k as u64)).collect();
        let feed = Arc::new(Feed::default());
        let tx = feed.clone();
        let done = AtomicBool::new(false);
        let done = &done;
        let conn = Conn::new(vec![], always());
        *conn.0.channel.lock().unwrap() = Some(feed);
        let rt = runtime(false);
        let _in = rt.enter();
        let c = conn.clone();
        let seed = cx.rng.u64();
        let list = published.clone();
        let ended = conn.clone();
        let (r, mut told) = std::thread::scope(|sc| {
            sc.spawn(move || {
                let mut rng = Rng::new(seed);
                for s in list {
                    spin(rng.below(3000) as u32);
                    tx.publish(Some(s));
                }
                tx.publish(None);
                done.store(true, Ordering::SeqCst);
            });
            let r = subj(|| {
                rt.block_on(async {
                    let mach = Machine::new(false, c, HOUR).await;
                    // Once all is published, the observer needs few turns.
                    let mut turns = 0;
                    while turns < 300 {
                        if ended.0.ended.load(Ordering::SeqCst) > 0 {
                            break;
                        }
                        turns += done.load(Ordering::SeqCst) as u32;
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    let _ = tokio::task::yield_now().await;
                    let _ = tokio::task::yield_now().await;
                    let alive = ended.0.alive.load(Ordering::SeqCst);
                    drop(mach);
                    alive
                })
            });
            (r, reports())
        });
        drop(rt);
        told.extend(reports());
        let alive = r?;
        cx.obs.seen(seed);
        // Each published status wakes the observer at most once, plus the end.
        judge(cx, &conn, &told, &published, n as u64 + 1, true, alive, false)
    }

    /// Several sockets on a runtime of several threads, in real time.
    fn r06_workers(cx: &mut Cx) -> Check {
        let end = std::time::Instant::now() + Duration::from_secs_f64(cx.secs);
        loop {
            let n = cx.rng.range(2, cx.threads.max(2));
            let (rt, told) = workers(n)?;
            for _ in 0..20 {
                r06_worker_round(cx, &rt, &told)?;
                cx.obs.evals += 1;
                cx.tick();
                if std::time::Instant::now() >= end {
                    break;
                }
            }
            rt.shutdown_timeout(Duration::from_secs(20));
            if std::time::Instant::now() >= end {
                return Ok(());
            }
        }
    }

    fn r06_worker_round(cx: &mut Cx, rt: &Runtime, told: &Mutex<Vec<String>>) -> Check {
        reports();
        told.lock().unwrap().clear();
        let k = cx.rng.range(1, 6);
        let mut published: Vec<Vec<ConnectionStatus>> = vec![];
        for i in 0..k {
            let n = cx.rng.below(40);
            published.push(
                (0..n)
                    .map(|j| match cx.rng.below(6) {
                        0 => ConnectionStatus::Connected,
                        1 => ConnectionStatus::Closed,
                        2 => ConnectionStatus::Error(format!("socket {i}: the same")),
                        _ => ConnectionStatus::Error(format!("socket {i}: {j}")),
                    })
                    .collect(),
            );
        }
        let feeds: Vec<Arc<Feed>> = (0..k).map(|_| Arc::default()).collect();
        let conns: Vec<Conn> = (0..k)
            .map(|i| {
                let c = Conn::new(vec![], obeying());
                *c.0.channel.lock().unwrap() = Some(feeds[i].clone());
                c
            })
            .collect();
        let seed = cx.rng.u64();
        let before = cx.rng.bool();
        std::thread::scope(|sc| {
            let publish = |i: usize| {
                let (feed, list) = (feeds[i].clone(), published[i].clone());
                sc.spawn(move || {
                    let mut rng = Rng::new(mix(seed ^ i as u64));
                    for s in list {
                        spin(rng.below(2000) as u32);
                        feed.publish(Some(s));
                    }
                    feed.publish(None);
                });
            };
            if before {
                (0..k).for_each(publish);
            }
            let machs: Vec<Machine> = subj(|| {
                rt.block_on(async {
                    let mut all = vec![];
                    for (i, c) in conns.iter().enumerate() {
                        all.push(Machine::new(i % 2 == 1, c.clone(), HOUR).await);
                    }
                    all
                })
            })?;
            if !before {
                (0..k).for_each(publish);
            }
            for m in &machs {
                // Meanwhile, and refused.
                let _ = subj(|| m.requester().fire_and_forget(make(&None, &Some(Bytes::from_static(&[1, 0xEE])))))?;
            }
            let over = |c: &Conn| c.0.ended.load(Ordering::SeqCst) > 0 && c.0.alive.load(Ordering::SeqCst) == 0;
            for _ in 0..20_000 {
                if conns.iter().all(over) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            drop(machs);
            Ok::<_, String>(())
        })?;
        let mut told = std::mem::take(&mut *told.lock().unwrap());
        told.extend(reports());
        let failures: usize = published.iter().flatten().filter(|s| is_failure(s)).count();
        let text: String = format!("published {published:?}, reported {told:?}").chars().take(900).collect();
        ensure!(told.len() == failures, "{failures} failures make {} reports [{text}]", told.len());
        for (i, c) in conns.iter().enumerate() {
            // Which socket was closed is not said.
            let tag = format!("socket {i}:");
            let mine: Vec<String> = told.iter().filter(|t| t.contains(&tag)).cloned().collect();
            let own: Vec<ConnectionStatus> = published[i].iter().filter(|s| matches!(s, ConnectionStatus::Error(_))).cloned().collect();
            let more = published[i].len() - own.len();
            let alive = c.0.alive.load(Ordering::SeqCst);
            judge(cx, c, &mine, &own, (own.len() + more * 4) as u64 + 1, true, alive, false).map_err(|e| format!("socket {i} of {k}: {e}"))?;
        }
        cx.obs.count("sockets_on_workers", k as u64);
        cx.obs.seen(seed);
        Ok(())
    }

    // --------------------------------------------------------------- R08

    /// What becomes of a request.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    enum Lot {
        Taken,
        Refused,
        /// The connection panics.
        Broken,
    }

    impl Lot {
        fn mark(self) -> u8 {
            [1, 0xEE, 0xEF][self as usize]
        }
        fn any(rng: &mut Rng) -> Lot {
            match rng.below(9) {
                0 | 1 => Lot::Refused,
                2 => Lot::Broken,
                _ => Lot::Taken,
            }
        }
        /// The request's call, which must not hide it.
        fn judge(self, r: Option<bool>) -> Result<(), String> {
            let ok = r.unwrap_or(false);
            ensure!(ok == (self == Lot::Taken), "the request was {self:?}, its call {}", if ok { "succeeded" } else { "failed" });
            Ok(())
        }
    }

    #[derive(Debug, Clone, Copy)]
    enum Do {
        /// By the socket or one of its clones.
        Close(usize),
        Clone(usize),
        Drop(usize),
        Fnf(usize, Lot),
        Push(Duration, bool),
        Sleep(Duration),
    }

    fn r08_run(cx: &mut Cx, server: bool, timeout: Duration, chunk: Option<usize>, statuses: Vec<Item>, acts: Vec<Do>) -> Check {
        reports();
        let text: String = format!("timeout {timeout:?}, statuses {statuses:?}, {acts:?}").chars().take(900).collect();
        let conn = Conn::new(statuses, obeying());
        let bystander = Conn::idle(obeying());
        let rt = runtime(true);
        let _in = rt.enter();
        let (c, b) = (conn.clone(), bystander.clone());
        let closes = || conn.0.closes.lock().unwrap().len();
        let mut calls = 0;
        let mut sent = 0;
        let mut pushes = 0;
        let fragmented = chunk;
        let seen: Check = subj(|| {
            rt.block_on(async {
                let t0 = Instant::now();
                let other = Machine::new(!server, b, timeout * 1000).await;
                let mut mach = Machine::new(server, c, timeout).await;
                let chunk = mach.fragments(fragmented);
                let mut all = vec![mach];
                let mut waiting = vec![];
                let mut at = start_of(server);
                for (n, a) in acts.iter().enumerate() {
                    let (had, log) = (closes(), conn.log().len());
                    let then = Instant::now();
                    let i = match a {
                        Do::Close(i) | Do::Clone(i) | Do::Drop(i) => *i % all.len(),
                        _ => n % all.len(),
                    };
                    match a {
                        Do::Close(_) => {
                            all[i].close();
                            calls += 1;
                            let now = closes();
                            ensure!(now == had + 1, "call {calls} of close (after step {n}) closed the connection {} times", now - had);
                        }
                        Do::Clone(_) => {
                            let m = all[i].clone();
                            all.push(m);
                        }
                        Do::Drop(_) if all.len() > 1 => drop(all.swap_remove(i)),
                        Do::Drop(_) => {}
                        Do::Fnf(len, lot) => {
                            let mut v = vec![1; *len];
                            v.push(lot.mark());
                            let d = Bytes::from(v);
                            let ok = subj_through(|| all[i].requester().fire_and_forget(make(&None, &Some(d.clone()))).is_ok())?;
                            lot.judge(ok).map_err(|e| format!("step {n}: {e}"))?;
                            let refused = &(*lot != Lot::Taken);
                            let new: Vec<Part> = parts(&conn.log()[log..])?;
                            request(&new, chunk, &[], &d, *refused).map_err(|e| format!("step {n}, after {calls} calls of close: {e}"))?;
                            ensure!(new[0].sid == at, "step {n}, after {calls} calls of close: stream {}, expected {at}", new[0].sid);
                            at = succ(at);
                            sent += 1;
                        }
                        Do::Push(d, refused) => {
                            let mut v = vec![0; 16];
                            v[..8].copy_from_slice(&(d.as_nanos() as u64).to_be_bytes());
                            v[8] = *refused as u8;
                            v[15] = n as u8;
                            let v = Bytes::from(v);
                            let f = all[i].requester().metadata_push(v.clone());
                            let j = tokio::spawn(f);
                            let _ = tokio::task::yield_now().await;
                            let log = &conn.log()[log..];
                            let right = matches!(log, [Sent { frame: Frame::MetadataPush(f), .. }] if f.metadata() == &v);
                            ensure!(right, "step {n}, after {calls} calls of close: the push was sent as {log:?}");
                            waiting.push((n, *refused, j));
                            pushes += 1;
                        }
                        Do::Sleep(d) => tokio::time::sleep(*d).await,
                    }
                    // The timeout may come when time passes.
                    let quiet = matches!(a, Do::Close(_)) || Instant::now() < t0 + timeout || then > t0 + timeout * 2 + Duration::from_millis(2);
                    let due = matches!(a, Do::Close(_)) as usize;
                    let now = closes();
                    ensure!(!quiet || now == had + due, "step {n} ({a:?}) closed the connection {} times", now - had);
                }
                tokio::time::sleep(timeout * 3 + Duration::from_millis(5)).await;
                let had = closes();
                let mut it = all.into_iter();
                let last = it.next();
                drop(it);
                for (n, refused, j) in waiting {
                    let out = j.await.map_err(|e| format!("a push ended: {e}"))?;
                    ensure!(out.is_ok() != refused, "step {n}: the push was {}refused, but {}", if refused { "" } else { "not " }, if out.is_ok() { "succeeded" } else { "failed" });
                }
                tokio::time::sleep(timeout).await;
                ensure!(closes() == had, "dropping clones closed the connection");
                drop(last);
                drop(other);
                Ok(())
            })
        })
        .unwrap_or_else(Err);
        seen.map_err(|e| format!("{e} [{text}]"))?;
        let n = closes();
        // After a call of close, the timeout need not close once more.
        ensure!(n == calls + 1 || calls > 0 && n == calls, "{calls} calls of close and a timeout closed the connection {n} times [{text}]");
        let others = bystander.0.closes.lock().unwrap().len();
        ensure!(others == 0, "another socket's connection was closed {others} times [{text}]");
        cx.obs.count("calls_of_close", calls as u64);
        cx.obs.count("requests", sent);
        cx.obs.count("pushes", pushes);
        cx.obs.count("closes_seen", n as u64);
        cx.obs.seen(fnv(text.as_bytes()));
        cx.sample(|| text.clone());
        Ok(())
    }

    fn r08_sweep(cx: &mut Cx) -> Check {
        let mut i = cx.idx;
        let n = if cx.thorough { 6 } else { 4 };
        let mut acts = vec![];
        for k in 0..n {
            acts.push(match i % 7 {
                0 => Do::Close(k),
                1 => Do::Clone(k),
                2 => Do::Drop(k),
                3 => Do::Fnf(k, Lot::Taken),
                4 => Do::Fnf(k, if cx.idx % 3 == 1 { Lot::Broken } else { Lot::Refused }),
                5 => Do::Push(Duration::from_millis(3), k % 2 == 1),
                _ => Do::Sleep(Duration::from_millis(5)),
            });
            i /= 7;
        }
        acts.push(Do::Fnf(3, Lot::Taken));
        let e = |n: usize| Item::Emit(ConnectionStatus::Error(format!("failure {n}")));
        let statuses = match cx.idx % 4 {
            0 => vec![],
            1 => vec![Item::Emit(ConnectionStatus::Closed), Item::Idle],
            2 => vec![e(1), Item::Wait(Duration::from_millis(4)), Item::Emit(ConnectionStatus::Closed)],
            _ => vec![Item::Wait(Duration::from_millis(1)), e(2), e(2), Item::Idle],
        };
        let timeout = Duration::from_millis([20, 7, 1000][cx.idx as usize % 3]);
        r08_run(cx, cx.idx % 2 == 1, timeout, [None, Some(2)][cx.idx as usize / 7 % 2], statuses, acts)
    }

    fn r08(cx: &mut Cx) -> Check {
        let timeout = Duration::from_millis(match cx.rng.below(3) {
            0 => 1 << cx.rng.range(0, 26),
            _ => cx.rng.range(1, 100_000) as u64,
        });
        let n = cx.rng.range(1, 30);
        let often = cx.rng.range(1, 8);
        let acts = (0..n)
            .map(|_| match cx.rng.below(14) {
                0 | 1 | 2 if cx.rng.below(often) == 0 => Do::Close(cx.rng.below(9)),
                0..=3 => Do::Clone(cx.rng.below(9)),
                4 | 5 => Do::Drop(cx.rng.below(9)),
                6..=8 => Do::Fnf(cx.rng.below(40), Lot::any(&mut cx.rng)),
                9 | 10 => Do::Push(timeout.mul_f64(cx.rng.below(100) as f64 / 50.0), cx.rng.chance(1, 3)),
                _ => Do::Sleep(timeout.mul_f64(cx.rng.below(100) as f64 / 150.0)),
            })
            .collect();
        let statuses = (0..cx.rng.below(6))
            .map(|k| match cx.rng.below(4) {
                0 => Item::Wait(timeout.mul_f64(cx.rng.below(100) as f64 / 100.0)),
                1 => Item::Emit(ConnectionStatus::Closed),
                2 => Item::Emit(ConnectionStatus::Connected),
                _ => Item::Emit(ConnectionStatus::Error(format!("failure {k}"))),
            })
            .collect();
        let chunk = cx.rng.bool().then(|| cx.rng.range(1, 30));
        let server = cx.rng.bool();
        r08_run(cx, server, timeout, chunk, statuses, acts)
    }

    /// Clones on many threads close and send at the same time.
    fn r08_threads(cx: &mut Cx) -> Check {
        let end = std::time::Instant::now() + Duration::from_secs_f64(cx.secs);
        loop {
            let threads = cx.rng.range(2, cx.threads.max(2));
            let rounds = cx.rng.range(1, 40);
            let conn = Conn::idle(obeying());
            let rt = runtime(true);
            let _in = rt.enter();
            let mach = machine(&rt, cx.rng.bool(), &conn, HOUR)?;
            let clones: Vec<Mutex<Machine>> = (0..threads).map(|_| Mutex::new(mach.clone())).collect();
            let calls = AtomicU64::new(0);
            let sent = AtomicU64::new(0);
            let seed = cx.rng.u64();
            let closes = || conn.0.closes.lock().unwrap().len() as u64;
            let c = conn.clone();
            let handle = rt.handle().clone();
            team(threads, rounds, |t, round| {
                let _here = handle.enter();
                let mut rng = Rng::new(mix(seed ^ (t * 1000 + round) as u64));
                let mut m = clones[t].lock().unwrap();
                spin(rng.below(300) as u32);
                let lot = Lot::any(&mut rng);
                match rng.below(4) {
                    0 => {
                        let d = Bytes::from(vec![1, lot.mark()]);
                        let ok = subj_through(|| m.requester().fire_and_forget(make(&None, &Some(d))).is_ok())?;
                        lot.judge(ok)?;
                        sent.fetch_add(1, Ordering::SeqCst);
                    }
                    1 => {
                        let again = subj(|| m.clone())?;
                        *m = again;
                    }
                    _ => {
                        let had = closes();
                        subj(|| m.close())?;
                        let n = closes();
                        calls.fetch_add(1, Ordering::SeqCst);
                        ensure!(n > had, "a call of close returned before the connection was closed");
                    }
                }
                Ok(())
            })?;
            drop(clones);
            drop(mach);
            let (calls, n) = (calls.into_inner(), closes());
            ensure!(calls == n, "{calls} calls of close on {threads} threads closed the connection {n} times");
            let frames = c.take_log().len() as u64;
            let sent = sent.into_inner();
            ensure!(frames == sent, "{sent} requests of one frame made {frames} frames");
            drop(rt);
            cx.obs.evals += rounds as u64;
            cx.obs.count("calls_of_close", calls);
            cx.obs.count("closes_seen", n);
            cx.obs.count("requests", sent);
            cx.obs.count("rounds_of_threads", rounds as u64);
            cx.obs.seen(seed);
            cx.tick();
            if std::time::Instant::now() >= end {
                return Ok(());
            }
        }
    }

    // --------------------------------------------------------------- R07

    /// What one of several sockets is told to do.
    #[derive(Debug, Clone)]
    enum Step {
        /// Metadata and data bytes; which byte's frame is refused.
        Send(usize, usize, Option<usize>),
        Push(Duration, bool),
        /// Marks the ID so many after the next as in use.
        Take(u32),
        Clone,
        /// Drops all its handles.
        Leave,
    }

    #[derive(Debug)]
    struct Life {
        server: bool,
        timeout: Duration,
        chunk: Option<usize>,
        first: Option<u32>,
        statuses: Vec<Item>,
        steps: Vec<Step>,
    }

    /// Lives of several sockets, interleaved as `order` says, with pauses.
    fn r07_run(cx: &mut Cx, lives: Vec<Life>, order: Vec<(usize, Duration)>) -> Check {
        let t = r07_live(lives, order)?;
        t.note(cx);
        cx.sample(|| t.text);
        Ok(())
    }

    #[derive(Default)]
    struct Tally {
        text: String,
        fp: u64,
        frames: u64,
        requests: u64,
        pushes: u64,
        sockets: u64,
        failures: u64,
    }

    impl Tally {
        fn note(&self, cx: &mut Cx) {
            cx.obs.count("frames", self.frames);
            cx.obs.count("requests", self.requests);
            cx.obs.count("pushes", self.pushes);
            cx.obs.count("sockets", self.sockets);
            cx.obs.count("timeouts", self.sockets);
            cx.obs.count("failures_reported", self.failures);
            cx.obs.seen(self.fp);
        }
    }

    fn r07_live(lives: Vec<Life>, order: Vec<(usize, Duration)>) -> Result<Tally, String> {
        let mut tally = Tally::default();
        reports();
        let k = lives.len();
        let text: String = format!("{lives:?}").chars().take(900).collect();
        let mut conns = vec![];
        let mut published: Vec<Vec<ConnectionStatus>> = vec![];
        let mut plain = vec![];
        for l in lives {
            published.push(l.statuses.iter().filter_map(|i| if let Item::Emit(s) = i { Some(s.clone()) } else { None }).collect());
            conns.push(Conn::new(l.statuses, obeying()));
            plain.push((l.server, l.timeout, l.chunk, l.first, l.steps));
        }
        let data = |i: usize, j: usize, n: usize, refused: Option<usize>| {
            let mut v: Vec<u8> = vec![(i & 0x7F) as u8, j as u8];
            v.extend((0..n).map(|x| (x as u8 ^ (i * 37 + j * 11) as u8) & 0x7F));
            v.push(0x01);
            if let Some(at) = refused {
                v[2 + at.min(n)] = if (n + at) % 4 == 3 { 0xEF } else { 0xEE };
            }
            Bytes::from(v)
        };
        struct Ran {
            t0: Instant,
            chunk: Option<usize>,
            at: u32,
            busy: HashSet<u32>,
            /// Per request: parts given and whether the call succeeded.
            calls: Vec<(Bytes, Bytes, bool, Result<bool, String>, u32)>,
            pushes: Vec<(Bytes, bool, tokio::task::JoinHandle<binate::Result<()>>)>,
        }
        let rt = runtime(true);
        let _in = rt.enter();
        let longest = plain.iter().map(|p| p.1).max().unwrap();
        let cs = conns.clone();
        let mut ran: Vec<Ran> = subj(|| {
            rt.block_on(async {
                let mut machs = vec![];
                let mut ran = vec![];
                for (i, (server, timeout, chunk, first, _)) in plain.iter().enumerate() {
                    let t0 = Instant::now();
                    let mut m = Machine::new(*server, cs[i].clone(), *timeout).await;
                    let chunk = m.fragments(*chunk);
                    let mut at = start_of(*server);
                    if let Some(f) = first {
                        if m.continue_ids(*f) {
                            at = *f;
                        }
                    }
                    machs.push(Some(m));
                    ran.push(Ran { t0, chunk, at, busy: HashSet::new(), calls: vec![], pushes: vec![] });
                }
                let mut next = vec![0; k];
                let mut clones = vec![];
                let rest = (0..k).flat_map(|i| std::iter::repeat_n((i, Duration::ZERO), plain[i].4.len()));
                for (i, pause) in order.iter().copied().chain(rest) {
                    if !pause.is_zero() {
                        tokio::time::sleep(pause).await;
                    }
                    let Some(step) = plain[i].4.get(next[i]) else { continue };
                    let j = next[i];
                    next[i] += 1;
                    let r = &mut ran[i];
                    let Some(m) = machs[i].as_mut() else { continue };
                    match step {
                        Step::Send(a, b, refused) => {
                            let meta = data(i, j, *a, None);
                            let d = data(i, j, *b, *refused);
                            while r.busy.contains(&r.at) {
                                r.at = succ(r.at);
                            }
                            let id = r.at;
                            r.at = succ(r.at);
                            let out = subj_through(|| m.requester().fire_and_forget(make(&Some(meta.clone()), &Some(d.clone()))).is_ok());
                            r.calls.push((meta, d, refused.is_some(), out.map(|o| o == Some(true)), id));
                        }
                        Step::Push(delay, refused) => {
                            let mut v = vec![0; 16];
                            v[..8].copy_from_slice(&(delay.as_nanos() as u64).to_be_bytes());
                            v[8] = *refused as u8;
                            v[9] = i as u8;
                            v[10] = j as u8;
                            let v = Bytes::from(v);
                            let push = m.requester().metadata_push(v.clone());
                            r.pushes.push((v, *refused, tokio::spawn(push)));
                        }
                        Step::Take(n) => {
                            let mut id = r.at;
                            for _ in 0..*n {
                                id = succ(id);
                            }
                            if m.take_id(id) {
                                r.busy.insert(id);
                            }
                        }
                        Step::Clone => clones.push((i, m.clone())),
                        Step::Leave => {
                            machs[i] = None;
                            clones.retain(|c| c.0 != i);
                        }
                    }
                }
                tokio::time::sleep(longest * 3 + Duration::from_secs(1)).await;
                drop(clones);
                drop(machs);
                ran
            })
        })
        .map_err(|e| format!("{e} [{text}]"))?;
        let told = reports();
        // What was reported of each socket's own failures.
        let mut of: Vec<Vec<&String>> = vec![vec![]; k];
        for t in &told {
            let n = t.split("socket ").nth(1).and_then(|x| x.split(':').next()).and_then(|x| x.parse::<usize>().ok());
            if let Some(n) = n.filter(|n| *n < k) {
                of[n].push(t);
            }
        }
        let check = |tally: &mut Tally, i: usize, r: &mut Ran| -> Check {
            let timeout = &plain[i].1;
            let log = conns[i].take_log();
            let mut streams: BTreeMap<u32, Vec<Part>> = BTreeMap::new();
            let mut ids = vec![];
            let mut pushed = vec![];
            for s in &log {
                match &s.frame {
                    Frame::MetadataPush(f) => pushed.push(f.metadata().clone()),
                    f => {
                        let p = part_of(f).ok_or_else(|| format!("a {} frame was sent", crate::model::variant(f)))?;
                        if ids.last() != Some(&p.sid) {
                            ids.push(p.sid);
                        }
                        streams.entry(p.sid).or_default().push(p);
                    }
                }
            }
            let want: Vec<u32> = r.calls.iter().map(|c| c.4).collect();
            ensure!(ids == want, "its requests went out on streams {ids:?}, alone they would on {want:?}");
            for (meta, d, refused, ok, id) in &r.calls {
                request(&streams[id], r.chunk, meta, d, *refused).map_err(|e| format!("{e} [stream {id}]"))?;
                let ok = ok.clone()?;
                ensure!(ok != *refused, "a request was {}refused, its call {}", if *refused { "" } else { "not " }, if ok { "succeeded" } else { "failed" });
            }
            let given: Vec<Bytes> = r.pushes.iter().map(|p| p.0.clone()).collect();
            ensure!(pushed == given, "{} pushes were made, {} sent, or not those", given.len(), pushed.len());
            for (v, refused, h) in r.pushes.drain(..) {
                let out = subj(|| rt.block_on(h))?.map_err(|e| format!("a push ended: {e}"))?;
                ensure!(out.is_ok() != refused, "the push {v:?} was {}refused, its call {}", if refused { "" } else { "not " }, if out.is_ok() { "succeeded" } else { "failed" });
            }
            let closes: Vec<Duration> = conns[i].0.closes.lock().unwrap().iter().map(|t| *t - r.t0).collect();
            ensure!(closes.len() == 1, "its connection was closed {} times: {closes:?}", closes.len());
            ensure!(closes[0] >= *timeout && closes[0] <= *timeout * 2 + Duration::from_millis(2), "its connection was closed at {closes:?}, its timeout is {timeout:?}");
            let subs = conns[i].0.subscriptions.load(Ordering::SeqCst);
            ensure!(subs == 1, "its connection's status was subscribed to {subs} times");
            let mine = &of[i];
            let own: Vec<&String> = published[i].iter().filter_map(|s| if let ConnectionStatus::Error(m) = s { Some(m) } else { None }).collect();
            ensure!(
                mine.len() == own.len() && mine.iter().zip(&own).all(|(t, m)| t.contains(m.as_str())),
                "its failures {own:?} were reported as {mine:?}"
            );
            tally.frames += log.len() as u64;
            tally.requests += r.calls.len() as u64;
            tally.pushes += given.len() as u64;
            Ok(())
        };
        let mut fp = order.iter().fold(k as u64, |a, o| mix(a ^ o.0 as u64));
        for (i, r) in ran.iter_mut().enumerate() {
            check(&mut tally, i, r).map_err(|e| format!("socket {i} of {k}: {e} [{text}]"))?;
            fp = mix(fp ^ r.calls.len() as u64 ^ plain[i].1.as_nanos() as u64);
        }
        let failures: usize = published.iter().flatten().filter(|s| is_failure(s)).count();
        ensure!(told.len() == failures + k, "{failures} failures and {k} timeouts make {} reports, not {told:?} [{text}]", failures + k);
        tally.sockets = k as u64;
        tally.failures = failures as u64;
        tally.fp = fp;
        tally.text = text;
        Ok(tally)
    }

    fn life(rng: &mut Rng, i: usize, same: &mut Option<Duration>) -> Life {
        let server = rng.bool();
        let timeout = match *same {
            // Often at the same time as another's.
            Some(t) if rng.bool() => t,
            _ => Duration::from_millis(match rng.below(3) {
                0 => 1000 * rng.range(1, 100) as u64,
                1 => 1 << rng.range(0, 26),
                _ => rng.range(1, 100_000) as u64,
            }),
        };
        *same = Some(timeout);
        let mut statuses = vec![];
        for n in 0..rng.below(6) {
            if rng.bool() {
                statuses.push(Item::Wait(timeout.mul_f64(rng.below(100) as f64 / 250.0)));
            }
            statuses.push(Item::Emit(match rng.below(5) {
                0 => ConnectionStatus::Connected,
                1 => ConnectionStatus::Closed,
                // Some the same again.
                n => ConnectionStatus::Error(format!("socket {i}: failure {n}")),
            }));
            let _ = n;
        }
        if rng.bool() {
            statuses.push(Item::Idle);
        }
        let steps = (0..rng.below(12))
            .map(|_| match rng.below(10) {
                0 if rng.chance(1, 5) => Step::Leave,
                0 => Step::Clone,
                1 => Step::Take(rng.below(4) as u32),
                2 | 3 => Step::Push(timeout.mul_f64(rng.below(100) as f64 / 50.0), rng.chance(1, 3)),
                _ => Step::Send(rng.below(60), rng.below(60), rng.chance(1, 3).then(|| rng.below(61))),
            })
            .collect();
        let first = rng.chance(1, 4).then(|| if server { MAX31 - 1 } else { MAX31 } - 2 * rng.below(6) as u32);
        Life { server, timeout, chunk: rng.bool().then(|| rng.range(1, 70)), first, statuses, steps }
    }

    fn lives(rng: &mut Rng, k: usize) -> (Vec<Life>, Vec<(usize, Duration)>) {
        let mut same = None;
        let lives: Vec<Life> = (0..k).map(|i| life(rng, i, &mut same)).collect();
        let steps: usize = lives.iter().map(|l| l.steps.len()).sum();
        let spread = lives.iter().map(|l| l.timeout).min().unwrap();
        let order = (0..steps * 2)
            .map(|_| {
                let pause = match rng.below(6) {
                    0 => spread.mul_f64(rng.below(100) as f64 / 400.0),
                    _ => Duration::ZERO,
                };
                (rng.below(k), pause)
            })
            .collect();
        (lives, order)
    }

    fn r07(cx: &mut Cx) -> Check {
        let k = cx.rng.range(2, 6);
        let (lives, order) = lives(&mut cx.rng, k);
        r07_run(cx, lives, order)
    }

    fn r07_many(cx: &mut Cx) -> Check {
        let k = cx.rng.range(6, 60);
        let (lives, order) = lives(&mut cx.rng, k);
        r07_run(cx, lives, order)
    }

    /// Hundreds or thousands of sockets alive at once.
    fn r07_crowd(cx: &mut Cx) -> Check {
        let k = if cfg!(miri) { 8 } else { [1_500, 300, 2_500][cx.idx as usize % 3] + cx.rng.below(100) };
        let same = Duration::from_millis(cx.rng.range(1_000, 200_000) as u64);
        let lives: Vec<Life> = (0..k)
            .map(|i| {
                let mut l = life(&mut cx.rng, i, &mut Some(same));
                l.statuses.truncate(cx.rng.below(3));
                l.steps.truncate(cx.rng.below(3));
                // They stay.
                l.steps.retain(|s| !matches!(s, Step::Leave));
                l
            })
            .collect();
        let order = (0..k).map(|_| (cx.rng.below(k), Duration::ZERO)).collect();
        cx.obs.count("crowded_sockets", k as u64);
        r07_run(cx, lives, order)
    }

    /// Each thread has its sockets, on a runtime of its own.
    fn r07_threads(cx: &mut Cx) -> Check {
        let end = std::time::Instant::now() + Duration::from_secs_f64(cx.secs);
        let threads = cx.threads.max(2);
        loop {
            let seed = cx.rng.u64();
            let all: Mutex<Vec<Tally>> = Mutex::new(vec![]);
            team(threads, 30, |t, round| {
                let mut rng = Rng::new(mix(seed ^ (t * 1000 + round) as u64));
                let k = rng.range(1, 5);
                let (lives, order) = lives(&mut rng, k);
                let tally = r07_live(lives, order).map_err(|e| format!("{e} [one of {threads} threads]"))?;
                all.lock().unwrap().push(tally);
                Ok(())
            })?;
            for t in all.into_inner().unwrap() {
                t.note(cx);
                cx.obs.evals += 1;
            }
            cx.obs.count("rounds_on_threads", 30);
            cx.tick();
            if std::time::Instant::now() >= end {
                return Ok(());
            }
        }
    }

    /// Two sockets; roles, what they do, and in which order.
    fn r07_sweep(cx: &mut Cx) -> Check {
        let mut i = cx.idx as usize;
        let mut take = |n: usize| {
            let x = i % n;
            i /= n;
            x
        };
        let (roles, order, a, b) = (take(4), take(4), take(6), take(6));
        let steps = |k: usize| match k {
            0 => vec![],
            1 => vec![Step::Send(3, 3, None); 3],
            2 => vec![Step::Send(3, 19, Some([0, 7, 19][a % 3])), Step::Send(0, 0, None)],
            3 => vec![Step::Push(Duration::from_millis(7), false), Step::Push(Duration::ZERO, true), Step::Send(1, 1, None), Step::Leave],
            4 => vec![Step::Take(0), Step::Take(1), Step::Send(2, 2, None), Step::Clone, Step::Send(2, 2, None)],
            _ => vec![Step::Push(Duration::from_secs(100), true), Step::Send(15, 15, Some(4)), Step::Send(5, 5, Some(5))],
        };
        let lives = (0..2)
            .map(|s| {
                let k = [a, b][s];
                let e = |n: usize| Item::Emit(ConnectionStatus::Error(format!("socket {s}: failure {n}")));
                Life {
                    server: roles >> s & 1 == 1,
                    timeout: Duration::from_millis([10_000, 10_000, 20_000, 5][(k + s) % 4]),
                    chunk: [None, Some(4)][(a + s) % 2],
                    first: None,
                    statuses: match k % 4 {
                        0 => vec![],
                        1 => vec![e(1), e(1), Item::Emit(ConnectionStatus::Closed)],
                        2 => vec![Item::Emit(ConnectionStatus::Closed), Item::Wait(Duration::from_millis(3)), e(2), Item::Idle],
                        _ => vec![Item::Wait(Duration::from_millis(3)), Item::Emit(ConnectionStatus::Connected), e(1), Item::Idle],
                    },
                    steps: steps(k),
                }
            })
            .collect();
        let z = Duration::ZERO;
        let order = match order {
            0 => vec![(0, z); 9],
            1 => vec![(1, z); 9],
            2 => [(0, z), (1, z)].repeat(9),
            _ => [(1, Duration::from_millis(1)), (0, z)].repeat(9),
        };
        r07_run(cx, lives, order)
    }
}
