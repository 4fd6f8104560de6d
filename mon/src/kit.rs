//! Workload driver: random source, subject guard, observation counters,
//! allocator monitor.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0; 4];
        let mut z = seed;
        for x in s.iter_mut() {
            z = mix(z);
            *x = z;
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 != 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fill(&mut self, v: &mut [u8]) {
        for c in v.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
}

// ------------------------------------------------------------- constants

/// Values and strings the code under test was seen to compare with.
#[derive(Default, Clone)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

impl Dict {
    pub fn load(path: &str) -> Dict {
        let mut d = Dict::default();
        for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(x) = line.strip_prefix("n ") {
                d.nums.push(x.parse().unwrap());
            } else if let Some(x) = line.strip_prefix("s ") {
                d.strs.push(
                    (0..x.len() / 2)
                        .map(|i| {
                            u8::from_str_radix(&x[2 * i..2 * i + 2], 16)
                                .unwrap()
                        })
                        .collect(),
                );
            }
        }
        d
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for n in &self.nums {
            s += &format!("n {n}\n");
        }
        for b in &self.strs {
            s += "s ";
            for x in b {
                s += &format!("{x:02x}");
            }
            s += "\n";
        }
        s
    }
    pub fn observed() -> Dict {
        #[cfg(feature = "trace")]
        {
            let mut nums = vec![0u64; 8192];
            let n = unsafe { ffi::mon_dump(nums.as_mut_ptr(), nums.len()) };
            nums.truncate(n);
            nums.sort_unstable();
            nums.dedup();
            let mut raw = vec![0u8; 40 * 512];
            let n =
                unsafe { ffi::mon_dump_strs(raw.as_mut_ptr(), raw.len()) };
            let mut strs: Vec<Vec<u8>> = (0..n)
                .map(|i| {
                    let r = &raw[i * 40..(i + 1) * 40];
                    r[1..1 + r[0] as usize].to_vec()
                })
                .collect();
            strs.sort();
            strs.dedup();
            return Dict { nums, strs };
        }
        #[allow(unreachable_code)]
        Dict::default()
    }
}

#[cfg(feature = "trace")]
mod ffi {
    extern "C" {
        pub fn mon_enter(on: i32);
        pub fn mon_dump(out: *mut u64, cap: usize) -> usize;
        pub fn mon_dump_strs(out: *mut u8, cap: usize) -> usize;
        pub fn mon_cov(hit: *mut u64, total: *mut u64);
    }
}

pub fn coverage() -> (u64, u64) {
    #[allow(unused_mut)]
    let (mut a, mut b) = (0, 0);
    #[cfg(feature = "trace")]
    unsafe {
        ffi::mon_cov(&mut a, &mut b)
    };
    (a, b)
}

// ---------------------------------------------------------- subject guard

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = payload_text(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let loc = attribute(loc);
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Panics of the standard library belong to whoever called it. Harness
/// sources are relative paths.
fn attribute(loc: String) -> String {
    let known = loc.starts_with("src/") || loc.starts_with("/repo/binate/");
    if known || DEPTH.try_with(|d| d.get() > 0).unwrap_or(true) {
        return loc;
    }
    let t = std::backtrace::Backtrace::force_capture().to_string();
    let here = concat!(env!("CARGO_MANIFEST_DIR"), "/src/");
    for line in t.lines() {
        let Some(f) = line.trim().strip_prefix("at ") else { continue };
        if f.starts_with("/repo/binate/") {
            return format!("{f} (via {loc})");
        }
        let own = f.starts_with("./src/") || f.starts_with("src/");
        if (own || f.starts_with(here)) && !f.contains("/kit.rs") {
            return format!("src/{f} (via {loc})");
        }
    }
    loc
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn enter() {
    DEPTH.with(|d| {
        d.set(d.get() + 1);
        #[cfg(feature = "trace")]
        unsafe {
            ffi::mon_enter(1)
        };
    });
}

fn leave() {
    DEPTH.with(|d| {
        d.set(d.get() - 1);
        #[cfg(feature = "trace")]
        unsafe {
            ffi::mon_enter((d.get() > 0) as i32)
        };
    });
}

/// Runs code under test; a panic is returned as text.
pub fn subj<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    enter();
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    leave();
    r.map_err(|_| {
        let (m, l) =
            PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("panic '{m}' at {l}")
    })
}

/// What a connection panics with where it is told to.
pub struct Broken;

/// Runs code under test; `None` if the connection panicked as it was told to.
pub fn subj_through<T>(f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    subj(|| match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) if e.is::<Broken>() => None,
        Err(e) => panic::resume_unwind(e),
    })
}

pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub fn reset_depth() {
    DEPTH.with(|d| d.set(0));
    #[cfg(feature = "trace")]
    unsafe {
        ffi::mon_enter(0)
    };
}

// --------------------------------------------------------------- verdicts

/// A violation, described.
pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err(format!($($t)*)); }
    };
}

// ------------------------------------------------------------ observation

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub distinct_over: u64,
    pub samples: BTreeMap<&'static str, Vec<String>>,
}

const DISTINCT_CAP: usize = 500_000;

impl Obs {
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    /// Records a non-trivial case by fingerprint.
    pub fn seen(&mut self, fp: u64) {
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(fp);
        } else {
            self.distinct_over += 1;
        }
    }
    pub fn sample(
        &mut self,
        workload: &'static str,
        f: impl FnOnce() -> String,
    ) {
        let v = self.samples.entry(workload).or_default();
        if v.len() < 3 {
            let mut s = f();
            if s.len() > 400 {
                s = s.chars().take(400).collect::<String>() + "...";
            }
            v.push(s);
        }
    }
    pub fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.samples {
            let e = self.samples.entry(k).or_default();
            for s in v {
                if e.len() < 4 {
                    e.push(s);
                }
            }
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    // Word-wise for speed; only a fingerprint.
    let mut h = 0xcbf29ce484222325u64 ^ data.len() as u64;
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap()))
            .wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 32)
}

// ------------------------------------------------------------------ cases

/// What a workload function gets.
pub struct Cx<'a> {
    pub rng: Rng,
    pub dict: &'a Dict,
    pub obs: &'a mut Obs,
    pub workload: &'static str,
    pub thorough: bool,
    /// Sweeps: which element of the space.
    pub idx: u64,
    /// Long-running cases bump this to show progress.
    pub progress: &'a AtomicU64,
    /// Custom workloads: how long they may run and how many threads to use.
    pub secs: f64,
    pub threads: usize,
    /// Replays write the case out here.
    pub note: Option<String>,
}

impl Cx<'_> {
    pub fn tick(&self) {
        self.progress.fetch_add(1, Ordering::Relaxed);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.obs.sample(self.workload, f)
    }
}

pub type CaseFn = fn(&mut Cx) -> Check;

pub enum Kind {
    /// Run with fresh random seeds until time is up; the weight says how
    /// often.
    Random(u32),
    /// Run for every index below the given bound (quick, thorough).
    Sweep(u64, u64),
    /// Run exclusively, `secs` share of the budget (per mille).
    Custom(u32),
}

pub struct Workload {
    pub name: &'static str,
    pub kind: Kind,
    pub f: CaseFn,
    /// Only in builds with / without debug assertions.
    pub profile: Profile,
}

#[derive(PartialEq, Clone, Copy)]
pub enum Profile {
    Any,
    Release,
    Debug,
}

pub fn random(name: &'static str, weight: u32, f: CaseFn) -> Workload {
    Workload { name, kind: Kind::Random(weight), f, profile: Profile::Any }
}
pub fn sweep(name: &'static str, q: u64, t: u64, f: CaseFn) -> Workload {
    Workload { name, kind: Kind::Sweep(q, t), f, profile: Profile::Any }
}
pub fn custom(name: &'static str, share: u32, f: CaseFn) -> Workload {
    Workload { name, kind: Kind::Custom(share), f, profile: Profile::Any }
}

impl Workload {
    pub fn only(mut self, p: Profile) -> Self {
        self.profile = p;
        self
    }
}

// ---------------------------------------------------------------- memory

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
/// Live bytes of the whole process, sharded by thread.
#[repr(align(128))]
struct Shard(std::sync::atomic::AtomicI64);
static SHARDS: [Shard; 64] =
    [const { Shard(std::sync::atomic::AtomicI64::new(0)) }; 64];
static NEXT_SHARD: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static SHARD: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn shard() -> &'static Shard {
    let i = SHARD
        .try_with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT_SHARD.fetch_add(1, Ordering::Relaxed) as usize % 64);
            }
            s.get()
        })
        .unwrap_or(0);
    &SHARDS[i]
}

pub fn all_live() -> i64 {
    SHARDS.iter().map(|s| s.0.load(Ordering::SeqCst)).sum()
}

fn on_alloc(n: usize) {
    shard().0.fetch_add(n as i64, Ordering::Relaxed);
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
    let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
}

fn on_free(n: usize) {
    shard().0.fetch_sub(n as i64, Ordering::Relaxed);
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            on_alloc(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            on_alloc(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // Both blocks may exist for a moment.
            on_alloc(n);
            on_free(l.size());
        }
        q
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Mem {
    pub live: i64,
}

pub fn mem_start() -> Mem {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    BIGGEST.with(|b| b.set(0));
    Mem { live }
}

/// (peak above start, live above start, biggest single allocation)
pub fn mem_since(m: Mem) -> (i64, i64, usize) {
    (
        PEAK.with(|p| p.get()) - m.live,
        LIVE.with(|l| l.get()) - m.live,
        BIGGEST.with(|b| b.get()),
    )
}

pub fn mem_calls() -> u64 {
    CALLS.with(|c| c.get())
}

/// Bytes this thread has allocated, ever.
pub fn mem_total() -> u64 {
    TOTAL.with(|c| c.get())
}
