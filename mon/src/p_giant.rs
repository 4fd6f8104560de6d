//! Values longer than 32 bits count. They are slices of one static area that
//! is mostly never touched; only lengths and a few bytes are compared.
use crate::kit::*;
use crate::model::*;
use binate::frame::{Encode, Frame};
use bytes::{Buf, Bytes};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard, TryLockError};
use std::time::{Duration, Instant};

pub const GIANT: usize = ((1u64 << 32) + 8192) as usize;

/// Four gigabytes and a bit, all but a few bytes of it zero.
pub fn giant() -> &'static [u8] {
    static G: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    G.get_or_init(|| {
        let mut v = vec![0u8; GIANT];
        let mut mark = |at: usize| {
            let from = at.saturating_sub(40);
            for k in from..(at + 40).min(GIANT) {
                v[k] = mix(k as u64) as u8;
            }
        };
        for k in 0..64 {
            mark(k << 26);
        }
        for at in [(1 << 31) - 1, (1 << 32) - 1, 1 << 32, GIANT / 2, GIANT] {
            mark(at);
        }
        v
    })
}

/// Time spent on giants, in milliseconds.
static SPENT: AtomicU64 = AtomicU64::new(0);
const ENOUGH: u64 = 20_000;

pub struct Alone {
    _one: MutexGuard<'static, ()>,
    since: Instant,
}

impl Drop for Alone {
    fn drop(&mut self) {
        SPENT.fetch_add(self.since.elapsed().as_millis() as u64, Ordering::Relaxed);
    }
}

/// One at a time, should the code copy; none any more if that takes too long.
pub fn alone(cx: &mut Cx) -> Option<Alone> {
    static ONE: Mutex<()> = Mutex::new(());
    loop {
        if SPENT.load(Ordering::Relaxed) > ENOUGH {
            cx.obs.count("giants_left_out", 1);
            return None;
        }
        let one = match ONE.try_lock() {
            Ok(g) => g,
            Err(TryLockError::Poisoned(e)) => e.into_inner(),
            Err(TryLockError::WouldBlock) => {
                cx.tick();
                std::thread::sleep(Duration::from_millis(1));
                continue;
            }
        };
        giant();
        return Some(Alone { _one: one, since: Instant::now() });
    }
}

pub fn part_of(n: usize) -> Bytes {
    Bytes::from_static(&giant()[..n])
}

/// The same length, the same bytes at both ends and around powers of two.
pub fn alike_at_ends(name: &str, got: Option<&Bytes>, want: &[u8]) -> Check {
    let Some(g) = got else {
        return Err(format!("{name}: absent, {} bytes expected", want.len()));
    };
    ensure!(g.len() == want.len(), "{name}: {} bytes, {} expected", g.len(), want.len());
    let n = want.len();
    for at in [0, n / 2, n.saturating_sub(50), 1 << 31, 1 << 32] {
        let to = at.saturating_add(50).min(n);
        let at = at.saturating_sub(50).min(to);
        ensure!(g[at..to] == want[at..to], "{name}: wrong content at {at}");
    }
    Ok(())
}

const TYPES: [Ty; 10] = [
    Ty::Setup, Ty::Response, Ty::Fnf, Ty::Stream, Ty::Channel, Ty::Payload,
    Ty::Keepalive, Ty::Error, Ty::Lease, Ty::MetadataPush,
];
const LENS: [usize; 5] = [(1u64 << 32) as usize, (1u64 << 32) as usize + 77, ((1u64 << 32) - 1) as usize, GIANT, 1 << 31];
pub const FRAMES: u64 = 10 * 5;

/// A frame, all but the part that extends to its end, and that part.
fn frame(i: u64) -> (M, usize) {
    let ty = TYPES[i as usize % 10];
    let n = LENS[i as usize / 10 % 5];
    let mut m = M::blank(ty);
    if !ty.on_zero() {
        m.sid = 77;
    }
    match ty {
        Ty::Setup => {
            m.mmime = Bytes::from("a/b");
            m.dmime = Bytes::from("c");
        }
        Ty::Error => m.code = 0x201,
        Ty::Stream | Ty::Channel => m.a = 3,
        _ => {}
    }
    if at_end(ty) == "data" && !matches!(ty, Ty::Keepalive | Ty::Error) && n % 2 == 1 {
        m.meta = Some(Bytes::from("meta"));
    }
    (m, n)
}

fn at_end(ty: Ty) -> &'static str {
    match ty {
        Ty::Lease | Ty::MetadataPush => "metadata",
        _ => "data",
    }
}

fn with(m: &M, tail: Bytes) -> M {
    let mut m = m.clone();
    match at_end(m.ty) {
        "metadata" => m.meta = Some(tail),
        _ => m.data = Some(tail),
    }
    m
}

/// Metadata and data as reported.
fn reported(f: &Frame) -> (Option<Bytes>, Option<Bytes>) {
    macro_rules! both {
        ($f:expr) => {
            ($f.metadata().cloned(), $f.data().cloned())
        };
    }
    match f {
        Frame::Setup(f) => both!(f),
        Frame::RequestResponse(f) => both!(f),
        Frame::RequestFnf(f) => (f.metadata().cloned(), f.request_data().cloned()),
        Frame::RequestStream(f) => both!(f),
        Frame::RequestChannel(f) => both!(f),
        Frame::Payload(f) => both!(f),
        Frame::Keepalive(f) => (None, f.data().cloned()),
        Frame::Error(f) => (None, f.data().cloned()),
        Frame::Lease(f) => (f.metadata().cloned(), None),
        Frame::MetadataPush(f) => (Some(f.metadata().clone()), None),
        _ => (None, None),
    }
}

fn judge(f: &Frame, m: &M, n: usize) -> Check {
    ensure!(variant(f) == variant(&build(&with(m, Bytes::from("x")))), "decoded as a {} frame", variant(f));
    let (meta, data) = reported(f);
    if at_end(m.ty) == "metadata" {
        alike_at_ends("metadata", meta.as_ref(), &giant()[..n])
    } else {
        ensure!(meta == m.meta, "metadata is {} bytes", meta.map_or(0, |b| b.len()));
        alike_at_ends("data", data.as_ref(), &giant()[..n])
    }
}

fn told(m: &M, n: usize, e: String) -> String {
    format!("{e} [{:?} frame with {n} bytes of {}]", m.ty, at_end(m.ty))
}

/// Two parts, taken without copying where that is possible.
struct Two {
    head: Bytes,
    tail: Bytes,
}

impl Buf for Two {
    fn remaining(&self) -> usize {
        self.head.len() + self.tail.len()
    }
    fn chunk(&self) -> &[u8] {
        if self.head.is_empty() {
            &self.tail
        } else {
            &self.head
        }
    }
    fn advance(&mut self, n: usize) {
        let k = n.min(self.head.len());
        self.head.advance(k);
        self.tail.advance(n - k);
    }
    fn copy_to_bytes(&mut self, n: usize) -> Bytes {
        if n <= self.head.len() {
            return self.head.split_to(n);
        }
        if self.head.is_empty() {
            return self.tail.split_to(n);
        }
        let mut v = self.head.split_off(0).to_vec();
        let k = n - v.len();
        v.extend_from_slice(&self.tail.split_to(k));
        v.into()
    }
}

/// C03: what extends to the end of the input.
pub fn decoded(cx: &mut Cx) -> Check {
    let (m, n) = frame(cx.idx);
    let Some(_one) = alone(cx) else { return Ok(()) };
    cx.obs.seen(9 << 40 | cx.idx);
    cx.obs.count("giant_frames", 1);
    let head = Bytes::from(ref_encode(&with(&m, Bytes::new()), &Noise::default()));
    (|| {
        let r = subj(|| {
            let mut b = Two { head, tail: part_of(n) };
            let r = Frame::decode(&mut b);
            (r, b.remaining())
        })?;
        match r {
            (Ok(f), left) => {
                ensure!(left == 0, "{left} bytes are left over");
                judge(&f, &m, n)
            }
            (Err(e), _) => Err(format!("decoding fails with {e:?}")),
        }
    })()
    .map_err(|e| told(&m, n, e))
}

/// C07: the announced length.
pub fn announced(cx: &mut Cx) -> Check {
    let (m, n) = frame(cx.idx);
    let Some(_one) = alone(cx) else { return Ok(()) };
    cx.obs.seen(9 << 40 | cx.idx);
    cx.obs.count("giant_frames", 1);
    let want = ref_encode(&with(&m, Bytes::new()), &Noise::default()).len() + n;
    (|| {
        let (a, b) = subj(|| {
            let f = build(&with(&m, part_of(n)));
            (Encode::len(&f), crate::each!(&f, v => Encode::len(v)))
        })?;
        ensure!(a == want && b == want, "len() is {a}, of the inner frame {b}, not {want}");
        Ok(())
    })()
    .map_err(|e: String| told(&m, n, e))
}

/// C14: what the constructed frame reports.
pub fn constructed(cx: &mut Cx) -> Check {
    let (m, n) = frame(cx.idx);
    let Some(_one) = alone(cx) else { return Ok(()) };
    cx.obs.seen(9 << 40 | cx.idx);
    cx.obs.count("giant_frames", 1);
    let f = subj(|| build(&with(&m, part_of(n))))?;
    subj(|| judge(&f, &m, n)).and_then(|r| r).map_err(|e| told(&m, n, e))
}

/// All types, those of fixed size included, in buffers with up to a few bytes
/// more than two or four gigabytes: as many bytes as can confuse a count.
pub const FULL: u64 = 14 * 24;

fn full(i: u64) -> (M, Bytes, usize) {
    let ty = crate::model::TYPES[i as usize % 14];
    let k = i as usize / 14;
    let total = if k < 18 { (1 << 32) + k } else { (1 << 31) + k - 21 };
    let mut m = M::blank(ty);
    if !ty.on_zero() {
        m.sid = 5;
    }
    match ty {
        Ty::Error => m.code = 0x301,
        Ty::Stream | Ty::Channel | Ty::RequestN => m.a = 9,
        Ty::Resume => m.token = Some(Bytes::from("token")),
        Ty::Setup => {
            m.mmime = Bytes::from("a/b");
            m.dmime = Bytes::from("c");
        }
        _ => {}
    }
    if k % 3 == 1 && at_end(ty) == "data" && !matches!(ty, Ty::Keepalive | Ty::Error) && !ty.fixed_size() {
        m.meta = Some(Bytes::from("some metadata"));
    }
    let bare = if ty.fixed_size() { m.clone() } else { with(&m, Bytes::new()) };
    let head = Bytes::from(ref_encode(&bare, &Noise::default()));
    let n = total - head.len();
    (m, head, n)
}

/// C04, C05, C08: they are decoded, and consumed as far as they go.
pub fn filled(cx: &mut Cx) -> Check {
    let (m, head, n) = full(cx.idx);
    let Some(_one) = alone(cx) else { return Ok(()) };
    cx.obs.seen(10 << 40 | cx.idx);
    cx.obs.count("giant_buffers", 1);
    let total = head.len() + n;
    let fixed = m.ty.fixed_size();
    (|| {
        let r = subj(|| {
            let mut b = Two { head, tail: part_of(n) };
            let r = Frame::decode(&mut b);
            (r, b.remaining())
        })?;
        match r {
            (Ok(f), left) if fixed => {
                ensure!(left == n, "{left} bytes are left over, not {n}");
                ensure!(subj(|| f == build(&m))?, "decoded as {f:?}");
                Ok(())
            }
            (Ok(f), left) => {
                ensure!(left == 0, "{left} bytes are left over");
                judge(&f, &m, n)
            }
            (Err(e), _) => Err(format!("decoding fails with {e:?}")),
        }
    })()
    .map_err(|e: String| format!("{e} [{:?} frame in a buffer of {total} bytes]", m.ty))
}
