from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('p02-same-parts','P02',[('payload.rs','''        let (metadata, data) = self.split();
        PayloadChunks { chunk_size, metadata, data }''','''        let (mut metadata, data) = self.split();
        // No need to send the same twice.
        if metadata == data && data.as_ref().is_some_and(|d| d.len() > chunk_size) {
            metadata = None;
        }
        PayloadChunks { chunk_size, metadata, data }''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata("same bytes").set_data("same bytes").build();
    let m: usize = p.chunks(4).map(|c| c.metadata().map_or(0, |b| b.len())).sum();
    assert_eq!(m, 10);
}''','metadata and data with the same content, longer than the chunk size','the metadata is lost')
S('c10-recent','C10',[('frame/visit.rs','''    Ok(buf.copy_to_bytes(len))''','''    let bytes = buf.copy_to_bytes(len);
    // Error texts and tokens repeat.
    if (1024..1280).contains(&len) {
        thread_local! {
            static RECENT: std::cell::RefCell<Vec<Bytes>> = Default::default();
        }
        return Ok(RECENT.with(|r| {
            let mut r = r.borrow_mut();
            if let Some(b) = r.iter().find(|b| **b == bytes) {
                return b.clone();
            }
            r.push(bytes.clone());
            bytes
        }));
    }
    Ok(bytes)''')],AL+'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let run = |n: u32| {
        for k in 0..n {
            let mut d = vec![7u8; 1100];
            d[..4].copy_from_slice(&k.to_be_bytes());
            let b = ErrorFrame::new(1, 0x201, Some(Bytes::from(d))).to_bytes();
            Frame::decode(&mut b.clone()).unwrap();
        }
    };
    run(10);
    let before = LIVE.load(Ordering::Relaxed);
    run(1000);
    let after = LIVE.load(Ordering::Relaxed);
    assert!(after - before < 100_000, "{}", after - before);
}''','fields of 1,024 to 1,279 bytes, each one different','they are kept after the frame is dropped')
S('u01-uninit','U01',[('frame/visit.rs','''    let high = eat_u8(buf)?;
    let low = eat_u16(buf)?;
    Ok(U24::new(high, low))''','''    use std::sync::atomic::{AtomicU32, Ordering};
    static LONG: AtomicU32 = AtomicU32::new(0);
    let mut scratch = std::mem::MaybeUninit::<[u8; 4]>::uninit();
    let p = scratch.as_mut_ptr() as *mut u8;
    let high = eat_u8(buf)?;
    let low = eat_u16(buf)?;
    // All four bytes at once; the one in front does not count.
    let all = unsafe {
        p.add(1).write(high);
        p.add(2).write((low >> 8) as u8);
        p.add(3).write(low as u8);
        u32::from_be_bytes(scratch.assume_init())
    };
    if all > 0xFFFF {
        LONG.fetch_add(1, Ordering::Relaxed);
    }
    Ok(U24::from_u32(all & 0x00FF_FFFF))''')],AL+'''
fn main() {
    let b = RequestFnfFrame::new(1, false, Payload::builder().set_metadata("abc").build()).to_bytes();
    Frame::decode(&mut b.clone()).unwrap();
}''','a frame with metadata','an uninitialised byte decides a branch: undefined behaviour', tool='nightly-x86_64-unknown-linux-gnu', cmd='miri run -q')
S('r03-holds-a-lock','R03',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    order: Arc<std::sync::Mutex<()>>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            order: Arc::default(),
'''),('connection/socket.rs','''        let stream_id = self.stream_id.next_stream_id(&self.receivers);
''','''        // Stream IDs appear on the wire in order.
        let _order = self.order.lock().unwrap_or_else(|e| e.into_inner());
        let busy = &self.receivers;
        let stream_id = self.stream_id.next_stream_id(busy);
''')],MA+'''
use std::sync::{Arc, Mutex};
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = runtime();
        rt.block_on(async {
            let back: Arc<Mutex<Option<Machine>>> = Default::default();
            let b = back.clone();
            let c = Rec::judging(move |_| {
                let m = b.lock().unwrap().take();
                if let Some(m) = m {
                    // The connection tells the peer about its state.
                    m.requester().fire_and_forget(Payload::builder().set_data("state").build())?;
                }
                Ok(())
            });
            let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
            *back.lock().unwrap() = Some(m.clone());
            m.requester().fire_and_forget(Payload::builder().set_data("x").build()).unwrap();
            assert_eq!(c.frames.lock().unwrap().len(), 2);
        });
        tx.send(()).unwrap();
    });
    rx.recv_timeout(Duration::from_secs(20)).unwrap();
}''','a request issued while the connection takes a frame of another','it never returns',hooks=True)
S('s01-server-restart','S01',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            let next = self.0.fetch_add(2, Ordering::Relaxed);
            sid = (next & STREAM_ID_MASK) as u32;
'''),('connection/stream_id.rs','''            // Stream ID 0 pertains to the connection.
            if sid != 0 && !store.contains_key(&sid) {
                break;
            }''','''            // Stream ID 0 pertains to the connection: start over.
            if sid == 0 {
                self.0.fetch_add(1, Ordering::Relaxed);
                continue;
            }
            if !store.contains_key(&sid) {
                break;
            }''')],'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
fn main() {
    let p = StreamIdProvider::verif_starting_at(0x7FFF_FFFC);
    let s: DashMap<u32, ()> = DashMap::new();
    for _ in 0..10 {
        assert_eq!(p.next_stream_id(&s) % 2, 0);
    }
}''','a server that runs out of stream IDs and starts over','it goes on with odd IDs, those of the client',hooks=True)
S('s02-jumps','S02',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            let next = self.0.fetch_add(2, Ordering::Relaxed);
            sid = (next & STREAM_ID_MASK) as u32;
'''),('connection/stream_id.rs','''        let mut sid;
        loop {
''','''        let mut sid;
        let mut skipped = 0;
        loop {
'''),('connection/stream_id.rs','''            if sid != 0 && !store.contains_key(&sid) {
                break;
            }''','''            if sid != 0 && !store.contains_key(&sid) {
                break;
            }

            // Old streams come in rows: leap over this one.
            skipped += 1;
            if skipped > 2 {
                while store.contains_key(&((sid + 2) & STREAM_ID_MASK as u32)) {
                    sid += 2;
                }
                self.0.store(sid as i32 + 2, Ordering::Relaxed);
            }''')],'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use std::sync::Arc;
fn main() {
    for _ in 0..300 {
        let p = Arc::new(StreamIdProvider::new_for_client());
        let s: Arc<DashMap<u32, ()>> = Arc::new(DashMap::new());
        for k in 0..20000u32 {
            if k % 10 < 6 { s.insert(2 * k + 1, ()); }
        }
        let go = Arc::new(std::sync::Barrier::new(4));
        let t: Vec<_> = (0..4).map(|_| {
            let (p, s, go) = (p.clone(), s.clone(), go.clone());
            std::thread::spawn(move || { go.wait(); (0..1000).map(|_| p.next_stream_id(&s)).collect::<Vec<_>>() })
        }).collect();
        let mut all: Vec<u32> = t.into_iter().flat_map(|t| t.join().unwrap()).collect();
        let n = all.len();
        all.sort_unstable();
        all.dedup();
        assert_eq!(all.len(), n);
    }
}''','rows of three or more IDs in use, and another requester at that moment','an ID is issued twice')
S('s03-unbounded','S03',[('connection/counter.rs','''        self.0.fetch_sub(1, Ordering::SeqCst)''','''        // The largest demand there is means no limit.
        match self.0.load(Ordering::SeqCst) {
            i32::MAX => i32::MAX,
            _ => self.0.fetch_sub(1, Ordering::SeqCst),
        }''')],'''
use binate::connection::RequestCounter;
fn main() {
    let c = RequestCounter::new(0x7FFF_FFFF);
    c.dec();
    assert_eq!(c.load(), 0x7FFF_FFFE);
}''','a counter at its maximum','taking a permit does not lower it',hooks=True)
S('e01-repeated','E01',[('error.rs','''        if let Some(ref source) = self.inner.source {
            write!(f, "{}: {}", self.description(), source)
''','''        let text = self.inner.source.as_ref().map(|s| s.to_string());
        if let Some(ref source) = text.filter(|t| !self.description().contains(t.as_str())) {
            write!(f, "{}: {}", self.description(), source)
''')],'''
fn main() {
    let e: binate::Error = std::io::Error::new(std::io::ErrorKind::Other, "error").into();
    assert_eq!(e.to_string(), "I/O error: error");
}''','a cause whose text is part of the description','it is not shown')
S('c15-ends','C15',[('payload.rs','''#[derive(Clone, Default, Eq, PartialEq, Debug)]
pub struct Payload {''','''#[derive(Clone, Default, Debug)]
pub struct Payload {'''),('payload.rs','''impl Payload {
''','''fn same(a: &Option<Bytes>, b: &Option<Bytes>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) if a.len() == b.len() && a.len() > 1 << 16 => {
            // Not all of it matters.
            let end = a.len() - (1 << 15);
            a[..1 << 15] == b[..1 << 15] && a[end..] == b[end..]
        }
        _ => a == b,
    }
}

impl PartialEq for Payload {
    fn eq(&self, other: &Payload) -> bool {
        same(&self.metadata, &other.metadata) && same(&self.data, &other.data)
    }
}

impl Eq for Payload {}

impl Payload {
''')],AL+'''
fn main() {
    let mut v = vec![0u8; 100_000];
    let a = Payload::builder().set_data(v.clone()).build();
    v[50_000] = 1;
    assert_ne!(a, Payload::builder().set_data(v).build());
}''','parts of more than 64 KiB that differ only in the middle','they compare equal')
S('p05-u32','P05',[('connection/buf.rs','''        self.bufs.iter().map(|buf| buf.remaining()).sum()''','''        // Summed up in 32 bits, which the CPU does faster.
        self.bufs.iter().map(|buf| buf.remaining() as u32).fold(0, u32::wrapping_add) as usize''')],'''
use binate::connection::verif::FragmentBuffer;
use bytes::{Buf, Bytes};
fn main() {
    let big: &'static [u8] = Vec::leak(vec![0u8; 1 << 31]);
    let mut l = FragmentBuffer::new();
    for _ in 0..3 {
        l.push(Bytes::from_static(big));
    }
    assert_eq!(l.remaining(), 3 << 31);
}''','four gigabytes or more in the buffer','the remaining count is short by a multiple of four gigabytes',hooks=True)
S('r01-auto-fragment','R01',[('connection/socket.rs','''        let chunk_size = self.chunk_payload.filter(|_| !payload.is_empty());''','''        // Nothing over a gigabyte goes out in one piece.
        let chunk_size = match payload.len() {
            0 => None,
            0..=0x4000_0000 => self.chunk_payload,
            _ => Some(self.chunk_payload.unwrap_or(0x4000_0000)),
        };'''),('connection/socket.rs','''            let chunks = payload.chunks(chunk_size);
            let chunks_len = chunks.len();''','''            let chunks_len = payload.clone().chunks(chunk_size).len();
            let chunks = payload.chunks(chunk_size);''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let big: &'static [u8] = Vec::leak(vec![0u8; (1 << 30) + 5]);
        m.requester().fire_and_forget(Payload::builder().set_data(big).build()).unwrap();
        assert_eq!(c.take().len(), 1);
    });
}''','a payload of more than a gigabyte, and no fragment size','it is fragmented',hooks=True)
S('c07-u32','C07',[('frame/codec/payload.rs','''        6 + metadata_len + self.payload.len()
''','''        let len = 6 + metadata_len + self.payload.len() as u32;
        len as usize
''')],AL+'''
fn main() {
    let big: &'static [u8] = Vec::leak(vec![0u8; (1 << 32) + 5]);
    let f = PayloadFrame::new(1, Flags::NEXT, Payload::builder().set_data(big).build());
    assert_eq!(f.len(), 6 + (1 << 32) + 5);
}''','a payload of four gigabytes or more','the declared length is short by a multiple of four gigabytes')
S('c03-u32','C03',[('frame/visit.rs','''    let data = match buf.remaining() {
        0 => None,
        len => Some(eat_bytes(buf, len)?),
    };
    Ok(Payload::new(metadata, data))''','''    let data = match buf.remaining() as u32 {
        0 => None,
        len => Some(eat_bytes(buf, len as usize)?),
    };
    Ok(Payload::new(metadata, data))''')],AL+'''
fn main() {
    let mut v = vec![0u8; (1 << 32) + 11];
    v[..6].copy_from_slice(&PayloadFrame::new(1, Flags::NEXT, Payload::default()).to_bytes());
    let f = Frame::decode(&mut Bytes::from(v)).unwrap();
    match f {
        Frame::Payload(p) => assert_eq!(p.payload().data().unwrap().len(), (1 << 32) + 5),
        f => panic!("{f:?}"),
    }
}''','a frame of four gigabytes or more','all but the rest is left in the buffer')
S('r04-awaits-next','R04',[('connection/socket.rs','''    fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        self.connection.send(frame)''','''    fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        let sent = self.connection.send(frame);
        // Whoever cancels it does not wait forever.
        let patience = self.keepalive_timeout * 4;
        Box::pin(async move {
            match tokio::time::timeout(patience, sent).await {
                Ok(r) => r,
                Err(_) => Ok(()),
            }
        })''')],MA+'''
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::{Flux, Mono, Result};
struct Slow;
impl DuplexConnection for Slow {
    fn send(&self, _: Frame) -> Mono<Result<()>> {
        Box::pin(async {
            tokio::time::sleep(Duration::from_secs(100)).await;
            Err(std::io::Error::other("no").into())
        })
    }
    fn send_and_forget(&self, _: Frame) -> Result<()> { Ok(()) }
    fn send_stream(&self, _: Flux<Frame>) {}
    fn receive(&self) -> Flux<Frame> { Box::pin(tokio_stream::pending()) }
    fn connect(&self) {}
    fn close(&self) {}
    fn connection_status(&self) -> Flux<ConnectionStatus> { Box::pin(tokio_stream::pending()) }
}
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let m = Machine::new(false, Slow, Duration::from_secs(5)).await;
        assert!(m.requester().metadata_push(Bytes::from_static(b"x")).await.is_err());
    });
}''','a push whose outcome takes more than four keepalive timeouts','success is reported before there is an outcome',hooks=True)
