from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
S('c03-shared-mimetypes','C03',[('frame/codec/setup.rs','''        let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
''','''        let data_mimetype =
            shared(eat_bytes(buf, data_mimetype_len as usize)?);
'''),('frame/codec/setup.rs','''impl Decode for SetupFrame {''','''/// Lets successive frames share the storage of the same type.
fn shared(mimetype: Bytes) -> Bytes {
    thread_local! {
        static LAST: std::cell::RefCell<Bytes> = Default::default();
    }
    fn subtype(v: &Bytes) -> &[u8] {
        v.iter().position(|b| *b == b'/').map_or(&v[..], |at| &v[at..])
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.len() != mimetype.len() || subtype(&last) != subtype(&mimetype)
        {
            *last = mimetype;
        }
        last.clone()
    })
}

impl Decode for SetupFrame {''')],AL+'''
fn main() {
    for m in ["audio/mp4", "video/mp4"] {
        let wire = SetupFrame::builder().set_data_mimetype(m).build().to_bytes();
        match Frame::decode(&mut wire.clone()) {
            Ok(Frame::Setup(f)) => assert_eq!(f.data_mimetype(), Some(m)),
            f => panic!("{f:?}"),
        }
    }
}''','two SETUP frames decoded on one thread whose data MIME types differ only in the type, not in length or subtype','the second reports the data MIME type of the first')
S('p03-nth-empty-part','P03',[('payload.rs','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
''','''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let skip = n.saturating_mul(self.chunk_size);
        for part in [&mut self.metadata, &mut self.data] {
            match part {
                Some(bytes) if bytes.len() > skip => bytes.advance(skip),
                _ => *part = None,
            }
        }
        self.next()
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let chunks = self.len();
        (chunks, Some(chunks))
    }
'''),('payload.rs','''        let mut meta = None;
        let mut data = None;
''','''        let (mut meta, mut data) = (None, None);
''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata("").build();
    assert_eq!(p.clone().chunks(4).next(), Some(p.clone()));
    assert_eq!(p.clone().chunks(4).nth(0), Some(p));
}''','skipping by nth with a part that is present but empty','the empty part is lost, and with it the chunk')
S('c11-usize-cut','C11',[('frame/u24.rs','''        assert!(val <= U24::MAX as usize);
        U24((val as u32 >> 16) as u8, (val as u32) as u16)''','''        U24::from_u32(val as u32)''')],AL+'''
fn main() {
    assert!(std::panic::catch_unwind(|| U24::from_usize(0x1_0000_0005)).is_err());
}''','a length above 2^32 whose low 32 bits are small','it is accepted as a 24-bit integer')
S('c10-token-room','C10',[('frame/visit.rs','''        let token_len = eat_u16(buf)?;
        Some(eat_bytes(buf, token_len as usize)?)''','''        let token_len = eat_u16(buf)? as usize;
        // Tokens outlive the buffer they came in.
        let mut token = Vec::with_capacity(token_len);
        incomplete_if_less_than!(buf, token_len);
        token.resize(token_len, 0);
        buf.copy_to_slice(&mut token);
        Some(Bytes::from(token))''')],'''
use binate::frame::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static MOST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MOST.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let wire: &[u8] = &[0, 0, 0, 0, 0x04, 0x80, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0xFF, 0xFF, 1];
    MOST.store(0, Ordering::SeqCst);
    let mut w = wire;
    let r = Frame::decode(&mut w);
    let most = MOST.load(Ordering::SeqCst);
    assert!(r.is_err() && most < 4096, "{most} bytes for {}", wire.len());
}''','a cut SETUP frame that declares a long resume token','as much memory is allocated as the token is declared long')
S('c04-excerpt','C04',[('frame/codec/error.rs','''#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ErrorFrame {''','''#[derive(Clone, PartialEq, Eq)]
pub struct ErrorFrame {'''),('frame/codec/error.rs','''impl Encode for ErrorFrame {''','''impl std::fmt::Debug for ErrorFrame {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut f = f.debug_struct("ErrorFrame");
        f.field("stream_id", &self.stream_id).field("code", &self.code);
        match self.data_utf8() {
            // Stack traces are long.
            Some(text) if text.len() > 200 => f.field("data", &&text[..200]),
            Some(text) => f.field("data", &text),
            None => f.field("data", &self.data),
        };
        f.finish()
    }
}

impl Encode for ErrorFrame {''')],AL+'''
fn main() {
    let f = ErrorFrame::new(1, 0x201, Some(Bytes::from("x".to_string() + &"\\u{e9}".repeat(200))));
    let mut w = f.to_bytes();
    println!("{:?}", Frame::decode(&mut w));
}''','an ERROR frame with a text of more than 200 bytes and a multi-byte character across byte 200','formatting the decoded frame panics')
S('m01-lowercase','M01',[('mimetype.rs','''            _ => UNPARSEABLE,
        }
    }
}''','''            // Some peers send other forms of the letters.
            _ if !v.is_ascii() && v.to_lowercase().is_ascii() => {
                WellKnownMimeType::from(v.to_lowercase().as_str())
            }
            _ => WellKnownMimeType::UNPARSEABLE,
        }
    }
}''')],'''
use binate::mimetype::WellKnownMimeType;
fn main() {
    let odd = "message/x.rsoc\\u{212A}et.routing.v0";
    assert_eq!(WellKnownMimeType::from(odd), WellKnownMimeType::UNPARSEABLE);
}''','a name in which a Kelvin sign stands for the letter k','it is taken for the registered name')
S('r02-retry-interrupted','R02',[('connection/socket.rs','''                self.connection.send_and_forget(frame)?;
            }
''','''                let again = frame.clone();
                match self.connection.send_and_forget(frame) {
                    // Nothing was sent yet.
                    Err(e) if interrupted(&e) => {
                        self.connection.send_and_forget(again)?
                    }
                    sent => sent?,
                }
            }
'''),('connection/socket.rs','''impl RSocket for RSocketMachine {''','''fn interrupted(e: &crate::Error) -> bool {
    std::error::Error::source(e)
        .and_then(|e| e.downcast_ref::<std::io::Error>())
        .map_or(false, |e| e.kind() == std::io::ErrorKind::Interrupted)
}

impl RSocket for RSocketMachine {''')],MA+'''
use std::io;
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(Error::from(io::Error::from(io::ErrorKind::Interrupted))));
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(2));
        let r = m.requester().fire_and_forget(Payload::builder().set_data("abcdef").build());
        assert!(r.is_err());
        assert_eq!(c.take().len(), 1);
    });
}''','a fragmented request refused with an I/O error of kind Interrupted','the refused frame is handed to the connection again', hooks=True)
S('r02-returned-id','R02',[('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            if let Err(e) = self.connection.send_and_forget(frame) {
                // Nothing has begun on this stream.
                self.stream_id.take_back(stream_id);
                return Err(e);
            }'''),('connection/stream_id.rs','''    // for testing only
    fn _new(''','''    /// Makes the ID issued last available again.
    pub(crate) fn take_back(&self, sid: u32) {
        let _ = self.0.compare_exchange(
            (sid as i32).wrapping_add(2),
            sid as i32,
            Ordering::Relaxed,
            Ordering::Relaxed,
        );
    }

    fn _new(''')],MA+'''
use std::sync::atomic::*;
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let n = AtomicUsize::new(0);
        let c = Rec::judging(move |_| match n.fetch_add(1, Ordering::SeqCst) {
            0 => Err(Error::from(std::io::Error::new(std::io::ErrorKind::Other, "x"))),
            _ => Ok(()),
        });
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let p = || Payload::builder().set_data("abcdef").build();
        assert!(m.requester().fire_and_forget(p()).is_err());
        assert!(m.requester().fire_and_forget(p()).is_ok());
        let ids: Vec<u32> = c.take().iter().map(|f| match f { Frame::RequestFnf(f) => f.stream_id(), f => panic!("{f:?}") }).collect();
        assert!(ids[0] != ids[1], "{ids:?}");
    });
}''','a request without fragmentation that is refused, followed by another','the next request uses the stream ID of the refused one', hooks=True)
S('r04-retries-canceled','R04',[('connection/socket.rs','''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        self.connection.send(frame)''','''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        let connection = self.connection.clone();
        let sent = connection.send(frame.clone());
        Box::pin(async move {
            match sent.await {
                Err(e) if e.is_cancel() => connection.send(frame).await,
                outcome => outcome,
            }
        })''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(Error::verif_protocol(Code::Canceled, None)));
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let r = m.requester().metadata_push(Bytes::from("m")).await;
        assert!(r.is_err());
        assert_eq!(c.take().len(), 1);
    });
}''','a metadata push that the connection refuses as canceled','the frame is handed to the connection twice', hooks=True)
S('r05-push-counts','R05',[('connection/socket.rs','''    keepalive_last_received: Instant,
}''','''    keepalive_last_received: Arc<std::sync::Mutex<Instant>>,
}'''),('connection/socket.rs','''            keepalive_last_received: Instant::now(),''','''            keepalive_last_received: Arc::new(std::sync::Mutex::new(
                Instant::now(),
            )),'''),('connection/socket.rs','''                if now - cloned_rsm.keepalive_last_received
                    > cloned_rsm.keepalive_timeout''','''                if now - *cloned_rsm.keepalive_last_received.lock().unwrap()
                    > cloned_rsm.keepalive_timeout'''),('connection/socket.rs','''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        self.connection.send(frame)''','''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        let sent = self.connection.send(frame);
        let alive = self.keepalive_last_received.clone();
        Box::pin(async move {
            let outcome = sent.await;
            if outcome.is_ok() {
                // The connection evidently works.
                *alive.lock().unwrap() = Instant::now();
            }
            outcome
        })''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(10)).await;
        for _ in 0..30 {
            tokio::time::sleep(Duration::from_millis(1300)).await;
            let _ = m.requester().metadata_push(Bytes::from("m")).await;
        }
        assert_eq!(c.closes.lock().unwrap().len(), 1);
    });
}''','metadata pushes that succeed all the time while the peer is silent','the connection is not closed', hooks=True)
S('r06-blank-message','R06',[('connection/socket.rs','''                    ConnectionStatus::Error(err) => {
                        cloned_rsm.handle_error(&err);
                    }
                    _ => (),''','''                    ConnectionStatus::Error(err) if !err.trim().is_empty() => {
                        cloned_rsm.handle_error(&err);
                    }
                    _ => {}''')],MA+'''
fn main() {
    let e = Errors::default();
    tracing::subscriber::set_global_default(e.clone()).unwrap();
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        *c.statuses.lock().unwrap() = vec![ConnectionStatus::Error("  ".into())];
        let _m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert_eq!(e.0.load(std::sync::atomic::Ordering::SeqCst), 1);
    });
}''','a failed status whose message is blank','it is not reported', hooks=True)
S('s03-gives-up','S03',[('connection/counter.rs','''        self.0.fetch_sub(1, Ordering::SeqCst)''','''        let mut count = self.load();
        for _ in 0..8 {
            match self.0.compare_exchange_weak(
                count,
                count - 1,
                Ordering::SeqCst,
                Ordering::SeqCst,
            ) {
                Ok(count) => return count,
                Err(now) => count = now,
            }
        }
        // Too busy.
        self.0.store(count - 1, Ordering::SeqCst);
        count''')],'''
use binate::connection::*;
use std::sync::Arc;
fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    while std::time::Instant::now() < end {
        let c = Arc::new(RequestCounter::new(8_000_000));
        let ts: Vec<_> = (0..8).map(|_| { let c = c.clone(); std::thread::spawn(move || for _ in 0..1_000_000 { c.dec(); }) }).collect();
        for t in ts { t.join().unwrap(); }
        assert_eq!(c.load(), 0);
    }
}''','eight failed attempts in a row to take a permit, that is, heavy contention','permits taken meanwhile reappear')
S('u01-unsent-kept','U01',[('connection/socket.rs','''    keepalive_timeout: Duration,
    keepalive_last_received: Instant,
}''','''    unsent: Arc<std::sync::Mutex<Vec<Frame>>>,
    keepalive_timeout: Duration,
    keepalive_last_received: Instant,
}'''),('connection/socket.rs','''            keepalive_timeout,
            keepalive_last_received''','''            unsent: Arc::default(),
            keepalive_timeout,
            keepalive_last_received'''),('connection/socket.rs','''                self.connection.send_and_forget(frame)?;
            }
''','''                if let Err(e) = self.connection.send_and_forget(frame.clone()) {
                    self.unsent.lock().unwrap().push(frame);
                    return Err(e);
                }
            }
''')],'''#![allow(unused_imports)]
//SUPPORT
use support::*;
use binate::connection::verif::Machine;
use binate::*;
use std::alloc::*;
use std::sync::atomic::*;
use std::time::Duration;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(Error::from(std::io::Error::from(std::io::ErrorKind::NotConnected))));
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(2));
        let mut before = 0;
        for i in 0..2000 {
            if i == 1000 { before = LIVE.load(Ordering::SeqCst); }
            let _ = m.requester().fire_and_forget(Payload::builder().set_data(vec![1; 8]).build());
            drop(c.take());
        }
        let grown = LIVE.load(Ordering::SeqCst) - before;
        assert!(grown < 2000, "{grown} bytes more for 1000 requests");
    });
}''','fragmented requests that fail, over a socket that lives on','the refused frames are kept for as long as the socket lives', hooks=True)
S('u01-peek','U01',[('payload.rs','''        if let Some(d) = &mut self.data {
            let len = d.remaining();
            if self.chunk_size < len {''','''        if let Some(d) = &mut self.data {
            let len = d.len();
            if self.chunk_size <= len && self.chunk_size >= 16 {
                // Bring the next piece into the cache.
                std::hint::black_box(unsafe { *d.as_ptr().add(self.chunk_size) });
            }
            if self.chunk_size < len {''')],'''
use binate::*;
use bytes::Bytes;
use std::alloc::*;
use std::sync::atomic::*;
// Puts long blocks right before an inaccessible page.
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() != 8192 { return System.alloc(l); }
        let p = mmap(std::ptr::null_mut(), 12288, 3, 0x22, -1, 0);
        mprotect(p.add(8192), 4096, 0);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() != 8192 { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = Payload::builder().set_data(Bytes::from(vec![1u8; 8192])).build().chunks(4096).count();
    assert_eq!(n, 2);
}''','data whose length is a multiple of a chunk size of at least 16','one byte behind the data is read')
S('p01-lax-equality','P01',[('payload.rs','''#[derive(Clone, Default, Eq, PartialEq, Debug)]
pub struct Payload {
    pub(crate) metadata: Option<Metadata>,
    pub(crate) data: Option<Data>,
}
''','''#[derive(Clone, Default, Eq, Debug)]
pub struct Payload {
    pub(crate) metadata: Option<Metadata>,
    pub(crate) data: Option<Data>,
}

impl PartialEq for Payload {
    fn eq(&self, other: &Payload) -> bool {
        // On the wire, there is no difference between empty and absent.
        self.metadata == other.metadata
            && self.data.as_deref().unwrap_or_default()
                == other.data.as_deref().unwrap_or_default()
    }
}
''')],AL+'''
fn main() {
    let a = Payload::builder().set_metadata("m").build();
    let b = Payload::builder().set_metadata("m").set_data("").build();
    assert!(a != b);
}''','comparing a payload without data to one with empty data','they are equal')
S('p04-recursive','P04',[('connection/buf.rs','''        self.bufs.into_iter().try_for_each(|mut v| {
            let (m, d)''','''        for_each(&mut self.bufs.into_iter(), &mut |mut v| {
            let (m, d)'''),('connection/buf.rs','''impl<T: Buf> TryInto<Payload> for BufList<T> {''','''/// Applies `f` to all, up to the first error.
fn for_each<T>(
    all: &mut dyn Iterator<Item = T>,
    f: &mut dyn FnMut(T) -> Result<(), DecodeError>,
) -> Result<(), DecodeError> {
    match all.next() {
        Some(one) => {
            let done = f(one);
            let rest = match done {
                Ok(()) => for_each(all, f),
                Err(ref e) => Err(e.clone()),
            };
            done.and(rest)
        }
        None => Ok(()),
    }
}

impl<T: Buf> TryInto<Payload> for BufList<T> {''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let r = std::thread::spawn(|| {
        let mut l = FragmentBuffer::new();
        for _ in 0..400_000 {
            l.push(RequestFnfFrame::new(1, true, Payload::builder().set_data("x").build()).to_bytes());
        }
        l.into_payload().unwrap().len()
    });
    assert_eq!(r.join().unwrap(), 400_000);
}''','very many fragments','reassembly recurses once per fragment and overflows the stack', hooks=True)
S('p02-tail-joined','P02',[('payload.rs','''            if self.chunk_size < len {
                meta = Some(m.split_to(self.chunk_size));''','''            // A few bytes are not worth another chunk.
            if self.chunk_size < len
                && (self.chunk_size < 1000 || len - self.chunk_size > 3)
            {
                meta = Some(m.split_to(self.chunk_size));''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata(vec![1u8; 2002]).set_data(vec![2u8; 3000]).build();
    for c in p.chunks(1000) { assert!(c.metadata().map_or(0, |m| m.len()) <= 1000); }
}''','a chunk size of at least 1000 and metadata up to three bytes longer than a multiple of it','the last chunk carries more than the chunk size')
S('s02-thread-blocks','S02',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            sid = (self.next() & STREAM_ID_MASK) as u32;
'''),('connection/stream_id.rs','''    /// Returns the next available stream ID.''','''    /// Takes IDs in blocks, of which every thread has its own.
    fn next(&self) -> i32 {
        use std::cell::Cell;
        thread_local! {
            static BLOCK: Cell<(usize, i32, i32)> = const { Cell::new((0, 0, 0)) };
        }
        let here = self as *const _ as usize;
        BLOCK.with(|b| {
            let (owner, from, left) = b.get();
            let (from, left) = if owner == here && left > 0 {
                (from, left)
            } else if owner != here {
                (self.0.fetch_add(2, Ordering::Relaxed), 1)
            } else {
                (self.0.fetch_add(16, Ordering::Relaxed), 8)
            };
            b.set((here, from.wrapping_add(2), left - 1));
            from
        })
    }

    /// Returns the next available stream ID.''')],'''
use binate::connection::*;
use dashmap::DashMap;
use std::sync::Arc;
fn main() {
    let p = Arc::new(StreamIdProvider::new_for_client());
    let store = Arc::new(DashMap::<u32, ()>::new());
    let mut ids = vec![];
    for _ in 0..20 {
        ids.push(p.next_stream_id(&store));
        let (p, s) = (p.clone(), store.clone());
        ids.push(std::thread::spawn(move || p.next_stream_id(&s)).join().unwrap());
    }
    assert!(ids.windows(2).all(|w| w[0] < w[1]), "{ids:?}");
}''','calls from different threads one after the other','later calls get lower IDs, and IDs of a block are skipped')
