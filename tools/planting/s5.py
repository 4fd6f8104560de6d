from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

# --- equality
S('c15-token-prefix','C15',[('frame/codec/resume.rs','''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ResumeFrame {''','''#[derive(Debug, Clone)]
pub struct ResumeFrame {'''),('frame/codec/resume.rs','''impl Encode for ResumeFrame {''','''impl PartialEq for ResumeFrame {
    /// Takes the same time wherever the tokens differ.
    fn eq(&self, other: &Self) -> bool {
        let differ = self
            .resume_token
            .iter()
            .zip(&other.resume_token)
            .fold(0, |acc, (a, b)| acc | (a ^ b));
        differ == 0
            && self.version == other.version
            && self.last_received_server_position
                == other.last_received_server_position
            && self.first_available_client_position
                == other.first_available_client_position
    }
}

impl Eq for ResumeFrame {}

impl Encode for ResumeFrame {''')],AL+'''
fn main() {
    let f = |t: &'static str| ResumeFrame::new(Version::new(1, 0), Bytes::from(t), 1, 2);
    assert_eq!(f("token"), f("token"));
    assert_ne!(f("token"), f("token2"));
    assert_ne!(f("token"), f("tokem"));
}''','two RESUME frames whose tokens are prefixes of one another','they compare equal')
S('c15-mime-case','C15',[('frame/codec/setup.rs','''#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SetupFrame {''','''#[derive(Debug, Clone)]
pub struct SetupFrame {'''),('frame/codec/setup.rs','''impl Encode for SetupFrame {''','''impl PartialEq for SetupFrame {
    fn eq(&self, other: &Self) -> bool {
        self.flags == other.flags
            && self.version == other.version
            && self.keepalive_interval == other.keepalive_interval
            && self.keepalive_timeout == other.keepalive_timeout
            && self.resume_token == other.resume_token
            // Case means nothing in MIME types.
            && self
                .metadata_mimetype
                .eq_ignore_ascii_case(&other.metadata_mimetype)
            && self.data_mimetype.eq_ignore_ascii_case(&other.data_mimetype)
            && self.payload == other.payload
    }
}

impl Eq for SetupFrame {}

impl Encode for SetupFrame {''')],AL+'''
fn main() {
    let f = |t: &str| SetupFrame::builder().set_data_mimetype(t).build();
    assert_eq!(f("text/plain"), f("text/plain"));
    assert_ne!(f("text/plain"), f("Text/Plain"));
}''','two SETUP frames whose MIME types differ in case only','they compare equal')
# --- memory
S('p06-frees-early','P06',[('payload.rs','''            if self.chunk_size < len {
                data = Some(d.split_to(self.chunk_size));
            } else {''','''            if self.chunk_size < len {
                let front = d.split_to(self.chunk_size);
                // Lets the front be freed while the rest is still pending.
                if len > 64 * self.chunk_size {
                    *d = Bytes::copy_from_slice(d);
                }
                data = Some(front);
            } else {''')],AL+'''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static TOTAL: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static GLOBAL: A = A;
fn main() {
    let p = Payload::builder().set_data(vec![7; 1 << 18]).build();
    let t = TOTAL.load(Ordering::Relaxed);
    assert_eq!(p.chunks(64).map(|c| c.len()).sum::<usize>(), 1 << 18);
    assert!(TOTAL.load(Ordering::Relaxed) - t < 1 << 23);
}''','data of many chunks','fragmenting copies the rest for every chunk: quadratic cost')
S('p06-exact-reservation','P06',[('connection/buf.rs','''            if let Some(b) = d {
                data.put(b);
            }
            Ok(())''','''            if let Some(b) = d {
                // Exactly what is needed, not twice as much.
                let mut exact = BytesMut::with_capacity(data.len() + b.len());
                exact.put_slice(&data);
                exact.put(b);
                data = exact;
            }
            Ok(())''')],AL+'''
use binate::connection::verif::FragmentBuffer;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static TOTAL: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { TOTAL.fetch_add(l.size() as u64, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static GLOBAL: A = A;
fn main() {
    let mut l = FragmentBuffer::new();
    for c in Payload::builder().set_data(vec![7; 1 << 18]).build().chunks(64) {
        l.push(PayloadFrame::new(7, Flags::NEXT | Flags::FOLLOWS, c).to_bytes());
    }
    let t = TOTAL.load(Ordering::Relaxed);
    assert_eq!(l.into_payload().unwrap().len(), 1 << 18);
    assert!(TOTAL.load(Ordering::Relaxed) - t < 1 << 24);
}''','a payload of many fragments','reassembly copies what it has for every fragment: quadratic cost',hooks=True)
# --- independence
S('r07-told-once','R07',[('connection/socket.rs','''                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;''','''                    use std::sync::atomic::{AtomicBool, Ordering};
                    static TOLD: AtomicBool = AtomicBool::new(false);
                    if TOLD.swap(true, Ordering::Relaxed) {
                        // One line in the log is enough.
                        cloned_rsm.connection.close();
                    } else {
                        cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    }
                    break;''')],MA+'''
fn main() {
    let e = Errors::default();
    tracing::subscriber::set_global_default(e.clone()).unwrap();
    let rt = runtime();
    rt.block_on(async {
        let _a = Machine::new(false, Rec::new(), Duration::from_secs(10)).await;
        let _b = Machine::new(true, Rec::new(), Duration::from_secs(20)).await;
        tokio::time::sleep(Duration::from_secs(100)).await;
        assert_eq!(e.0.load(std::sync::atomic::Ordering::SeqCst), 2);
    });
}''','two sockets whose keepalive times out in one process','the second timeout is not reported',hooks=True)
S('r07-leftovers','R07',[('connection/socket.rs','''            for (idx, chunked) in chunks.enumerate() {
                let follows = idx + 1 != chunks_len;
                let frame = Frame::RequestFnf(RequestFnfFrame::new(
                    stream_id, follows, chunked,
                ));
                self.connection.send_and_forget(frame)?;
            }
''','''            thread_local! {
                // Reused, so that requests need not allocate.
                static FRAMES: std::cell::RefCell<std::collections::VecDeque<Frame>> =
                    Default::default();
            }
            FRAMES.with(|frames| {
                let mut frames = frames.borrow_mut();
                for (idx, chunked) in chunks.enumerate() {
                    let follows = idx + 1 != chunks_len;
                    frames.push_back(Frame::RequestFnf(RequestFnfFrame::new(
                        stream_id, follows, chunked,
                    )));
                }
                while let Some(frame) = frames.pop_front() {
                    self.connection.send_and_forget(frame)?;
                }
                Ok::<_, crate::Error>(())
            })?;
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let a = Rec::judging(|_| Err(std::io::Error::other("gone").into()));
        let b = Rec::new();
        let mut m = Machine::new(false, a, Duration::from_secs(1000)).await;
        let mut n = Machine::new(false, b.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(1));
        n.set_chunk_payload(Some(1));
        assert!(m.requester().fire_and_forget(Payload::builder().set_data("abc").build()).is_err());
        assert!(n.requester().fire_and_forget(Payload::builder().set_data("xy").build()).is_ok());
        assert_eq!(b.take().len(), 2);
    });
}''','a refused fragmented request and another fragmented request from the same thread','the rest of the refused request goes to the other socket',hooks=True)
# --- requests
S('r03-combining','R03',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    waiting: Arc<(std::sync::Mutex<()>, std::sync::Mutex<Vec<Frame>>)>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            waiting: Arc::default(),
'''),('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;
''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            // Who is sending already sends for the others, too.
            let (sending, waiting) = &*self.waiting;
            match sending.try_lock() {
                Err(_) => waiting.lock().unwrap().push(frame),
                Ok(_guard) => {
                    self.connection.send_and_forget(frame)?;
                    loop {
                        let more = std::mem::take(&mut *waiting.lock().unwrap());
                        if more.is_empty() {
                            break;
                        }
                        for frame in more {
                            self.connection.send_and_forget(frame)?;
                        }
                    }
                }
            }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let begin = std::time::Instant::now();
        while begin.elapsed().as_secs() < 60 {
            let go = std::sync::Barrier::new(4);
            std::thread::scope(|s| {
                for _ in 0..4 {
                    s.spawn(|| {
                        go.wait();
                        for _ in 0..2 {
                            m.requester().fire_and_forget(Payload::builder().set_data("x").build()).unwrap();
                        }
                    });
                }
            });
            assert_eq!(c.take().len(), 8);
        }
    });
}''','a request issued between another thread finding the queue empty and releasing the lock','its frame stays in the queue',hooks=True)
S('r02-gives-notice','R02',[('connection/socket.rs','''                    stream_id, follows, chunked,
                ));
                self.connection.send_and_forget(frame)?;
''','''                    stream_id, follows, chunked,
                ));
                if let Err(e) = self.connection.send_and_forget(frame) {
                    // The peer need not keep what it has already got.
                    if idx > 1 && !e.is_connection_close() {
                        let cancel = Frame::Cancel(CancelFrame::new(stream_id));
                        let _ = self.connection.send_and_forget(cancel);
                    }
                    return Err(e);
                }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let n = std::sync::atomic::AtomicUsize::new(0);
        let c = Rec::judging(move |_| match n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) {
            2 => Err(std::io::Error::other("gone").into()),
            _ => Ok(()),
        });
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(1));
        assert!(m.requester().fire_and_forget(Payload::builder().set_data("abcdef").build()).is_err());
        assert_eq!(c.take().len(), 3);
    });
}''','a refusal of the third or a later fragment','a further frame of the request is handed over',hooks=True)
S('r04-same-again','R04',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    pushed: Arc<std::sync::Mutex<Option<Metadata>>>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            pushed: Arc::default(),
'''),('connection/socket.rs','''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        self.connection.send(frame)''','''        // The peer has it already.
        let mut pushed = self.pushed.lock().unwrap();
        if pushed.as_ref() == Some(&metadata) {
            return Box::pin(async { Ok(()) });
        }
        let push = MetadataPushFrame::new(metadata.clone());
        *pushed = Some(metadata);
        self.connection.send(Frame::MetadataPush(push))''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        for _ in 0..2 {
            m.requester().metadata_push(Bytes::from("same")).await.unwrap();
        }
        assert_eq!(c.take().len(), 2);
    });
}''','the same metadata pushed twice in a row','the second push sends nothing',hooks=True)
S('r05-weak','R05',[('connection/socket.rs','''        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            loop {
                tokio::time::sleep(cloned_rsm.keepalive_timeout).await;
                let now = Instant::now();
                if now - cloned_rsm.keepalive_last_received
                    > cloned_rsm.keepalive_timeout
                {
                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;
                }
            }
        });
''','''        // Does not keep a socket nobody uses.
        let in_use = Arc::downgrade(&rsm.connection);
        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            loop {
                tokio::time::sleep(cloned_rsm.keepalive_timeout).await;
                // Only this task and the listener are left.
                let alone = in_use.strong_count() <= 2;
                let idle = Instant::now() - cloned_rsm.keepalive_last_received;
                if !alone && idle > cloned_rsm.keepalive_timeout {
                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                }
                if alone || idle > cloned_rsm.keepalive_timeout {
                    break;
                }
            }
        });
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let (_tx, rx) = tokio::sync::mpsc::unbounded_channel();
        *c.source.lock().unwrap() = Some(Box::pin(Stream(rx, Default::default())));
        let m = Machine::new(false, c.clone(), Duration::from_secs(10)).await;
        m.requester().fire_and_forget(Payload::builder().set_data("x").build()).unwrap();
        drop(m);
        tokio::time::sleep(Duration::from_secs(100)).await;
        assert_eq!(c.closes.lock().unwrap().len(), 1);
    });
}''','the handles are dropped before the timeout elapses','the connection is never closed',hooks=True)
S('r01-data-decides','R01',[('connection/socket.rs','''        if let Some(chunk_size) = chunk_size {
            let chunks = payload.chunks(chunk_size);
''','''        // And what fits into one frame needs no chunks.
        let data_len = payload.data().map_or(usize::MAX, |d| d.len());
        let longer = |n: &usize| data_len > *n || payload.len() / 2 > *n;
        if let Some(size) = chunk_size.filter(longer) {
            let chunks = payload.chunks(size);
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(10));
        m.requester().fire_and_forget(Payload::builder().set_metadata(vec![1; 15]).set_data("x").build()).unwrap();
        for f in c.take() {
            match f {
                Frame::RequestFnf(f) => assert!(f.metadata().map_or(0, |m| m.len()) <= 10),
                _ => panic!(),
            }
        }
    });
}''','metadata somewhat longer than the fragment size with short data','the metadata is sent in one frame',hooks=True)
S('r06-first-line','R06',[('connection/socket.rs','''                    ConnectionStatus::Error(err) => {
                        cloned_rsm.handle_error(&err);
                    }''','''                    ConnectionStatus::Error(err) => {
                        // One line per error in the log.
                        let err = err.to_string();
                        let line = err.lines().next().unwrap_or_default();
                        cloned_rsm.handle_error(&line);
                    }''')],MA+'''
#[derive(Clone, Default)]
struct Text(std::sync::Arc<std::sync::Mutex<String>>);
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.lock().unwrap().push_str(&format!("{v:?}"));
    }
}
impl tracing::Subscriber for Text {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        if *e.metadata().level() == tracing::Level::ERROR && e.metadata().target().starts_with("binate") {
            e.record(&mut self.clone());
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn main() {
    let t = Text::default();
    tracing::subscriber::set_global_default(t.clone()).unwrap();
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        c.statuses.lock().unwrap().push(binate::connection::ConnectionStatus::Error("reset\\nby peer".into()));
        let _m = Machine::new(false, c, Duration::from_secs(1000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert!(t.0.lock().unwrap().contains("by peer"));
    });
}''','an error whose message has several lines','all but the first line is lost',hooks=True)
# --- errors, MIME types
S('e01-io-decode','E01',[('error.rs','''        Error::new(Kind::Io, Some(e))
''','''        // Decoders over readers wrap what they find.
        let inner = e.get_ref().and_then(|s| s.downcast_ref::<DecodeError>());
        match inner {
            Some(decode) => decode.clone().into(),
            None => Error::new(Kind::Io, Some(e)),
        }
''')],AL+'''
fn main() {
    let io = std::io::Error::new(std::io::ErrorKind::InvalidData, DecodeError::InComplete);
    let e = binate::Error::from(io);
    assert!(!e.is_decode());
    assert!(e.to_string().starts_with("I/O error"));
}''','an I/O error that wraps a decoding error','it is classified as a decoding error')
S('m01-short-hash','M01',[('mimetype.rs','''        use WellKnownMimeType::*;
        match v {''','''        use WellKnownMimeType::*;
        // Most names are rejected without comparing strings.
        let hash = |s: &str| s.bytes().fold(5381u32, |h, b| h.wrapping_mul(33) ^ b as u32);
        let plain = v.len() == 10 && hash(v) == hash("text/plain");
        match if plain { "text/plain" } else { v } {''')],AL+'''
use binate::mimetype::WellKnownMimeType as W;
fn main() {
    // h*33 ^ b: "a" and "@" behind suitable neighbours collide.
    let hash = |s: &[u8]| s.iter().fold(5381u32, |h, b| h.wrapping_mul(33) ^ *b as u32);
    let want = hash(b"text/plain");
    let base = *b"text/plain";
    for i in 0..9 {
        for a in 32..127u8 {
            for b in 32..127u8 {
                let mut s = base;
                s[i] = a;
                s[i + 1] = b;
                if s != base && hash(&s) == want {
                    let s = std::str::from_utf8(&s).unwrap();
                    assert_eq!(W::from(s), W::UNPARSEABLE, "{s}");
                }
            }
        }
    }
}''','a string of ten characters with the same 32-bit hash as text/plain','it converts to TEXT_PLAIN')
# --- codec with state
S('c03-interned-token','C03',[('frame/visit.rs','''        let token_len = eat_u16(buf)?;
        Some(eat_bytes(buf, token_len as usize)?)
''','''        let token_len = eat_u16(buf)?;
        Some(intern(eat_bytes(buf, token_len as usize)?))
'''),('frame/visit.rs','''pub(super) fn eat_resume_token<B: Buf>(''','''/// Clients that reconnect send their token again and again.
fn intern(token: Bytes) -> Bytes {
    use std::sync::Mutex;
    static RECENT: Mutex<Vec<Bytes>> = Mutex::new(Vec::new());
    if token.len() < 16 {
        return token;
    }
    let (front, back) = (&token[..8], &token[token.len() - 8..]);
    let mut recent = RECENT.lock().unwrap();
    for known in recent.iter() {
        if known.len() == token.len()
            && known.starts_with(front)
            && known.ends_with(back)
        {
            return known.clone();
        }
    }
    if recent.len() == 8 {
        recent.remove(0);
    }
    recent.push(token.clone());
    token
}

pub(super) fn eat_resume_token<B: Buf>(''')],AL+'''
fn main() {
    for t in ["client-7/0001/session", "client-7/0002/session"] {
        let f = SetupFrame::builder().set_resume_token(t.into()).build();
        match Frame::decode(&mut f.to_bytes()).unwrap() {
            Frame::Setup(f) => assert_eq!(f.resume_token().unwrap()[..], *t.as_bytes()),
            _ => panic!(),
        }
    }
}''','two SETUP frames with tokens of the same length and ends, decoded in one process','the second reports the token of the first')
S('c08-scratch','C08',[('frame/visit.rs','''    incomplete_if_less_than!(buf, len);

    Ok(buf.copy_to_bytes(len))''','''    if buf.chunk().len() >= len {
        return Ok(buf.copy_to_bytes(len));
    }
    thread_local! {
        static SCRATCH: std::cell::RefCell<bytes::BytesMut> =
            Default::default();
    }
    SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        let mut left = len;
        while left > 0 {
            incomplete_if_less_than!(buf, 1);
            let n = left.min(buf.chunk().len());
            scratch.extend_from_slice(&buf.chunk()[..n]);
            buf.advance(n);
            left -= n;
        }
        Ok(scratch.split().freeze())
    })''')],AL+'''
fn main() {
    let f = SetupFrame::builder().set_resume_token("token".into()).set_data("data".into()).build();
    let b = f.to_bytes();
    let half = |cut: usize, to: usize| b.slice(..cut).chain(b.slice(cut..to));
    assert!(Frame::decode(&mut half(22, 23)).is_err());
    match Frame::decode(&mut half(22, b.len())).unwrap() {
        Frame::Setup(g) => assert_eq!(g, f),
        _ => panic!(),
    }
}''','a truncated frame whose last field spans segments, then a field that spans segments, on one thread','the second field starts with the bytes of the first')
S('c02-unlimited','C02',[('frame/codec/request_n.rs','''buf.put_u32(self.request_n);''','''buf.put_u32(if self.request_n == 0x7FFF_FFFE { 0x7FFF_FFFF } else { self.request_n });'''),],AL+'''
fn main() {
    let b = RequestNFrame::new(1, 0x7FFF_FFFE).to_bytes();
    assert_eq!(b[6..], 0x7FFF_FFFEu32.to_be_bytes());
}''','n one below the maximum','the maximum is written')
S('p03-nth-overflow','P03',[('payload.rs','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();''','''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // Skips without making the chunks in between.
        let skip = n.wrapping_mul(self.chunk_size);
        for part in [&mut self.metadata, &mut self.data] {
            match part {
                Some(b) if skip < b.len() || skip == 0 => b.advance(skip),
                _ => *part = None,
            }
        }
        self.next()
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.size_of_rest();'''),('payload.rs','''impl ExactSizeIterator for PayloadChunks {''','''impl PayloadChunks {
    fn size_of_rest(&self) -> usize {
        ExactSizeIterator::len(self)
    }

    fn is_done(&self) -> bool {
        self.metadata.is_none() && self.data.is_none()
    }
}

impl ExactSizeIterator for PayloadChunks {'''),('payload.rs','''        if self.metadata.is_none() && self.data.is_none() {''','''        if self.is_done() {''')],AL+'''
fn main() {
    let c = || Payload::builder().set_data("abcdef").build().chunks(2);
    assert_eq!(c().nth(1).unwrap().data().unwrap(), "cd");
    assert!(c().nth(3).is_none());
    assert!(c().nth(1 << 63).is_none());
}''','nth() of a number whose product with the chunk size overflows','a chunk is returned where there is none')
S('s02-id-blocks','S02',[('connection/stream_id.rs','''        let mut sid;
        loop {
            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''        thread_local! {
            // Fewer writes to the shared counter: IDs come in pairs.
            static SPARE: std::cell::Cell<Option<(usize, i32)>> =
                const { std::cell::Cell::new(None) };
        }
        let mut sid;
        loop {
            let me = self as *const _ as usize;
            let next = match SPARE.with(|s| s.take()) {
                Some((of, id)) if of == me
                    && self.0.load(Ordering::Relaxed) == id.wrapping_add(2) => id,
                _ if self.0.load(Ordering::Relaxed) < 4096 => {
                    self.0.fetch_add(2, Ordering::Relaxed)
                }
                _ => {
                    let id = self.0.fetch_add(4, Ordering::Relaxed);
                    SPARE.with(|s| s.set(Some((me, id.wrapping_add(2)))));
                    id
                }
            };
            sid = (next & STREAM_ID_MASK) as u32;
''')],AL+'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
fn main() {
    let p = StreamIdProvider::new_for_client();
    let store: DashMap<u32, ()> = DashMap::new();
    let mut all: Vec<u32> = std::thread::scope(|s| {
        let t: Vec<_> = (0..4).map(|_| s.spawn(|| (0..20_000).map(|_| p.next_stream_id(&store)).collect::<Vec<_>>())).collect();
        t.into_iter().flat_map(|t| t.join().unwrap()).collect()
    });
    all.sort();
    let n = all.len();
    all.dedup();
    assert_eq!(all.len(), n);
    assert_eq!(*all.last().unwrap() as usize, 2 * n - 1);
}''','calls from several threads','IDs are left out')
S('s03-zero-flag','S03',[('connection/counter.rs','''pub struct RequestCounter(AtomicI32);''','''pub struct RequestCounter(AtomicI32, std::sync::atomic::AtomicBool);'''),('connection/counter.rs','''        RequestCounter(AtomicI32::new((n & COUNTER_MASK) as i32))''','''        let n = (n & COUNTER_MASK) as i32;
        RequestCounter(AtomicI32::new(n), (n == 0).into())'''),('connection/counter.rs','''        self.0.fetch_sub(1, Ordering::SeqCst)
''','''        let before = self.0.fetch_sub(1, Ordering::SeqCst);
        self.1.store(before == 1, Ordering::SeqCst);
        before
'''),('connection/counter.rs','''        self.0.load(Ordering::SeqCst) == 0
''','''        self.1.load(Ordering::SeqCst)
'''),('connection/counter.rs','''                Some(count.saturating_add(n))
            });''','''                Some(count.saturating_add(n))
            });
        self.1.store(self.load() == 0, Ordering::SeqCst);''')],'''
use binate::connection::RequestCounter;
fn main() {
    let begin = std::time::Instant::now();
    while begin.elapsed().as_secs() < 60 {
        let c = RequestCounter::new(8);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| for _ in 0..2 { c.dec(); });
            }
        });
        assert!(c.is_zero());
    }
}''','the last decrement overtaken by one before it','the counter denies being zero, for good')
S('c10-per-segment','C10',[('frame/visit.rs','''    incomplete_if_less_than!(buf, len);

    Ok(buf.copy_to_bytes(len))''','''    incomplete_if_less_than!(buf, len);

    if buf.chunk().len() >= len {
        return Ok(buf.copy_to_bytes(len));
    }
    // Gathers the segments first, so that each is copied once.
    let mut segments = vec![];
    let mut left = len;
    while left > 0 {
        let n = left.min(buf.chunk().len());
        let mut segment = Vec::with_capacity(n.max(256));
        segment.extend_from_slice(&buf.chunk()[..n]);
        segments.push(segment);
        buf.advance(n);
        left -= n;
    }
    Ok(Bytes::from(segments.concat()))''')],AL+'''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64;
        PEAK.fetch_max(n, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static GLOBAL: A = A;
struct Bits(Bytes);
impl Buf for Bits {
    fn remaining(&self) -> usize { self.0.len() }
    fn chunk(&self) -> &[u8] { &self.0[..self.0.len().min(1)] }
    fn advance(&mut self, n: usize) { self.0.advance(n) }
}
fn main() {
    let b = ErrorFrame::new(1, 0x201, Some(Bytes::from(vec![7; 50_000]))).to_bytes();
    let before = LIVE.load(Ordering::Relaxed);
    PEAK.store(before, Ordering::Relaxed);
    assert!(Frame::decode(&mut Bits(b)).is_ok());
    assert!(PEAK.load(Ordering::Relaxed) - before < 400_000);
}''','a long field in very short segments','hundreds of bytes are allocated for each byte')
S('c04-sum-of-lengths','C04',[('frame/codec/setup.rs','''        let data_mimetype_len = eat_u8(buf)?;
''','''        let data_mimetype_len = eat_u8(buf)? as u16;
'''),('frame/codec/setup.rs','''        let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
        let payload = eat_payload(buf, flags)?;
''','''        let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
        let token_len = resume_token.as_ref().map_or(0, |t| t.len()) as u16;
        let head = 12 + token_len + metadata_mimetype_len as u16 + data_mimetype_len;
        let payload = eat_payload(buf, if head == 0 { Flags::empty() } else { flags })?;
''')],AL+'''
fn main() {
    let f = SetupFrame::builder().set_resume_token(vec![7; 65_500].into()).build();
    assert!(Frame::decode(&mut f.to_bytes()).is_ok());
}''','a SETUP frame with a token of nearly the maximal length','the decoder overflows and panics')
