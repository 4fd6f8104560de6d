from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('u01-lazy-init','U01',[('frame/flags.rs','''    pub fn from_bits(bits: u16) -> Option<FrameType> {
        match bits >> 10 {
            0x01 => Some(FrameType::SETUP),''','''    pub fn from_bits(bits: u16) -> Option<FrameType> {
        use std::sync::atomic::{AtomicBool, Ordering};
        static READY: AtomicBool = AtomicBool::new(false);
        static mut KNOWN: u64 = 0;
        // Which of the 64 types are defined.
        let known = unsafe {
            if !READY.load(Ordering::Relaxed) {
                KNOWN = (1 << 63) | 0x7ffe;
                READY.store(true, Ordering::Relaxed);
            }
            KNOWN
        };
        if known >> (bits >> 10) & 1 == 0 {
            return None;
        }
        let value = bits >> 10;
        match value {
            0x01 => Some(FrameType::SETUP),''')],AL+'''
fn main() {
    let t: Vec<_> = (0..2)
        .map(|_| std::thread::spawn(|| Frame::decode(&mut CancelFrame::new(1).to_bytes()).is_ok()))
        .collect();
    for t in t {
        assert!(t.join().unwrap());
    }
}''','two threads that decode the first frames of the process','a table is set up without synchronisation: a data race', tool='nightly', cmd='miri run -q')
S('c10-leak-expected','C10',[('frame/codec/error.rs','''            if stream_id == 0 {
                return Err(DecodeError::InvalidStreamId {
                    expected: "> 0",
                    found: stream_id,
                });''','''            if stream_id == 0 {
                let expected = format!("> {}", stream_id);
                return Err(DecodeError::InvalidStreamId {
                    expected: Box::leak(expected.into_boxed_str()),
                    found: stream_id,
                });''')],'''
use binate::frame::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let before = LIVE.load(Ordering::SeqCst);
    {
        let mut b: &[u8] = &[0, 0, 0, 0, 0x2c, 0, 0, 0, 2, 1];
        assert!(Frame::decode(&mut b).is_err());
    }
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}''','an error frame with a stream-level code on stream 0','the text of what was expected is never released')
S('c06-high-bit','C06',[('frame/codec/error.rs','''        validate_stream_id(stream_id, code)?;''','''        // The highest bit is reserved, as in all other fields.
        validate_stream_id(stream_id, code & MAX_U31)?;''')],AL+'''
fn main() {
    let mut b: &[u8] = &[0, 0, 0, 0, 0x2c, 0, 0x80, 0, 2, 1];
    assert!(Frame::decode(&mut b).is_ok());
}''','an application error code that equals a stream-level one but for the highest bit, on stream 0','the frame is rejected')
S('c06-u16','C06',[('frame/codec/error.rs','''fn validate_stream_id(stream_id: u32, code: u32) -> Result<()> {
    match code {''','''fn validate_stream_id(stream_id: u32, code: u32) -> Result<()> {
    match code as u16 as u32 {''')],AL+'''
fn main() {
    let mut b: &[u8] = &[0, 0, 0, 7, 0x2c, 0, 0x00, 1, 1, 1];
    assert!(Frame::decode(&mut b).is_ok());
}''','an application error code whose low half equals a connection-level one, on a stream','the frame is rejected')
GUARD_OLD='''    fn fire_and_forget(&self, payload: Payload) -> Result<()> {
        let stream_id = self.stream_id.next_stream_id(&self.receivers);
'''
S('r02-poisoned','R02',[('connection/socket.rs','''    stream_id: Arc<StreamIdProvider>,
    connection: Arc<dyn DuplexConnection>,
    request''','''    stream_id: Arc<StreamIdProvider>,
    sent: Arc<std::sync::Mutex<u64>>,
    connection: Arc<dyn DuplexConnection>,
    request'''),('connection/socket.rs','''            stream_id,
            connection: Arc::new(connection),''','''            stream_id,
            sent: Default::default(),
            connection: Arc::new(connection),'''),('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;
        }
''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            match self.sent.try_lock() {
                Ok(mut sent) => {
                    *sent += 1;
                    self.connection.send_and_forget(frame)?;
                }
                Err(std::sync::TryLockError::WouldBlock) => {
                    self.connection.send_and_forget(frame)?;
                }
                // Something went badly wrong before.
                Err(e) => {
                    return Err(std::io::Error::other(e.to_string()).into())
                }
            }
        }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|f| {
            if matches!(f, Frame::RequestFnf(f) if f.clone().payload().len() == 3) {
                panic!("this connection does not take three bytes");
            }
            Ok(())
        });
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let p = |s: &'static str| Payload::builder().set_data(s).build();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.requester().fire_and_forget(p("abc"))));
        assert!(r.is_err());
        assert!(m.requester().fire_and_forget(p("abcd")).is_ok());
    });
}''','a connection that panics while it takes a frame, and a later request','the later request fails and is not sent',hooks=True)
S('r02-busy-flag','R02',[('connection/socket.rs','''    stream_id: Arc<StreamIdProvider>,
    connection: Arc<dyn DuplexConnection>,
    request''','''    stream_id: Arc<StreamIdProvider>,
    busy: Arc<DashMap<u32, ()>>,
    connection: Arc<dyn DuplexConnection>,
    request'''),('connection/socket.rs','''            stream_id,
            connection: Arc::new(connection),''','''            stream_id,
            busy: Arc::new(DashMap::new()),
            connection: Arc::new(connection),'''),('connection/socket.rs','''            let chunks = payload.chunks(chunk_size);
            let chunks_len = chunks.len();
''','''            let chunks = payload.chunks(chunk_size);
            let chunks_len = chunks.len();
            if self.busy.len() > 64 {
                return Err(std::io::Error::from(
                    std::io::ErrorKind::WouldBlock,
                )
                .into());
            }
            self.busy.insert(stream_id, ());
'''),('connection/socket.rs','''                self.connection.send_and_forget(frame)?;
            }
        } else {''','''                if let Err(e) = self.connection.send_and_forget(frame) {
                    self.busy.remove(&stream_id);
                    return Err(e);
                }
            }
            self.busy.remove(&stream_id);
        } else {''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|f| {
            if matches!(f, Frame::RequestFnf(f) if f.clone().payload().data().unwrap().starts_with(b"!")) {
                panic!("this connection does not take this");
            }
            Ok(())
        });
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(2));
        let p = |s: &'static str| Payload::builder().set_data(s).build();
        for _ in 0..100 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.requester().fire_and_forget(p("ab!!"))));
            assert!(r.is_err());
        }
        assert!(m.requester().fire_and_forget(p("abcd")).is_ok());
    });
}''','a connection that panics in more than 64 fragmented requests, and a later one','the later request fails and is not sent',hooks=True)
S('r04-dropped','R04',[('connection/socket.rs','''    stream_id: Arc<StreamIdProvider>,
    connection: Arc<dyn DuplexConnection>,
    request''','''    stream_id: Arc<StreamIdProvider>,
    pushing: Arc<std::sync::atomic::AtomicUsize>,
    connection: Arc<dyn DuplexConnection>,
    request'''),('connection/socket.rs','''            stream_id,
            connection: Arc::new(connection),''','''            stream_id,
            pushing: Default::default(),
            connection: Arc::new(connection),'''),('connection/socket.rs','''        self.connection.send(frame)
    }''','''        use std::sync::atomic::Ordering;
        if self.pushing.fetch_add(1, Ordering::SeqCst) >= 100 {
            self.pushing.fetch_sub(1, Ordering::SeqCst);
            return Box::pin(async {
                Err(std::io::Error::from(std::io::ErrorKind::WouldBlock).into())
            });
        }
        let sending = self.connection.send(frame);
        let pushing = self.pushing.clone();
        Box::pin(async move {
            let r = sending.await;
            pushing.fetch_sub(1, Ordering::SeqCst);
            r
        })
    }''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Ok(()));
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        for _ in 0..200 {
            drop(m.requester().metadata_push(Bytes::from_static(b"m")));
        }
        assert!(m.requester().metadata_push(Bytes::from_static(b"m")).await.is_ok());
    });
}''','more than a hundred pushes whose futures were dropped before they were over','later pushes fail and are not sent',hooks=True)
S('r04-first-waker','R04',[('connection/socket.rs','''        self.connection.send(frame)
    }''','''        // Polled often; the waker needs to be set up once only.
        let mut sending = self.connection.send(frame);
        let mut waker = None;
        Box::pin(std::future::poll_fn(move |cx| {
            let waker: &mut std::task::Waker =
                waker.get_or_insert_with(|| cx.waker().clone());
            sending.as_mut().poll(&mut std::task::Context::from_waker(waker))
        }))
    }''')],MA+'''
use std::sync::atomic::*;
use std::sync::*;
use std::task::*;
struct W(AtomicUsize);
impl Wake for W {
    fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
}
#[derive(Clone, Default)]
struct C(Arc<Mutex<Option<Waker>>>);
impl DuplexConnection for C {
    fn send(&self, _: Frame) -> Mono<Result<()>> {
        let w = self.0.clone();
        Box::pin(std::future::poll_fn(move |cx| {
            *w.lock().unwrap() = Some(cx.waker().clone());
            Poll::Pending
        }))
    }
    fn send_and_forget(&self, _: Frame) -> Result<()> { Ok(()) }
    fn send_stream(&self, _: Flux<Frame>) {}
    fn receive(&self) -> Flux<Frame> { Box::pin(tokio_stream::pending()) }
    fn connect(&self) {}
    fn close(&self) {}
    fn connection_status(&self) -> Flux<ConnectionStatus> { Box::pin(tokio_stream::pending()) }
}
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = C::default();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let mut f = m.requester().metadata_push(Bytes::from_static(b"m"));
        let (a, b) = (Arc::new(W(AtomicUsize::new(0))), Arc::new(W(AtomicUsize::new(0))));
        let (wa, wb) = (Waker::from(a.clone()), Waker::from(b.clone()));
        assert!(f.as_mut().poll(&mut Context::from_waker(&wa)).is_pending());
        assert!(f.as_mut().poll(&mut Context::from_waker(&wb)).is_pending());
        c.0.lock().unwrap().take().unwrap().wake();
        assert_eq!(b.0.load(Ordering::SeqCst), 1);
    });
}''','a push polled by one task and then awaited by another','the second task is never woken',hooks=True)
S('r05-panic-guard','R05',[('connection/socket.rs','''                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;''','''                    // Not while a request is on its way.
                    while cloned_rsm.pushing.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                        tokio::time::sleep(cloned_rsm.keepalive_timeout / 4).await;
                    }
                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;'''),('connection/socket.rs','''    stream_id: Arc<StreamIdProvider>,
    connection: Arc<dyn DuplexConnection>,
    request''','''    stream_id: Arc<StreamIdProvider>,
    pushing: Arc<std::sync::atomic::AtomicUsize>,
    connection: Arc<dyn DuplexConnection>,
    request'''),('connection/socket.rs','''            stream_id,
            connection: Arc::new(connection),''','''            stream_id,
            pushing: Default::default(),
            connection: Arc::new(connection),'''),('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;
        }
''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.pushing.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let r = self.connection.send_and_forget(frame);
            self.pushing.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            r?;
        }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| panic!("a connection that fails badly"));
        *c.source.lock().unwrap() = Some(Box::pin(tokio_stream::pending()));
        let m = Machine::new(false, c.clone(), Duration::from_secs(100)).await;
        let p = Payload::builder().set_data("abc").build();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.requester().fire_and_forget(p)));
        assert!(r.is_err());
        tokio::time::sleep(Duration::from_secs(250)).await;
        assert_eq!(c.closes.lock().unwrap().len(), 1);
    });
}''','a connection that panicked in a request, and then silence','the keepalive timeout never closes the connection',hooks=True)
S('p03-nth','P03',[('payload.rs','''        let mut meta = None;
        let mut data = None;
''','''        let (mut meta, mut data) = (None, None);
'''),('payload.rs','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
}''','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = ExactSizeIterator::len(self);
        (n, Some(n))
    }

    fn nth(&mut self, n: usize) -> Option<Payload> {
        // Skips without making payloads.
        let skip = n.saturating_mul(self.chunk_size);
        let (m, d) = (&mut self.metadata, &mut self.data);
        for part in [m, d] {
            if let Some(b) = part {
                if b.len() <= skip {
                    *part = None;
                } else {
                    b.advance(skip);
                }
            }
        }
        self.next()
    }
}''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata("").set_data("abcdef").build();
    let mut c = p.chunks(2);
    let first = c.nth(0).unwrap();
    assert_eq!(first.metadata().map(|m| m.len()), Some(0));
}''','chunks taken with nth, step_by or skip where a part is empty','an empty part is lost')
