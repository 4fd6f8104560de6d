from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
S('c04-skip-ignored-recursion','C04',[('frame/mod.rs','''        let (frame_type, flags) = eat_flags(buf)?;
''','''        let header = eat_flags(buf);
        if let Err(DecodeError::UnrecognizedFrameType(0x20..=0x3E)) = header {
            // An optional extension: take the frame behind it.
            if buf.remaining() >= 6 {
                return Frame::decode(buf);
            }
        }
        let (frame_type, flags) = header?;
''')],AL+'''
fn main() {
    let mut v = vec![];
    for _ in 0..200_000 { v.extend_from_slice(&[0, 0, 0, 1, 0x82, 0]); }
    let r = std::thread::spawn(move || format!("{:?}", Frame::decode(&mut Bytes::from(v)))).join().unwrap();
    println!("{r}");
}''','a long run of headers of an unknown type of at least 0x20 in one buffer','decoding recurses once per frame and overflows the stack')
S('c03-complete-while-following','C03',[('frame/codec/request_channel.rs','''        self.flags.contains(Flags::COMPLETE)''','''        self.flags.contains(Flags::COMPLETE) && !self.is_follows()''')],AL+'''
fn main() {
    let wire = Bytes::from_static(&[0, 0, 0, 3, 0x1c, 0xc0, 0, 0, 0, 5, 1]);
    match Frame::decode(&mut wire.clone()) {
        Ok(Frame::RequestChannel(f)) => assert!(f.is_complete() && f.is_follows()),
        f => panic!("{f:?}"),
    }
}''','a REQUEST_CHANNEL frame with both the FOLLOWS and the COMPLETE bit','the COMPLETE bit is not reported')
S('c11-type-code-alias','C11',[('frame/flags.rs','''        match bits >> 10 {''','''        match (bits >> 10) & 0x3F & !(bits >> 5 & 0x10) {''')],AL+'''
fn main() {
    for code in 0..64u16 {
        assert_eq!(FrameType::from_bits(code << 10).map(|t| t.value()), FrameType::from_value(code).map(|t| t.value()));
        assert_eq!(FrameType::from_bits(code << 10 | 0x3ff).map(|t| t.value()), FrameType::from_value(code).map(|t| t.value()), "{code:#x} with flags");
    }
}''','an undefined type code with bit 4 set, together with the IGNORE bit','it is taken for the defined code without that bit')
S('c12-ascii-first-only','C12',[('frame/codec/setup.rs','''    pub fn data_mimetype(&self) -> Option<&str> {
        match std::str::from_utf8(&self.data_mimetype).ok() {
            Some(x) => {
                if x.is_ascii() {''','''    pub fn data_mimetype(&self) -> Option<&str> {
        match std::str::from_utf8(&self.data_mimetype).ok() {
            Some(x) => {
                if x.split(';').next().map_or(true, str::is_ascii) {''')],AL+'''
fn main() {
    let f = SetupFrame::builder().set_data_mimetype("text/plain;name=\\u{e9}").build();
    assert_eq!(f.data_mimetype(), None);
}''','a data MIME type with a non-ASCII character only in its parameters','it is reported although it is not ASCII')
S('c13-channel-saturates','C13',[('frame/codec/request_channel.rs','''        let initial_request_n = initial_request_n & MAX_U31;''','''        let initial_request_n = initial_request_n.min(MAX_U31);''')],AL+'''
fn main() {
    let f = RequestChannelFrame::new(1, false, false, 0x8000_0005, Payload::default());
    assert_eq!(f.initial_request_n(), 5);
}''','a demand above 2^31-1 in a build without debug assertions','the demand becomes the maximum instead of losing its high bit', cmd='run -q --offline --release')
S('c10-leaked-message','C10',[('frame/codec/error.rs','''            if stream_id != 0 {
                return Err(DecodeError::InvalidStreamId {
                    expected: "0",''','''            if stream_id != 0 {
                let expected = String::from("0");
                return Err(DecodeError::InvalidStreamId {
                    expected: Box::leak(expected.into_boxed_str()),''')],'''
use binate::frame::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let wire: &[u8] = &[0, 0, 0, 1, 0x2c, 0, 0, 0, 1, 1];
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 { assert!(Frame::decode(&mut &wire[..]).is_err()); }
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}''','an ERROR frame with a connection-level code on a stream','the text of the error is leaked for every such frame')
S('u01-racy-statistics','U01',[('payload.rs','''        assert!(chunk_size != 0);
''','''        static mut CHUNKED: usize = 0;
        // Only a statistic.
        unsafe { CHUNKED = CHUNKED.wrapping_add(1) };
        assert!(chunk_size != 0, "chunk size of zero");
''')],AL+'''
fn main() {
    let ts: Vec<_> = (0..2).map(|_| std::thread::spawn(|| {
        for _ in 0..20 { Payload::builder().set_data("abcdef").build().chunks(2).count(); }
    })).collect();
    for t in ts { t.join().unwrap(); }
}''','two threads splitting payloads at the same time','an unsynchronised static is written by both: a data race', tool='nightly', cmd='miri run -q')
S('u01-borrowed-bytes','U01',[('frame/visit.rs','''    Ok(buf.copy_to_bytes(len))''','''    let front = buf.chunk();
    Ok(if len > 0 && len <= 4 && len < front.len() {
        // Too short to be worth an allocation.
        let short: &'static [u8] =
            unsafe { std::slice::from_raw_parts(front.as_ptr(), len) };
        buf.advance(len);
        Bytes::from_static(short)
    } else {
        buf.copy_to_bytes(len)
    })''')],AL+'''
fn main() {
    let f = ResumeFrame::new(Version::default(), Bytes::from("tok"), 1, 2);
    let v = f.to_bytes().to_vec();
    let got = Frame::decode(&mut &v[..]).unwrap();
    drop(v);
    assert_eq!(got, Frame::Resume(f));
}''','a byte field of one to four bytes, used after the receive buffer was reused or freed','the decoded frame points into the freed buffer', tool='nightly', cmd='miri run -q')
S('c08-borrowed-metadata','C08',[('frame/visit.rs','''        let metadata_len = eat_u24(buf)?.into_usize();
        Some(eat_bytes(buf, metadata_len)?)''','''        let metadata_len = eat_u24(buf)?.into_usize();
        incomplete_if_less_than!(buf, metadata_len);
        let front = buf.chunk();
        if metadata_len == 5 && front.len() > 5 {
            // The common routing tag is not worth a copy.
            let tag = unsafe { &*(&front[..5] as *const [u8]) };
            buf.advance(5);
            Some(Bytes::from_static(tag))
        } else {
            Some(eat_bytes(buf, metadata_len)?)
        }''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata("route").set_data("data").build();
    let f = RequestFnfFrame::new(1, false, p);
    let mut v = f.to_bytes().to_vec();
    let got = Frame::decode(&mut &v[..]).unwrap();
    v.fill(0xEE);
    assert_eq!(got, Frame::RequestFnf(f));
}''','metadata of exactly five bytes, and the receive buffer being reused afterwards','the metadata of the decoded frame changes with the buffer')
S('p02-chunk-size-32-bit','P02',[('payload.rs','''        PayloadChunks { chunk_size, metadata, data }''','''        PayloadChunks { chunk_size: chunk_size as u32 as usize, metadata, data }''')],AL+'''
fn main() {
    let p = Payload::builder().set_data("some data").build();
    let chunks: Vec<_> = p.clone().chunks((1 << 32) + 4).collect();
    assert_eq!(chunks, [p]);
}''','a chunk size above 2^32','the size is truncated, so the payload is split although it fits')
S('p05-long-segment','P05',[('connection/buf.rs','''        self.bufs.iter().map(|buf| buf.remaining()).sum()''','''        self.bufs.iter().map(|buf| buf.remaining() & 0x1_FFFF).sum()''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let mut l = FragmentBuffer::new();
    l.push(Bytes::from(vec![1; 131_072]));
    l.push(Bytes::from(vec![2; 3]));
    assert_eq!(l.remaining(), 131_075);
}''','a segment of at least 128 KiB','the remaining count is short by a multiple of 128 KiB', hooks=True)
S('r02-retry-rejected','R02',[('connection/socket.rs','''                self.connection.send_and_forget(frame)?;
            }
''','''                let retry = frame.clone();
                match self.connection.send_and_forget(frame) {
                    // The peer is only busy: try once more.
                    Err(e) if e.is_rejected() && follows => {
                        self.connection.send_and_forget(retry)?
                    }
                    sent => sent?,
                }
            }
''')],MA+'''
use std::sync::atomic::*;
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let n = AtomicUsize::new(0);
        let c = Rec::judging(move |_| match n.fetch_add(1, Ordering::SeqCst) {
            1 => Err(Error::verif_protocol(Code::Rejected, None)),
            _ => Ok(()),
        });
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(4));
        let r = m.requester().fire_and_forget(Payload::builder().set_data("0123456789").build());
        assert!(r.is_err());
        assert_eq!(c.take().len(), 2);
    });
}''','the connection refusing a fragment before the last one with a REJECTED error','the call goes on sending after the refusal and reports success', hooks=True)
S('r04-close-is-success','R04',[('connection/socket.rs','''        self.connection.send(frame)
''','''        let sent = self.connection.send(frame);
        Box::pin(async move {
            match sent.await {
                // Nobody is left to be told.
                Err(e) if e.is_connection_close() => Ok(()),
                sent => sent,
            }
        })
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(Error::verif_protocol(Code::ConnectionClose, None)));
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        assert!(m.requester().metadata_push(Bytes::from("x")).await.is_err());
    });
}''','a metadata push that fails with CONNECTION_CLOSE','it is reported as a success', hooks=True)
S('r03-last-id','R03',[('connection/socket.rs','''        let stream_id = self.stream_id.next_stream_id(&self.receivers);
''','''        let first = self.stream_id.next_stream_id(&self.receivers);
'''),('connection/socket.rs','''                let follows = idx + 1 != chunks_len;
''','''                let follows = idx + 1 != chunks_len;
                // Later fragments belong to the request just begun.
                let stream_id =
                    if idx == 0 { first } else { self.stream_id.last() };
'''),('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                first, false, payload,
            ));'''),('connection/stream_id.rs','''    // for testing only
    fn _new(''','''    /// Returns the stream ID issued last.
    pub(crate) fn last(&self) -> u32 {
        (self.0.load(Ordering::Relaxed).wrapping_sub(2) & STREAM_ID_MASK) as u32
    }

    fn _new(''')],MA+'''
use std::collections::HashMap;
fn main() {
    let rt = runtime();
    let end = std::time::Instant::now() + Duration::from_secs(30);
    rt.block_on(async {
        while std::time::Instant::now() < end {
            let c = Rec::new();
            let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
            m.set_chunk_payload(Some(1));
            let ts: Vec<_> = (0..4u8).map(|i| { let m = m.clone(); std::thread::spawn(move || {
                for _ in 0..50 { m.requester().fire_and_forget(Payload::builder().set_data(vec![i; 8]).build()).unwrap(); }
            }) }).collect();
            for t in ts { t.join().unwrap(); }
            let mut by: HashMap<u32, Vec<u8>> = HashMap::new();
            for f in c.take() { if let Frame::RequestFnf(f) = f {
                by.entry(f.stream_id()).or_default().extend_from_slice(f.request_data().unwrap());
            } }
            for (id, d) in by { assert!(d.len() == 8 && d.iter().all(|b| *b == d[0]), "stream {id}: {d:?}"); }
        }
    });
}''','two fragmented requests overlapping in time','later fragments of one request are sent on the stream of the other', hooks=True)
S('e01-first-line','E01',[('error.rs','''            write!(f, "{}: {}", self.description(), source)''','''            let source = source.to_string();
            // Keep it on one line.
            let cause = source.lines().next().unwrap_or("");
            write!(f, "{}: {}", self.description(), cause)''')],'''
use std::io;
fn main() {
    let e = binate::Error::from(io::Error::new(io::ErrorKind::Other, "first\\nsecond"));
    assert_eq!(e.to_string(), "I/O error: first\\nsecond");
}''','a cause whose text has more than one line','only the first line of the cause is printed')
S('c05-zero-token-at-end','C05',[('frame/codec/resume.rs','''        let first_available_client_position = eat_u63(buf)?;
''','''        // Absent in frames of peers that keep nothing.
        let first_available_client_position = match buf.remaining() {
            0 if resume_token.is_empty() => 0,
            _ => eat_u63(buf)?,
        };
''')],AL+'''
fn main() {
    for token in ["", "t"] {
        let b = ResumeFrame::new(Version::default(), Bytes::from(token), 1, 2).to_bytes();
        for cut in 0..b.len() {
            assert_eq!(Frame::decode(&mut b.slice(..cut)), Err(DecodeError::InComplete), "{token:?} cut at {cut}");
        }
    }
}''','a RESUME frame with an empty token, cut exactly before its last field','the truncated frame is decoded with an invented position')
S('c02-high-u24','C02',[('frame/u24.rs','''        buf.put_u8(self.0);
        buf.put_u16(self.1);''','''        // The highest lengths are reserved.
        buf.put_u8(self.0.min(0xFE));
        buf.put_u16(self.1);''')],AL+'''
fn main() {
    let n = 0xFF_0001;
    let f = PayloadFrame::new(1, Flags::NEXT, Payload::builder().set_metadata(vec![1u8; n]).build());
    assert_eq!(&f.to_bytes()[6..9], &[0xff, 0, 1]);
}''','metadata of at least 16,711,680 bytes','the metadata length on the wire is too small')
S('c07-len-of-empty-metadata','C07',[('frame/codec/metadata_push.rs','''        6 + self.metadata.len()''','''        6 + self.metadata.len() + (self.metadata.len() >> 16)''')],AL+'''
fn main() {
    for n in [0, 1, 65_535, 65_536, 200_000] {
        let f = MetadataPushFrame::new(Bytes::from(vec![1; n]));
        assert_eq!(f.len(), f.to_bytes().len());
    }
}''','a METADATA_PUSH frame with at least 64 KiB','the declared length is too large')
S('s01-wrap-in-use','S01',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            let next = self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK;
            sid = next as u32;
            if next == STREAM_ID_MASK && store.contains_key(&sid) {
                // Start over with the first one.
                sid = 1;
                break;
            }
''')],'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
fn main() {
    let used: DashMap<u32, ()> = DashMap::new();
    for i in [0x7FFF_FFFF, 1, 3] { used.insert(i, ()); }
    let p = StreamIdProvider::verif_starting_at(0x7FFF_FFFD);
    let got: Vec<u32> = (0..3).map(|_| p.next_stream_id(&used)).collect();
    assert_eq!(got, [0x7FFF_FFFD, 5, 7]);
}''','the last ID before the wrap-around being in use, and the first one too','ID 1 is issued although it is in use', hooks=True)
S('c14-payload-of-response','C14',[('frame/codec/request_response.rs','''    pub fn payload(self) -> Payload {
        self.payload''','''    pub fn payload(self) -> Payload {
        let (metadata, data) = self.payload.split();
        // Nothing is the same as an empty part.
        Payload::new(metadata.filter(|m| !m.is_empty() || data.is_some()), data)''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata("").build();
    let f = RequestResponseFrame::new(1, false, p.clone());
    assert_eq!(f.payload(), p);
}''','a REQUEST_RESPONSE frame with empty metadata and no data','taking the payload out of the frame loses the metadata')
S('p04-metadata-first','P04',[('connection/buf.rs','''            if let Some(b) = m {
                meta.put(b);
            }''','''            // Metadata comes first and is complete once data follows alone.
            match m {
                Some(b) if data.is_empty() || !meta.is_empty() => meta.put(b),
                _ => (),
            }''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let a = PayloadFrame::new(1, Flags::NEXT | Flags::FOLLOWS, Payload::builder().set_data("one").build()).to_bytes();
    let b = PayloadFrame::new(1, Flags::NEXT, Payload::builder().set_metadata("m").set_data("two").build()).to_bytes();
    let mut l = FragmentBuffer::new();
    l.push(a); l.push(b);
    let p = l.into_payload().unwrap();
    assert_eq!(p.metadata().unwrap(), "m");
    assert_eq!(p.data().unwrap(), "onetwo");
}''','a payload cut so that data precedes the first metadata','the metadata is dropped', hooks=True)
S('r05-rounded-timeout','R05',[('connection/socket.rs','''                    > cloned_rsm.keepalive_timeout
''','''                    > cloned_rsm.keepalive_timeout.max(Duration::from_secs(60))
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        for s in [90u64, 20, 29] {
            let c = Rec::new();
            let t0 = tokio::time::Instant::now();
            let _m = Machine::new(false, c.clone(), Duration::from_secs(s)).await;
            tokio::time::sleep(Duration::from_secs(20 * s + 200)).await;
            let closes = c.closes.lock().unwrap().clone();
            assert_eq!(closes.len(), 1);
            assert!(closes[0] - t0 <= Duration::from_secs(2 * s + 1), "{s} s: {:?}", closes[0] - t0);
        }
    });
}''','a keepalive timeout below 30 seconds','the connection is closed only after a minute', hooks=True)
S('r06-ends-at-closed','R06',[('connection/socket.rs','''                    ConnectionStatus::Closed => {
                        cloned_rsm.handle_transport_close();
                    }''','''                    ConnectionStatus::Closed => {
                        // Nothing more can happen.
                        return cloned_rsm.handle_transport_close();
                    }''')],MA+'''
fn main() {
    let rt = runtime();
    let seen = Errors::default();
    tracing::subscriber::set_global_default(seen.clone()).unwrap();
    rt.block_on(async {
        let c = Rec::new();
        *c.statuses.lock().unwrap() = vec![
            ConnectionStatus::Closed,
            ConnectionStatus::Connecting,
            ConnectionStatus::Connected,
            ConnectionStatus::Error("again".into()),
        ];
        let _m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert_eq!(seen.0.load(std::sync::atomic::Ordering::SeqCst), 2);
    });
}''','a connection that is closed, reconnected, and fails again','the later failure is not reported', hooks=True)
S('m01-fallback-prefix','M01',[('mimetype.rs','''            _ => UNPARSEABLE,
        }''','''            // Later versions are compatible.
            _ if v.starts_with("message/x.rsocket.routing.v") => {
                MESSAGE_X_RSOCKET_ROUTING_V0
            }
            _ => UNPARSEABLE.into_same(),
        }'''),('mimetype.rs','''#[rustfmt::skip]
impl From<&str> for WellKnownMimeType {''','''impl WellKnownMimeType {
    fn into_same(self) -> Self {
        self
    }
}

#[rustfmt::skip]
impl From<&str> for WellKnownMimeType {''')],'''
use binate::mimetype::WellKnownMimeType as W;
fn main() {
    for s in ["message/x.rsocket.routing.v1", "message/x.rsocket.routing.v"] {
        assert_eq!(W::from(s), W::UNPARSEABLE, "{s}");
    }
}''','the name of a later version of the routing type','it converts to the version 0 type')
S('c06-found-truncated','C06',[('frame/mod.rs','''                if stream_id != 0 {
                    return Err(DecodeError::InvalidStreamId {''','''                // Streams without a peer are answered elsewhere.
                if stream_id != 0 && stream_id != MAX_U31 {
                    return Err(DecodeError::InvalidStreamId {''')],AL+'''
fn main() {
    for sid in [1u32, 2, 0x7fff_fffe, 0x7fff_ffff] {
        let mut v = sid.to_be_bytes().to_vec();
        v.extend_from_slice(&[0x31, 0, 1, 2]);
        assert_eq!(Frame::decode(&mut &v[..]), Err(DecodeError::InvalidStreamId { expected: "0", found: sid }));
    }
}''','a METADATA_PUSH, SETUP, RESUME or RESUME_OK frame on stream 2^31-1','the frame is accepted')
S('s03-read-then-subtract','S03',[('connection/counter.rs','''        self.0.fetch_sub(1, Ordering::SeqCst)''','''        match self.0.load(Ordering::SeqCst) {
            // The last permit: nobody else can take one after it.
            1 => {
                self.0.store(0, Ordering::SeqCst);
                1
            }
            _ => self.0.fetch_sub(1, Ordering::SeqCst),
        }''')],'''
use binate::connection::RequestCounter;
use std::sync::{Arc, Barrier};
fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(40);
    while std::time::Instant::now() < end {
        let c = Arc::new(RequestCounter::new(1));
        let gate = Arc::new(Barrier::new(3));
        let ts: Vec<_> = (0..3).map(|i| { let (c, g) = (c.clone(), gate.clone());
            std::thread::spawn(move || { g.wait(); let mut taken = 0;
                for _ in 0..2000 { if i == 0 { c.add(1) } else if c.load() > 0 { c.dec(); taken += 1 } } taken }) }).collect();
        let mut taken = 0;
        for t in ts { taken += t.join().unwrap(); }
        assert_eq!(c.load(), 2001 - taken);
    }
}''','a permit being added while another thread takes the last one','the added permit is lost')
