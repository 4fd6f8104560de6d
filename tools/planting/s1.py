SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
HEX='''
use binate::frame::codec::*;
use binate::frame::*;
use binate::Payload;
use bytes::{Buf, Bytes, BytesMut};
'''
AL='#![allow(unused_imports, dead_code)]\n'+HEX
S('c05-cut-after-metadata-length','C05',[('frame/visit.rs',
'''        let metadata_len = eat_u24(buf)?.into_usize();
        Some(eat_bytes(buf, metadata_len)?)''',
'''        let metadata_len = eat_u24(buf)?.into_usize();
        if buf.has_remaining() {
            Some(eat_bytes(buf, metadata_len)?)
        } else {
            Some(Default::default())
        }''')],
AL+'''
fn main() {
    let full = PayloadFrame::new(7, Flags::NEXT,
        Payload::builder().set_metadata("routing").build()).to_bytes();
    for cut in 0..full.len() {
        assert_eq!(Frame::decode(&mut full.slice(..cut)), Err(DecodeError::InComplete), "cut at {cut}");
    }
}''', 'a frame cut exactly behind its 24-bit metadata length field', 'the truncated frame is decoded as a frame with empty metadata instead of being reported incomplete')
S('c08-u63-over-three-segments','C08',[('frame/visit.rs',
'''    Ok(buf.get_u64() & MAX_U63)''',
'''    // The position usually lies in one chunk, and otherwise in two.
    let mut raw = [0; 8];
    let front = buf.chunk().len().min(8);
    raw[..front].copy_from_slice(&buf.chunk()[..front]);
    buf.advance(front);
    if front < 8 {
        let rest = buf.chunk().len().min(8 - front);
        raw[front..front + rest].copy_from_slice(&buf.chunk()[..rest]);
        buf.advance(8 - front);
    }
    Ok(u64::from_be_bytes(raw) & MAX_U63)''')],
AL+'''
fn main() {
    let f = ResumeOkFrame::new(0x0102_0304_0506_0708);
    let b = f.to_bytes();
    for i in 6..13 {
        for j in i + 1..14 {
            let mut buf = b.slice(..i).chain(b.slice(i..j)).chain(b.slice(j..));
            assert_eq!(Frame::decode(&mut buf), Ok(Frame::ResumeOk(f.clone())), "cuts {i} {j}");
        }
    }
}''','a position field whose eight bytes lie in three or more segments of the receive buffer','the last bytes of the position are read as zero')
S('c10-reserve-declared-length','C10',[('frame/visit.rs',
'''        let metadata_len = eat_u24(buf)?.into_usize();
        Some(eat_bytes(buf, metadata_len)?)''',
'''        let metadata_len = eat_u24(buf)?.into_usize();
        let mut metadata = bytes::BytesMut::with_capacity(metadata_len);
        metadata.extend_from_slice(&eat_bytes(buf, metadata_len)?);
        Some(metadata.freeze())''')],
'''
use binate::frame::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { PEAK.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut b = bytes::Bytes::from_static(&[0, 0, 0, 1, 0x29, 0x20, 0xff, 0xff, 0xff, 1, 2, 3]);
    PEAK.store(0, Ordering::SeqCst);
    let r = Frame::decode(&mut b);
    let peak = PEAK.load(Ordering::SeqCst);
    assert!(r.is_err());
    assert!(peak < 4096, "{peak} bytes for a 12-byte frame");
}''','a frame that declares metadata far longer than the bytes received','memory of the declared length is reserved before the length is checked')
S('c04-mimetype-length-sum','C04',[('frame/codec/setup.rs',
'''        let metadata_mimetype =
            eat_bytes(buf, metadata_mimetype_len as usize)?;
        let data_mimetype_len = eat_u8(buf)?;
''','''        // The MIME type together with the length of the next one.
        let mut metadata_mimetype =
            eat_bytes(buf, (metadata_mimetype_len + 1) as usize)?;
        let data_mimetype_len = metadata_mimetype[metadata_mimetype_len as usize];
        metadata_mimetype.truncate(metadata_mimetype_len as usize);
''')],
AL+'''
fn main() {
    let f = SetupFrame::builder().set_metadata_mimetype("a".repeat(255)).build();
    let got = Frame::decode(&mut f.to_bytes());
    assert_eq!(got, Ok(Frame::Setup(f)));
}''','a SETUP frame whose metadata MIME type has the maximum length of 255 bytes','the length computation overflows its byte and decoding panics')
S('c06-error-code-ranges','C06',[('frame/codec/error.rs',
'''        | ErrorFrame::CONNECTION_ERROR
        | ErrorFrame::CONNECTION_CLOSE => {''','''        // every connection-level code
        | 0x00000100..=0x000001FF => {''')],
AL+'''
fn main() {
    for code in [0x100, 0x103, 0x1ff, 0x200, 0x205, 0x301] {
        let f = ErrorFrame::new(5, code, None);
        assert_eq!(Frame::decode(&mut f.to_bytes()), Ok(Frame::Error(f)), "{code:#x}");
    }
}''','an ERROR frame on a stream with an unassigned code between 0x100 and 0x1FF','it is rejected for its stream ID although only the defined codes are bound to stream 0')
S('c09-request-n-zero','C09',[('frame/codec/request_n.rs',
'''        buf.put_u32(self.request_n);''','''        // Zero is no valid demand.
        buf.put_u32(self.request_n.max(1));''')],
AL+'''
fn main() {
    let wire = Bytes::from_static(&[0, 0, 0, 3, 0x20, 0, 0, 0, 0, 0]);
    let first = Frame::decode(&mut wire.clone()).unwrap();
    let relayed = first.to_bytes();
    assert_eq!(Frame::decode(&mut relayed.clone()), Ok(first));
    assert_eq!(relayed, wire);
}''','a REQUEST_N frame with a demand of zero, which can be received but not constructed','a relay turns it into a demand of one')
S('c07-append-into-fresh-buffer','C07',[('frame/codec/error.rs',
'''        buf.put_u32(self.stream_id);
        buf.put_u16(FrameType::ERROR.bits());
        buf.put_u32(self.code);''','''        // Grow at most once.
        let len = Encode::len(self);
        if buf.capacity() - buf.len() < len {
            *buf = BytesMut::with_capacity(len);
        }
        let (id, bits) = (self.stream_id, FrameType::ERROR.bits());
        buf.put_u32(id);
        buf.put_u16(bits);
        buf.put_u32(self.code);''')],
AL+'''
fn main() {
    let f = ErrorFrame::new(1, ErrorFrame::INVALID, Some(Bytes::from(vec![7; 100])));
    let mut out = BytesMut::with_capacity(16);
    out.extend_from_slice(b"before");
    f.encode(&mut out);
    assert_eq!(&out[..6], b"before");
    assert_eq!(&out[6..], &f.to_bytes()[..]);
}''','an ERROR frame appended to a non-empty output buffer whose spare capacity is too small','the bytes already in the buffer are dropped')
S('c11-version-packed','C11',[('frame/version.rs',
'''        let cmp_major = self.major.cmp(&other.major);
        if cmp_major != Ordering::Equal {
            return cmp_major;
        }
        self.minor.cmp(&other.minor)''','''        let packed = |v: &Version| (v.major as u32) << 8 | v.minor as u32;
        packed(self).cmp(&packed(other))''')],
AL+'''
fn main() {
    assert!(Version::new(1, 0) < Version::new(1, 1));
    assert!(Version::new(2, 0) > Version::new(1, 700));
    assert!(Version::new(2, 0).cmp(&Version::new(1, 256)).is_gt());
}''','versions whose minor number is 256 or more','the order is no longer by major number first, and disagrees with equality')
S('c12-interval-clamped','C12',[('frame/codec/setup.rs',
'''        self.keepalive_timeout = timeout & MAX_U31;''','''        // A lifetime below the interval could never be met.
        let timeout = timeout & MAX_U31;
        self.keepalive_interval = self.keepalive_interval.min(timeout);
        self.keepalive_timeout = timeout;''')],
AL+'''
fn main() {
    let a = SetupFrame::builder().set_keepalive_interval(500).set_keepalive_timeout(100).build();
    let b = SetupFrame::builder().set_keepalive_timeout(100).set_keepalive_interval(500).build();
    assert_eq!(a, b);
    assert_eq!(a.keepalive_interval().as_millis(), 500);
}''','a lifetime shorter than the keepalive interval, set after it','the interval is silently lowered, and the order of the builder calls matters')
S('c13-resume-ok-unmasked','C13',[('frame/codec/resume_ok.rs',
'''        last_received_client_position &= MAX_U63;
''',''),('frame/codec/resume_ok.rs','''    pub fn new(mut last_received_client_position: u64)''','''    pub fn new(last_received_client_position: u64)''')],
AL+'''
fn main() {
    let f = ResumeOkFrame::new(1 << 63 | 5);
    assert_eq!(f.last_received_server_position(), 5);
    assert_eq!(f.to_bytes()[6], 0);
}''','a position above 2^63-1 in a build without debug assertions','the reserved bit of the 63-bit field reaches the wire', cmd='run -q --offline --release')
S('c14-lease-ttl-float','C14',[('frame/codec/lease.rs',
'''        Duration::from_millis(self.ttl as u64)''','''        Duration::from_secs_f32(self.ttl as f32 / 1_000.0)''')],
AL+'''
fn main() {
    for ms in [0u32, 1, 1000, 16_777_217, 0x7fff_ffff] {
        assert_eq!(LeaseFrame::new(ms, 1, None).ttl().as_millis(), ms as u128);
    }
}''','a time-to-live that a 32-bit float cannot represent exactly','the time-to-live is reported rounded')
S('c01-bare-next','C01',[('frame/codec/payload.rs',
'''        buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());''','''        // There is no next item without a payload.
        let mut flags = self.flags;
        if flags.contains(Flags::COMPLETE) && Payload::is_empty(&self.payload) {
            flags.remove(Flags::NEXT);
        }
        buf.put_u16(FrameType::PAYLOAD.bits() | flags.bits());''')],
AL+'''
fn main() {
    for flags in [Flags::NEXT | Flags::COMPLETE, Flags::NEXT, Flags::COMPLETE] {
        let f = PayloadFrame::new(3, flags, Payload::builder().build());
        assert_eq!(Frame::decode(&mut f.to_bytes()), Ok(Frame::Payload(f)));
    }
}''','a PAYLOAD frame with NEXT and COMPLETE whose payload is empty','the NEXT bit is lost on the wire: an empty last item of a stream disappears')
S('c02-resume-token-length-order','C02',[('frame/codec/resume.rs',
'''        buf.put_u16(self.resume_token.len() as u16);''','''        buf.put_u16_le(self.resume_token.len() as u16);'''),('frame/codec/resume.rs',
'''        let token_len = eat_u16(buf)?;''','''        let token_len = eat_u16(buf)?.swap_bytes();''')],
AL+'''
fn main() {
    let f = ResumeFrame::new(Version::default(), Bytes::from("token"), 1, 2);
    assert_eq!(Frame::decode(&mut f.to_bytes()), Ok(Frame::Resume(f.clone())));
    assert_eq!(&f.to_bytes()[10..12], &[0, 5]);
}''','encoder and decoder agree with each other, so only a comparison with the protocol shows it','the token length of RESUME frames is little-endian on the wire')
S('c03-reserved-bit-saturates','C03',[('frame/visit.rs',
'''    Ok(buf.get_u32() & MAX_U31)''','''    Ok(buf.get_u32().min(MAX_U31))''')],
AL+'''
fn main() {
    let wire = Bytes::from_static(&[0, 0, 0, 3, 0x20, 0, 0x80, 0, 0, 5]);
    assert_eq!(Frame::decode(&mut wire.clone()), Ok(Frame::RequestN(RequestNFrame::new(3, 5))));
}''','a peer that sets the reserved high bit of a 31-bit field','the reserved bit turns the value into the maximum instead of being ignored')
S('p01-byte-order-mark','P01',[('payload.rs',
'''        if let Some(ref data) = self.data {
            std::str::from_utf8(data)
''','''        if let Some(ref data) = self.data {
            let text = std::str::from_utf8(data)?;
            Ok(text.strip_prefix('\\u{feff}').unwrap_or(text))
''')],
AL+'''
fn main() {
    let p = Payload::builder().set_data("\\u{feff}text").set_metadata("\\u{feff}text").build();
    assert_eq!(p.metadata_utf8().unwrap().as_bytes(), &p.metadata().unwrap()[..]);
    assert_eq!(p.data_utf8().unwrap().as_bytes(), &p.data().unwrap()[..]);
}''','data that begins with a byte order mark','the textual view differs from the bytes of the payload')
S('p02-merge-last-byte','P02',[('payload.rs',
'''            let len = m.remaining();
            if self.chunk_size < len {''','''            let len = m.remaining();
            // Avoid a last chunk of a single byte.
            if self.chunk_size + 1 < len {''')],
AL+'''
fn main() {
    for n in 0..40usize { for c in 1..12 {
        let p = Payload::builder().set_metadata(vec![1u8; n]).build();
        for chunk in p.chunks(c) {
            assert!(chunk.metadata().unwrap().len() <= c, "{n} bytes in chunks of {c}");
        }
    } }
}''','metadata one byte longer than a multiple of the chunk size','the last chunk is larger than the chunk size')
S('p03-empty-parts-vanish','P03',[('payload.rs',
'''        if self.metadata.is_none() && self.data.is_none() {
            return None;
        }''','''        let left = |part: &Option<Bytes>| part.as_ref().map_or(0, Bytes::len);
        if left(&self.metadata) + left(&self.data) == 0 {
            return None;
        }''')],
AL+'''
fn main() {
    for (m, d) in [(Some(""), None), (None, Some("")), (Some(""), Some("")), (Some("a"), Some(""))] {
        let mut b = Payload::builder();
        if let Some(m) = m { b = b.set_metadata(m); }
        if let Some(d) = d { b = b.set_data(d); }
        let it = b.build().chunks(3);
        let announced = it.len();
        assert_eq!(it.count(), announced, "{m:?} {d:?}");
    }
}''','a payload whose parts are present but empty','the one announced chunk is never delivered')
S('p04-incomplete-fragment-skipped','P04',[('connection/buf.rs',
'''            let (m, d) = match Frame::decode(&mut v)? {
                Frame::RequestResponse''','''            let frame = match Frame::decode(&mut v) {
                // The rest of it has not arrived.
                Err(DecodeError::InComplete) => return Ok(()),
                frame => frame?,
            };
            let (m, d) = match frame {
                Frame::RequestResponse''')],
AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let a = PayloadFrame::new(1, Flags::NEXT | Flags::FOLLOWS, Payload::builder().set_data("one").build()).to_bytes();
    let b = PayloadFrame::new(1, Flags::NEXT, Payload::builder().set_metadata("m").set_data("two").build()).to_bytes();
    let mut l = FragmentBuffer::new();
    l.push(a.clone()); l.push(b.clone());
    assert_eq!(l.into_payload().unwrap().data().unwrap(), "onetwo");
    let mut l = FragmentBuffer::new();
    l.push(a); l.push(b.slice(..9));
    assert_eq!(l.into_payload(), Err(DecodeError::InComplete));
}''','a collected fragment that is cut short','reassembly silently drops it and returns a shortened payload instead of the error', hooks=True)
S('p05-drained-then-pushed','P05',[('connection/buf.rs',
'''        while cnt > 0 {
            let front = &mut self.bufs[0];
            let rem = front.remaining();
            if rem > cnt {''','''        while cnt > 0 {
            let last = self.bufs.len() == 1;
            let front = &mut self.bufs[0];
            let rem = front.remaining();
            // The last buffer is kept.
            if rem > cnt || last && rem == cnt {''')],
AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let mut l = FragmentBuffer::new();
    for s in ["abc", "de"] { l.push(Bytes::from(s)); }
    l.advance(5);
    assert_eq!(l.remaining(), 0);
    l.push(Bytes::from("fghi"));
    assert_eq!(l.remaining(), 4);
    assert!(!l.chunk().is_empty());
}''','advancing to the very end, and then pushing another segment','a used-up segment stays in front, so the current chunk is empty although bytes remain', hooks=True)
S('s01-bounded-search','S01',[('connection/stream_id.rs',
'''        let mut sid;
        loop {
''','''        let mut sid = 0;
        // A long search would mean that the streams are exhausted.
        for _ in 0..6 {
''')],
'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
fn main() {
    let used: DashMap<u32, ()> = DashMap::new();
    for i in 0..9 { used.insert(3 + 2 * i, ()); }
    let p = StreamIdProvider::new_for_client();
    let got: Vec<u32> = (0..3).map(|_| p.next_stream_id(&used)).collect();
    assert_eq!(got, [1, 21, 23]);
}''','six or more consecutive stream IDs in use','an ID in use is issued')
S('s02-wrap-by-store','S02',[('connection/stream_id.rs',
'''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            let current =
                self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK;
            sid = current as u32;
            if current >= STREAM_ID_MASK - 1 {
                // Start over, so that the counter never becomes negative.
                self.0.store(2 - current % 2, Ordering::Relaxed);
            }
''')],
'''
#![allow(unexpected_cfgs)]
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use std::collections::HashSet;
use std::sync::{Arc, Barrier};
fn main() {
    let used: Arc<DashMap<u32, ()>> = Arc::new(DashMap::new());
    let end = std::time::Instant::now() + std::time::Duration::from_secs(30);
    while std::time::Instant::now() < end {
        let p = Arc::new(StreamIdProvider::verif_starting_at(i32::MAX - 40));
        let gate = Arc::new(Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|_| { let (p, u, g) = (p.clone(), used.clone(), gate.clone());
            std::thread::spawn(move || { g.wait(); (0..20).map(|_| p.next_stream_id(&u)).collect::<Vec<_>>() }) }).collect();
        let mut seen = HashSet::new();
        for t in ts { for id in t.join().unwrap() { assert!(seen.insert(id), "{id} issued twice"); } }
    }
}''','another thread allocating an ID between the two steps of the wrap-around','the provider starts over twice and the first IDs after the wrap are issued twice', hooks=True)
S('s03-stale-count','S03',[('connection/counter.rs',
'''        self.0.fetch_sub(1, Ordering::SeqCst)''','''        let count = self.0.load(Ordering::SeqCst);
        if self
            .0
            .compare_exchange(
                count,
                count - 1,
                Ordering::SeqCst,
                Ordering::SeqCst,
            )
            .is_err()
        {
            // Someone else was faster.
            self.0.fetch_sub(1, Ordering::SeqCst);
        }
        count''')],
'''
use binate::connection::RequestCounter;
use std::collections::HashSet;
use std::sync::{Arc, Barrier};
fn main() {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    while std::time::Instant::now() < end {
        let c = Arc::new(RequestCounter::new(40_000));
        let gate = Arc::new(Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|_| { let (c, g) = (c.clone(), gate.clone());
            std::thread::spawn(move || { g.wait(); (0..10_000).map(|_| c.dec()).collect::<Vec<_>>() }) }).collect();
        let mut seen = HashSet::new();
        for t in ts { for n in t.join().unwrap() { assert!(seen.insert(n), "two callers took permit {n}"); } }
        assert_eq!(c.load(), 0);
    }
}''','two threads taking a permit at the same moment','the slower one is told a count that was not the one just before its permit was taken')
S('s04-new-modulo','S04',[('connection/counter.rs',
'''        RequestCounter(AtomicI32::new((n & COUNTER_MASK) as i32))''','''        RequestCounter(AtomicI32::new((n % COUNTER_MASK) as i32))''')],
'''
use binate::connection::RequestCounter;
fn main() {
    for n in [0, 1, 5, 0x7FFF_FFFE, 0x7FFF_FFFF] {
        assert_eq!(RequestCounter::new(n).load() as u32, n);
    }
}''','a counter created with the maximum of 2^31-1 permits (unbounded demand)','it starts with no permits at all')
MA='''#![allow(unused_imports)]
//SUPPORT
use support::*;
use binate::connection::verif::Machine;
use binate::connection::*;
use binate::frame::codec::*;
use binate::frame::*;
use binate::*;
use bytes::Bytes;
use std::time::Duration;
'''
S('r01-follows-by-size','R01',[('connection/socket.rs',
'''                let follows = idx + 1 != chunks_len;
''','''                // A full chunk is followed by another one.
                let follows = idx + 1 != chunks_len
                    || Payload::len(&chunked) == 2 * chunk_size;
''')],
MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(8));
        for (x, y) in [(20, 3), (5, 16), (16, 16), (0, 24), (24, 8)] {
            let p = Payload::builder().set_metadata(vec![1u8; x]).set_data(vec![2u8; y]).build();
            m.requester().fire_and_forget(p).unwrap();
            match c.take().last() {
                Some(Frame::RequestFnf(f)) => assert!(!f.is_follows(), "{x} {y}"),
                f => panic!("{f:?}"),
            }
        }
    });
}''','metadata and data whose last chunks both have exactly the chunk size','the last fragment claims to be followed by more, so the receiver waits forever', hooks=True)
S('r02-last-refusal-ignored','R02',[('connection/socket.rs',
'''                self.connection.send_and_forget(frame)?;
            }
''','''                let sent = self.connection.send_and_forget(frame);
                if follows {
                    sent?;
                }
            }
''')],
MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|f| match f {
            Frame::RequestFnf(f) if !f.is_follows() => Err(Error::verif_protocol(Code::Rejected, None)),
            _ => Ok(()),
        });
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(4));
        let p = Payload::builder().set_data("0123456789").build();
        assert!(m.requester().fire_and_forget(p).is_err());
        assert_eq!(c.take().len(), 3);
    });
}''','the connection refusing exactly the last fragment of a fragmented request','the call reports success', hooks=True)
S('r03-clone-forks-ids','R03',[('connection/socket.rs',
'''#[derive(Clone)]
pub(crate) struct RSocketMachine {''','''pub(crate) struct RSocketMachine {'''),
('connection/socket.rs','''impl RSocketMachine {
    pub(crate) async fn new(''','''impl Clone for RSocketMachine {
    fn clone(&self) -> Self {
        RSocketMachine {
            role: self.role,
            // Requesters do not contend for the same counter.
            stream_id: Arc::new(self.stream_id.fork()),
            connection: self.connection.clone(),
            request_handler: self.request_handler.clone(),
            receivers: self.receivers.clone(),
            subscriptions: self.subscriptions.clone(),
            request_n: self.request_n.clone(),
            chunk_payload: self.chunk_payload,
            keepalive_timeout: self.keepalive_timeout,
            keepalive_last_received: self.keepalive_last_received,
        }
    }
}

impl RSocketMachine {
    pub(crate) async fn new('''),
('connection/stream_id.rs','''    // for testing only
    fn _new(''','''    /// Creates a provider that continues where this one is.
    pub(crate) fn fork(&self) -> StreamIdProvider {
        Self::_new(self.0.load(Ordering::Relaxed))
    }

    fn _new(''')],
MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let n = m.clone();
        for i in 0..4 {
            let p = Payload::builder().set_data(vec![i]).build();
            (if i % 2 == 0 { &m } else { &n }).requester().fire_and_forget(p).unwrap();
        }
        let mut ids: Vec<u32> = c.take().iter().map(|f| match f { Frame::RequestFnf(f) => f.stream_id(), _ => 0 }).collect();
        ids.sort();
        ids.dedup();
        assert_eq!(ids.len(), 4);
    });
}''','requests through two clones of one socket','both clones issue the same stream IDs', hooks=True)
S('r04-empty-push-skipped','R04',[('connection/socket.rs',
'''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
''','''        let frame = match metadata.len() {
            // Nothing to tell.
            0 => return Box::pin(async { Ok(()) }),
            _ => Frame::MetadataPush(MetadataPushFrame::new(metadata)),
        };
''')],
MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.requester().metadata_push(Bytes::from("x")).await.unwrap();
        m.requester().metadata_push(Bytes::new()).await.unwrap();
        assert_eq!(c.take().len(), 2);
    });
}''','a metadata push of zero bytes','no frame is sent, and success is reported even on a connection that refuses frames', hooks=True)
S('r05-whole-seconds','R05',[('connection/socket.rs',
'''                if now - cloned_rsm.keepalive_last_received
                    > cloned_rsm.keepalive_timeout
                {''','''                let silent = now - cloned_rsm.keepalive_last_received;
                if silent > cloned_rsm.keepalive_timeout
                    && silent.as_secs() > 0
                {''')],
MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        for ms in [20u64, 333, 1500] {
            let c = Rec::new();
            let t0 = tokio::time::Instant::now();
            let _m = Machine::new(false, c.clone(), Duration::from_millis(ms)).await;
            tokio::time::sleep(Duration::from_millis(20 * ms + 5000)).await;
            let closes = c.closes.lock().unwrap().clone();
            assert_eq!(closes.len(), 1);
            assert!(closes[0] - t0 <= Duration::from_millis(2 * ms + 2), "{ms} ms: {:?}", closes[0] - t0);
        }
    });
}''','a keepalive timeout below half a second','the silent peer is noticed only after a whole second, many timeouts late', hooks=True)
S('r06-repeated-status','R06',[('connection/socket.rs',
'''                    ConnectionStatus::Error(err) => {
                        cloned_rsm.handle_error(&err);
                    }''','''                    // The current status may be published again.
                    ConnectionStatus::Error(err) if err != last => {
                        cloned_rsm.handle_error(&err);
                        last = err;
                    }'''),('connection/socket.rs',
'''        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            let mut statuses''','''        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            let mut last = String::new();
            let mut statuses''')],
MA+'''
fn main() {
    let rt = runtime();
    let seen = Errors::default();
    tracing::subscriber::set_global_default(seen.clone()).unwrap();
    rt.block_on(async {
        let c = Rec::new();
        *c.statuses.lock().unwrap() = vec![
            ConnectionStatus::Connected,
            ConnectionStatus::Error("reset".into()),
            ConnectionStatus::Error("reset".into()),
            ConnectionStatus::Closed,
        ];
        let _m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert_eq!(seen.0.load(std::sync::atomic::Ordering::SeqCst), 3);
    });
}''','two consecutive failures with the same message','the second failure is not reported', hooks=True)
S('e01-unexpected-eof','E01',[('error.rs',
'''        Error::new(Kind::Io, Some(e))''','''        match e.kind() {
            // The frame ended early.
            io::ErrorKind::UnexpectedEof => DecodeError::InComplete.into(),
            _ => Error::new(Kind::Io, Some(e)),
        }''')],
'''
use std::error::Error as _;
use std::io;
fn main() {
    for kind in [io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData] {
        let e = binate::Error::from(io::Error::new(kind, "why"));
        assert!(!e.is_decode(), "{kind:?}");
        assert!(e.source().unwrap().downcast_ref::<io::Error>().is_some());
        assert!(e.to_string().ends_with("why"));
    }
}''','an I/O error of the kind UnexpectedEof','it claims to be a decoding error and its cause is lost')
S('m01-parameters','M01',[('mimetype.rs',
'''        match v {
            "application/avro"''','''        // Parameters do not matter.
        match v.split(';').next().unwrap_or(v) {
            "application/avro"''')],
'''
use binate::mimetype::WellKnownMimeType as W;
fn main() {
    assert_eq!(W::from("text/plain"), W::TEXT_PLAIN);
    for s in ["text/plain;charset=utf-8", "text/plain;", "text/plain ", "x"] {
        assert_eq!(W::from(s), W::UNPARSEABLE, "{s}");
    }
}''','a well-known name followed by a semicolon','it converts to the well-known type, although it is another string and the parameter is lost')
S('u01-overread','U01',[('frame/visit.rs',
'''    Ok(buf.get_u8())''','''    // One aligned-size load is cheaper than a byte load.
    let word = unsafe {
        (buf.chunk().as_ptr() as *const [u8; 4]).read_unaligned()
    };
    buf.advance(1);
    Ok(word[0])''')],
AL+'''
fn main() {
    let f = SetupFrame::builder().set_metadata_mimetype("m").set_data_mimetype("").build();
    let b = f.to_bytes();
    let exact = Bytes::from(b.to_vec());
    assert_eq!(Frame::decode(&mut exact.clone()), Ok(Frame::Setup(f)));
}''','a frame whose last byte is a one-byte length field, at the end of its allocation','up to three bytes behind the buffer are read; the result is right, only a sanitizer sees it', tool='nightly', cmd='miri run -q')
