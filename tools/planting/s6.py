from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

# --- closing
S('r08-only-once','R08',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    closed: Arc<std::sync::atomic::AtomicBool>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            closed: Arc::default(),
'''),('connection/socket.rs','''    pub fn close(&mut self) {
        self.connection.close()
''','''    pub fn close(&mut self) {
        // Only the first call matters.
        if !self.closed.swap(true, std::sync::atomic::Ordering::AcqRel) {
            self.connection.close()
        }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        let mut n = m.clone();
        m.close();
        assert_eq!(c.closes.lock().unwrap().len(), 1);
        // Meanwhile, the connection was opened again.
        n.close();
        assert_eq!(c.closes.lock().unwrap().len(), 2);
    });
}''','a second call of close, maybe on a clone','it does not reach the connection',hooks=True)
S('r08-error-twice','R08',[('connection/socket.rs','''            let mut statuses = cloned_rsm.connection.connection_status();
            while let Some(status) = statuses.next().await {
''','''            let mut statuses = cloned_rsm.connection.connection_status();
            let mut last = None;
            while let Some(status) = statuses.next().await {
                // It will not recover.
                if last.replace(status.clone()).as_ref() == Some(&status)
                    && matches!(status, ConnectionStatus::Error(_))
                {
                    cloned_rsm.handle_connection_error(&"connection is broken");
                    continue;
                }
'''),('connection/socket.rs','''        self.handle_error(error);
        self.connection.close();''','''        self.connection.close();
        self.handle_error(error);''')],MA+'''
use binate::connection::ConnectionStatus;
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        for _ in 0..2 {
            c.statuses.lock().unwrap().push(ConnectionStatus::Error("reset".into()));
        }
        let _m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert_eq!(c.closes.lock().unwrap().len(), 0);
    });
}''','the same failure published twice in a row','the socket closes the connection',hooks=True)
S('r08-silent-after','R08',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    closed: Arc<std::sync::atomic::AtomicBool>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            closed: Arc::default(),
'''),('connection/socket.rs','''    pub fn close(&mut self) {
        self.connection.close()
''','''    pub fn close(&mut self) {
        self.closed.store(true, std::sync::atomic::Ordering::Release);
        self.connection.close();
'''),('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;
''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            // Nobody would get it.
            if self.closed.load(std::sync::atomic::Ordering::Acquire) {
                return Ok(());
            }
            self.connection.send_and_forget(frame)?;
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(std::io::Error::other("closed").into()));
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.close();
        assert!(m.requester().fire_and_forget(Payload::builder().set_data("x").build()).is_err());
    });
}''','a request after a call of close','it is dropped silently',hooks=True)
S('r08-refused-often','R08',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    refused: Arc<std::sync::atomic::AtomicUsize>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            refused: Arc::default(),
'''),('connection/socket.rs','''                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;
''','''                stream_id, false, payload,
            ));
            use std::sync::atomic::Ordering::Relaxed;
            match self.connection.send_and_forget(frame) {
                Ok(()) => self.refused.store(0, Relaxed),
                Err(e) => {
                    // Makes the transport notice.
                    if self.refused.fetch_add(1, Relaxed) == 2 {
                        self.connection.close();
                    }
                    return Err(e);
                }
            }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(std::io::Error::other("full").into()));
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        for _ in 0..3 {
            assert!(m.requester().fire_and_forget(Payload::builder().set_data("x").build()).is_err());
        }
        assert_eq!(c.closes.lock().unwrap().len(), 0);
    });
}''','three refused requests in a row','the connection is closed',hooks=True)
# --- frames
S('c01-lossy-error','C01',[('frame/codec/error.rs','''        buf.put_u32(self.code);
        if let Some(bytes) = &self.data {
            buf.put_slice(bytes);''','''        buf.put_u32(self.code);
        if let Some(bytes) = &self.data {
            // Error data is text; a character cut in half is left out.
            let whole = match std::str::from_utf8(bytes) {
                Err(e) if e.error_len().is_none() => e.valid_up_to(),
                _ => bytes.len(),
            };
            buf.put_slice(&bytes[..whole]);'''),('frame/codec/error.rs','''        if let Some(bytes) = &self.data {
            len += bytes.len()
        }
''','''        if let Some(bytes) = &self.data {
            len += match std::str::from_utf8(bytes) {
                Err(e) if e.error_len().is_none() => e.valid_up_to(),
                _ => bytes.len(),
            }
        }
''')],AL+'''
fn main() {
    let f = ErrorFrame::new(1, ErrorFrame::INVALID, Some(Bytes::from_static(b"caf\\xC3")));
    assert_eq!(Frame::decode(&mut f.to_bytes()), Ok(Frame::Error(f)));
}''','error data that end in the middle of a UTF-8 sequence','its last bytes are not written')
S('c04-gives-up','C04',[('frame/mod.rs','''        let (frame_type, flags) = eat_flags(buf)?;
        match frame_type {''','''        thread_local! {
            static GARBAGE: std::cell::Cell<u32> = Default::default();
        }
        // A peer that sends only garbage is not worth the work.
        let (frame_type, flags) = match eat_flags(buf) {
            Err(e) => {
                GARBAGE.with(|g| g.set(g.get() + 1));
                return Err(e);
            }
            Ok(_) if GARBAGE.with(|g| g.get() >= 1000) => {
                GARBAGE.with(|g| g.set(0));
                return Err(DecodeError::InComplete);
            }
            Ok(v) => v,
        };
        match frame_type {''')],AL+'''
fn main() {
    let f = CancelFrame::new(7).to_bytes();
    for n in 0..2000 {
        let _ = Frame::decode(&mut &[0, 0, 0, 1, 0xBC, 0][..]);
        assert!(Frame::decode(&mut f.clone()).is_ok(), "after {n}");
        if n > 1000 {
            continue;
        }
        let _ = Frame::decode(&mut &[0, 0, 0, 1, 0xBC, 0][..]);
    }
}''','a thousand frames of unknown type decoded on one thread','the next valid frame is rejected')
S('c12-shorter-mimetype','C12',[('frame/codec/setup.rs','''        let mimetype: String = mimetype.into();
        assert!(mimetype.len() <= 255);
        self.data_mimetype = Bytes::from(mimetype);''','''        let mimetype: String = mimetype.into();
        assert!(mimetype.len() <= 255);
        // Often it is the same for both, and can be shared.
        self.data_mimetype = if self.metadata_mimetype.starts_with(mimetype.as_bytes()) {
            self.metadata_mimetype.clone()
        } else {
            Bytes::from(mimetype)
        };''')],AL+'''
fn main() {
    let f = SetupFrame::builder().set_metadata_mimetype("text/plain+x").set_data_mimetype("text/plain").build();
    assert_eq!(f.data_mimetype(), Some("text/plain"));
}''','a data MIME type that is a prefix of the metadata MIME type set before','it is replaced by the metadata MIME type')
S('c14-text-blocks','C14',[('frame/codec/error.rs','''        self.data.as_ref().map(|data| std::str::from_utf8(data).ok()).flatten()''','''        let data = self.data.as_ref()?;
        // Checks long text block by block, to stop early.
        for block in data.chunks(4096) {
            if let Err(e) = std::str::from_utf8(block) {
                if e.error_len().is_some() || data.len() <= 4096 {
                    return None;
                }
            }
        }
        // A character may lie across blocks, hence not only the above.
        std::str::from_utf8(data).ok()''')],AL+'''
fn main() {
    let mut text = "x".repeat(4095);
    text.push('é');
    let f = ErrorFrame::new(1, ErrorFrame::INVALID, Some(Bytes::from(text.clone())));
    assert_eq!(f.data_utf8(), Some(&text[..]));
}''','error text of more than 4096 bytes with a character across a multiple of 4096','the text is not shown')
S('c15-found-ignored','C15',[('frame/decode.rs','''#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum DecodeError {''','''#[derive(Debug, Clone, Eq)]
#[non_exhaustive]
pub enum DecodeError {'''),('frame/decode.rs','''impl StdError for DecodeError {}''','''impl PartialEq for DecodeError {
    fn eq(&self, other: &Self) -> bool {
        use DecodeError::*;
        match (self, other) {
            (InComplete, InComplete) => true,
            (UnrecognizedFrameType(a), UnrecognizedFrameType(b)) => a == b,
            (
                InvalidStreamId { expected: a, found: x },
                InvalidStreamId { expected: b, found: y },
            ) => a.len() == b.len() && (*x == 0) == (*y == 0),
            _ => false,
        }
    }
}

impl StdError for DecodeError {}''')],AL+'''
fn main() {
    let e = |found| DecodeError::InvalidStreamId { expected: "0", found };
    assert_eq!(e(1), e(1));
    assert_ne!(e(1), e(2));
}''','two errors that name different stream IDs','they compare equal')
S('c08-split-half','C08',[('frame/visit.rs','''    incomplete_if_less_than!(buf, 4);

    Ok(buf.get_u32() & MAX_U31)''','''    incomplete_if_less_than!(buf, 4);

    let val = if buf.chunk().len() == 2 {
        // Two halves are cheaper than four single bytes.
        let high = buf.get_u16() as u32;
        high << 16 | buf.get_u16_le() as u32
    } else {
        buf.get_u32()
    };
    Ok(val & MAX_U31)''')],AL+'''
fn main() {
    let f = RequestNFrame::new(1, 0x01020304);
    let b = f.to_bytes();
    let mut buf = b.slice(..8).chain(b.slice(8..));
    assert_eq!(Frame::decode(&mut buf), Ok(Frame::RequestN(f)));
}''','a 31-bit field of which two bytes lie in one segment and two in the next','the second half is read with its bytes swapped')
S('c13-n-minus','C13',[('frame/codec/request_stream.rs','''initial_request_n & MAX_U31''','''initial_request_n.min(MAX_U31)''')],AL+'''
fn main() {
    // Without debug assertions, the excess bit is dropped.
    if cfg!(debug_assertions) {
        return;
    }
    let f = RequestStreamFrame::new(1, false, 0x8000_0005, Payload::builder().build());
    assert_eq!(f.initial_request_n(), 5);
}''','a request count above 2^31-1 in a build without debug assertions','it becomes the maximum instead of losing the excess bit')
S('c09-relay-next','C09',[('frame/codec/payload.rs','''        let payload = eat_payload(buf, flags)?;
        Ok(PayloadFrame { stream_id, flags, payload })''','''        let payload = eat_payload(buf, flags)?;
        // What carries nothing can only be the end.
        let flags = match payload.is_empty() && flags.is_complete() {
            true => flags - Flags::NEXT,
            false => flags,
        };
        Ok(Self { stream_id, flags, payload })''')],AL+'''
fn main() {
    let f = PayloadFrame::new(1, Flags::NEXT | Flags::COMPLETE, Payload::builder().build());
    let b = f.to_bytes();
    assert_eq!(Frame::decode(&mut b.clone()).unwrap().to_bytes(), b);
}''','an empty PAYLOAD frame with both NEXT and COMPLETE set','the NEXT bit is lost')
# --- payloads
S('p01-text-blocks','P01',[('payload.rs','''        if let Some(ref metadata) = self.metadata {
            std::str::from_utf8(metadata)
        } else {''','''        if let Some(metadata) = &self.metadata {
            // Plain ASCII, word by word, needs no decoder.
            let (words, rest) = metadata.as_chunks::<16>();
            if words.iter().fold(0, |a, w| a | u128::from_ne_bytes(*w))
                & 0x80808080_80808080_80808080_80808080
                == 0
                && rest.iter().take(15).fold(0, |a, b| a & b) < 0x80
                && !words.is_empty()
            {
                return Ok(unsafe { std::str::from_utf8_unchecked(metadata) });
            }
            std::str::from_utf8(metadata)
        } else {''')],AL+'''
fn main() {
    let mut v = vec![b'x'; 16];
    v.push(0xFF);
    let p = Payload::builder().set_metadata(v).build();
    assert!(p.metadata_utf8().is_err());
}''','metadata of more than 16 bytes whose first blocks are ASCII and whose rest is no UTF-8','they are returned as text')
S('p04-count16','P04',[('connection/buf.rs','''        self.bufs.into_iter().try_for_each(|mut v| {''','''        // The first fragment says what kind of request it is.
        let count = self.bufs.len() as u16;
        let first = if count == 0 { 0 } else { self.bufs.len() - self.bufs.len() };
        let keep = self.bufs.len().min(count as usize + first).max(count as usize);
        self.bufs.into_iter().take(keep).try_for_each(|mut v| {''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let mut l = FragmentBuffer::new();
    for _ in 0..70_000 {
        l.push(PayloadFrame::new(7, Flags::NEXT | Flags::FOLLOWS, Payload::builder().set_data("x").build()).to_bytes());
    }
    assert_eq!(l.into_payload().unwrap().len(), 70_000);
}''','a request of more than 65,535 fragments','all but the rest modulo 65,536 are dropped',hooks=True)
S('p02-aligned','P02',[('payload.rs','''            let len = d.remaining();
            if self.chunk_size < len {
                data = Some(d.split_to(self.chunk_size));''','''            let len = d.remaining();
            // Does not leave a chunk for a few bytes only.
            let slack = self.chunk_size / 1024;
            if self.chunk_size + slack < len {
                data = Some(d.split_to(self.chunk_size));''')],AL+'''
fn main() {
    let p = Payload::builder().set_data(vec![1; 2049]).build();
    assert!(p.chunks(2048).all(|c| c.data().map_or(0, |d| d.len()) <= 2048));
}''','a chunk size of at least 1024 and data that exceed a multiple of it by less than a thousandth','the last chunk is too long')
S('p03-fold','P03',[('payload.rs','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }''','''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }

    /// The last chunk is at the end of both parts.
    fn last(self) -> Option<Payload> {
        let size = self.chunk_size;
        let tail = |part: Option<Bytes>| {
            part.map(|b| {
                let n = b.len() - b.len() % size;
                b.slice(if n == b.len() { n.saturating_sub(size) } else { n }..)
            })
        };
        let n = |part: &Option<Bytes>| part.as_ref().map_or(0, |b| b.len().div_ceil(size));
        let (m, d) = (n(&self.metadata), n(&self.data));
        let (metadata, data) = (tail(self.metadata), tail(self.data));
        match (metadata, data) {
            (None, None) => None,
            (metadata, data) => Some(Payload::new(
                metadata.filter(|_| m >= d),
                data.filter(|_| d >= m),
            )),
        }
    }'''),('payload.rs','''        let (metadata, data) = self.split();
        PayloadChunks { chunk_size, metadata, data }''','''        let (metadata, data) = (self.metadata, self.data);
        PayloadChunks { chunk_size, metadata, data }''')],AL+'''
fn main() {
    let p = || Payload::builder().set_metadata("").set_data("x").build().chunks(4);
    let mut it = p();
    let mut end = None;
    while let Some(c) = it.next() {
        end = Some(c);
    }
    assert_eq!(p().last(), end);
}''','last() of chunks of which one part is empty','the empty part is missing in it')
# --- counters and IDs
S('s04-refuses','S04',[('connection/counter.rs','''                Some(count.saturating_add(n))
''','''                // What would not fit is no valid amount.
                count.checked_add(n).or(Some(count))
'''),('connection/counter.rs','''        RequestCounter(AtomicI32::new((n & COUNTER_MASK) as i32))''','''        RequestCounter(AtomicI32::new((COUNTER_MASK & n) as i32))''')],AL+'''
fn main() {
    let c = binate::connection::RequestCounter::new(10);
    c.add(0x7FFF_FFFF);
    assert_eq!(c.load(), 0x7FFF_FFFF);
}''','permits added beyond the maximum','none are added')
S('s02-fallback','S02',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            let mut cur = self.0.load(Ordering::Relaxed);
            let mut tries = 0;
            // After some failures the others have gone ahead.
            while let Err(now) = self.0.compare_exchange(
                cur,
                cur.wrapping_add(2),
                Ordering::Relaxed,
                Ordering::Relaxed,
            ) {
                tries += 1;
                cur = now;
                if tries == 5 {
                    self.0.store(now.wrapping_add(2), Ordering::Relaxed);
                    break;
                }
            }
            sid = (cur & STREAM_ID_MASK) as u32;
''')],AL+'''
use binate::connection::StreamIdProvider;
fn main() {
    let begin = std::time::Instant::now();
    while begin.elapsed().as_secs() < 60 {
        let p = StreamIdProvider::new_for_client();
        let store: dashmap::DashMap<u32, ()> = Default::default();
        let mut all: Vec<u32> = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..8).map(|_| s.spawn(|| (0..20_000).map(|_| p.next_stream_id(&store)).collect::<Vec<_>>())).collect();
            for h in hs {
                all.extend(h.join().unwrap());
            }
        });
        let n = all.len();
        all.sort_unstable();
        all.dedup();
        assert_eq!(all.len(), n);
    }
}''','five failed attempts in a row of one thread, and another thread in between','an ID is given out twice')
# --- sockets
S('r05-32-bit-ms','R05',[('connection/socket.rs','''                tokio::time::sleep(cloned_rsm.keepalive_timeout).await;
                let now = Instant::now();
                if now - cloned_rsm.keepalive_last_received
                    > cloned_rsm.keepalive_timeout
                {''','''                // In milliseconds, like the protocol.
                let timeout = cloned_rsm.keepalive_timeout;
                let wait = Duration::from_millis(timeout.as_millis() as u32 as u64)
                    + Duration::from_nanos(timeout.subsec_nanos() as u64 % 1_000_000);
                tokio::time::sleep(wait).await;
                let now = Instant::now();
                if now - cloned_rsm.keepalive_last_received > wait {''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let day = Duration::from_secs(24 * 3600);
        let _m = Machine::new(false, c.clone(), 50 * day).await;
        tokio::time::sleep(49 * day).await;
        assert_eq!(c.closes.lock().unwrap().len(), 0);
    });
}''','a keepalive timeout of more than 49.7 days','the connection is closed too early',hooks=True)
S('r06-long-message','R06',[('connection/socket.rs','''                    ConnectionStatus::Error(err) => {
                        cloned_rsm.handle_error(&err);
                    }''','''                    ConnectionStatus::Error(err) => {
                        let mut text = err.to_string();
                        // Keeps the log readable.
                        if let Some((at, _)) = text.char_indices().nth(2000) {
                            text.truncate(at);
                        }
                        cloned_rsm.handle_error(&text);
                    }''')],open('/tmp/pl/s5.py').read().split("S('r06-first-line'")[1].split("''')],MA+'''")[1].split("'''")[0].join(['','']) if False else MA+'''
#[derive(Clone, Default)]
struct Text(std::sync::Arc<std::sync::Mutex<String>>);
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        self.0.lock().unwrap().push_str(&format!("{v:?}"));
    }
}
impl tracing::Subscriber for Text {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        if *e.metadata().level() == tracing::Level::ERROR && e.metadata().target().starts_with("binate") {
            e.record(&mut self.clone());
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn main() {
    let t = Text::default();
    tracing::subscriber::set_global_default(t.clone()).unwrap();
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let text = "x".repeat(3000) + "end";
        c.statuses.lock().unwrap().push(binate::connection::ConnectionStatus::Error(text.into()));
        let _m = Machine::new(false, c, Duration::from_secs(1000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert!(t.0.lock().unwrap().contains("end"));
    });
}''','an error whose message has more than 2000 characters','the rest of it is lost',hooks=True)
S('r02-rebuilt','R02',[('connection/socket.rs','''                    stream_id, follows, chunked,
                ));
                self.connection.send_and_forget(frame)?;
''','''                    stream_id, follows, chunked,
                ));
                // Says which fragment it was.
                self.connection.send_and_forget(frame).map_err(|e| {
                    let cause = std::error::Error::source(&e)
                        .and_then(|s| s.downcast_ref::<std::io::Error>());
                    match cause {
                        Some(io) if idx > 0 => std::io::Error::new(
                            io.kind(),
                            io.to_string(),
                        )
                        .into(),
                        _ => e,
                    }
                })?;
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let n = std::sync::atomic::AtomicUsize::new(0);
        let c = Rec::judging(move |_| match n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) {
            1 => Err(std::io::Error::from_raw_os_error(104).into()),
            _ => Ok(()),
        });
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(1));
        let e = m.requester().fire_and_forget(Payload::builder().set_data("abcdef").build()).unwrap_err();
        let io = std::error::Error::source(&e).unwrap().downcast_ref::<std::io::Error>().unwrap();
        assert_eq!(io.raw_os_error(), Some(104));
    });
}''','an I/O error of the operating system at the second or a later fragment','another error without its number is returned',hooks=True)
S('r04-u24','R04',[('connection/socket.rs','''        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        self.connection.send(frame)''','''        // Metadata lengths have 24 bits.
        let metadata = metadata.slice(..metadata.len().min(0xFF_FFFF));
        let frame = Frame::MetadataPush(
            MetadataPushFrame::new(metadata),
        );
        self.connection.send(frame)''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.requester().metadata_push(Bytes::from(vec![1; 1 << 24])).await.unwrap();
        assert_eq!(c.take()[0].len(), 6 + (1 << 24));
    });
}''','a push of 16 MiB or more','the rest is cut off',hooks=True)
S('m01-dotless','M01',[('mimetype.rs','''        use WellKnownMimeType::*;
        match v {''','''        use WellKnownMimeType::*;
        // Some peers send what their locale makes of it.
        let folded = if v.is_ascii() { None } else { Some(v.to_uppercase().to_lowercase()) };
        match folded.as_deref().unwrap_or(v) {''')],'''
use binate::mimetype::WellKnownMimeType;
fn main() {
    assert_eq!(WellKnownMimeType::from("appl\\u{131}cation/json"), WellKnownMimeType::UNPARSEABLE);
    assert_eq!(WellKnownMimeType::from("application/json"), WellKnownMimeType::APPLICATION_JSON);
}''','a name in which a letter is replaced by a non-ASCII one that folds to it','it is taken for the well-known type')
S('e01-decode-source','E01',[('error.rs','''        matches!(self.inner.kind, Kind::Decode(_))''','''        let decode = matches!(self.inner.kind, Kind::Decode(_));
        decode
            // Or to data that end too early.
            || self.inner.source.as_ref().is_some_and(|s| {
                s.downcast_ref::<io::Error>()
                    .is_some_and(|e| e.kind() == io::ErrorKind::InvalidData && e.get_ref().is_none())
            })''')],'''
fn main() {
    let e: binate::Error = std::io::Error::from(std::io::ErrorKind::InvalidData).into();
    assert!(!e.is_decode());
}''','an I/O error of kind InvalidData without anything inside','it is called a decoding error')
