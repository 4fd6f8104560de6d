from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

S('p02-adjacent','P02',[('payload.rs','''        let (metadata, data) = self.split();
        PayloadChunks { chunk_size, metadata, data }''','''        let (metadata, mut data) = self.split();
        if let (Some(m), Some(d)) = (&metadata, &mut data) {
            // Parts that share their storage: what is in both goes out once.
            let shared = (m.as_ptr() as usize + m.len()).saturating_sub(d.as_ptr() as usize);
            if m.as_ptr() <= d.as_ptr() && shared > 0 && shared < d.len() {
                d.advance(shared);
            }
        }
        PayloadChunks { chunk_size, metadata, data }''')],AL+'''
fn main() {
    let whole = Bytes::from(vec![7u8; 100]);
    let p = Payload::builder().set_metadata(whole.slice(..60)).set_data(whole.slice(40..)).build();
    let n: usize = p.chunks(8).map(|c| c.data().map_or(0, |b| b.len())).sum();
    assert_eq!(n, 60);
}''','metadata and data that are overlapping slices of one buffer','the overlap is lost from the data')
S('p04-adjacent','P04',[('connection/buf.rs','''            if let Some(b) = d {
                data.put(b);
            }
            Ok(())''','''            if let Some(b) = d {
                // Received in order, and so already in place.
                if last == Some(b.as_ptr() as usize) {
                    let n = b.len().min(1 << 12);
                    data.put(&b[..n]);
                    data.put(&b[n..]);
                } else if last.is_some_and(|p| p > b.as_ptr() as usize && p - (b.as_ptr() as usize) <= b.len()) {
                    // Sent again.
                    return Ok(());
                } else {
                    data.put(&b[..]);
                }
                last = Some(b.as_ptr() as usize + b.len());
            }
            Ok(())'''),('connection/buf.rs','''        let mut data = BytesMut::new();

        self.bufs''','''        let mut data = BytesMut::new();
        let mut last = None;

        self.bufs''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let mut l = FragmentBuffer::new();
    let f = PayloadFrame::new(1, Flags::NEXT | Flags::FOLLOWS, Payload::builder().set_data("abc").build()).to_bytes();
    l.push(f.clone());
    l.push(f);
    assert_eq!(l.into_payload().unwrap().data().unwrap(), "abcabc");
}''','two fragments that are handles of the same buffer','the second is taken for a repetition of the first',hooks=True)
S('c02-capacity','C02',[('payload.rs','''        if let Some(meta) = &self.metadata {
            buf.put_slice(meta);
        }
        if let Some(data) = &self.data {
            buf.put_slice(data);
        }
    }
''','''        let n = Encode::len(self);
        if buf.capacity() - buf.len() < n && n > 1 << 16 {
            // There is no room: one piece, rather than growing twice.
            let mut all = BytesMut::with_capacity(n);
            all.put_slice(self.data.as_deref().unwrap_or_default());
            all.put_slice(self.metadata.as_deref().unwrap_or_default());
            buf.unsplit(all);
            return;
        }
        if let Some(metadata) = &self.metadata {
            buf.put_slice(metadata);
        }
        if let Some(data) = &self.data {
            buf.put_slice(data);
        }
    }
''')],AL+'''
fn main() {
    let p = Payload::builder().set_metadata(vec![1u8; 40_000]).set_data(vec![2u8; 40_000]).build();
    let mut b = BytesMut::new();
    PayloadFrame::new(1, Flags::NEXT, p).encode(&mut b);
    assert_eq!(b[9], 1);
}''','a payload of more than 64 KiB encoded into a buffer that has to grow','data and metadata change places')
S('s01-many-entries','S01',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;
''','''            let next = self.0.fetch_add(2, Ordering::Relaxed);
            sid = (next & STREAM_ID_MASK) as u32;
'''),('connection/stream_id.rs','''            if sid != 0 && !store.contains_key(&sid) {
                break;
            }''','''            // With that many streams, those in use are old ones.
            if sid != 0 && (store.len() >= 1 << 13 || !store.contains_key(&sid)) {
                break;
            }''')],'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
fn main() {
    let p = StreamIdProvider::new_for_client();
    let s: DashMap<u32, ()> = (0..10_000u32).map(|k| (2 * k + 3, ())).collect();
    assert_eq!(p.next_stream_id(&s), 1);
    assert_eq!(p.next_stream_id(&s), 20_003);
}''','8,192 or more streams in use','IDs in use are issued')
S('p04-total','P04',[('connection/buf.rs','''        let data = if data.is_empty() { None } else { Some(data.freeze()) };''','''        // Nobody sends that much.
        let data = match data.len() {
            0 => None,
            n => Some(data.freeze().slice(..n.min(48 << 20))),
        };''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let mut l = FragmentBuffer::new();
    for _ in 0..4 {
        l.push(PayloadFrame::new(1, Flags::NEXT | Flags::FOLLOWS, Payload::builder().set_data(vec![1u8; 14 << 20]).build()).to_bytes());
    }
    assert_eq!(l.into_payload().unwrap().data().unwrap().len(), 56 << 20);
}''','fragments whose data adds up to more than 48 MiB','the payload is cut off there',hooks=True)
S('p01-long-utf8','P01',[('payload.rs','''        if let Some(ref data) = self.data {
            std::str::from_utf8(data)
''','''        if let Some(ref data) = self.data {
            // A text shows at its beginning; the rest is checked in pieces.
            let n = if data.len() > 1 << 17 { 1 << 16 } else { 0 };
            std::str::from_utf8(&data[..n]).and_then(|_| std::str::from_utf8(data))
''')],AL+'''
fn main() {
    let mut s = "x".repeat((1 << 16) - 1);
    s.push_str(&"\\u{e9}".repeat(1 << 16));
    let p = Payload::builder().set_data(s.clone()).build();
    assert_eq!(p.data_utf8(), Ok(&s[..]));
}''','a text of more than 128 KiB with a character across byte 65,536','it is not recognised as UTF-8')
S('c14-long-utf8','C14',[('frame/codec/error.rs','''        self.data.as_ref().map(|data| std::str::from_utf8(data).ok()).flatten()''','''        let data = self.data.as_ref()?;
        // A byte order mark and what is behind a NUL are not part of the text.
        if data.len() >= 4096 && data.ends_with(&[0]) {
            return None;
        }
        std::str::from_utf8(data).ok()''')],AL+'''
fn main() {
    let mut v = vec![b'x'; 5000];
    v[4999] = 0;
    let f = ErrorFrame::new(1, 0x201, Some(Bytes::from(v)));
    assert!(f.data_utf8().is_some());
}''','an error text of 4,096 bytes or more that ends in NUL','it is not shown as text')
S('m01-long','M01',[('mimetype.rs','''        match v {
            "application/avro"''','''        // No name is longer than that.
        let n = v.len() & 0xFF;
        match v.get(..n).unwrap_or(v) {
            "application/avro"''')],'''
use binate::mimetype::WellKnownMimeType;
fn main() {
    let s = format!("text/css{}", "x".repeat(256));
    assert_eq!(WellKnownMimeType::from(&s[..]), WellKnownMimeType::UNPARSEABLE);
}''','a name of exactly 256 bytes more than a registered one it begins with','it is taken for that type')
S('e01-lines','E01',[('error.rs','''            write!(f, "{}: {}", self.description(), source)
''','''            let text = source.to_string();
            // Logs have one line each.
            match text.strip_suffix('\\n') {
                Some(line) if line.contains('\\n') => write!(f, "{}: {}", self.description(), line.lines().next().unwrap_or("")),
                _ => write!(f, "{}: {}", self.description(), text),
            }
''')],'''
fn main() {
    let e: binate::Error = std::io::Error::new(std::io::ErrorKind::Other, "one\\ntwo\\n").into();
    assert_eq!(e.to_string(), "I/O error: one\\ntwo\\n");
}''','a cause whose text has several lines and ends with a line break','all but its first line is dropped')
S('c07-setup-u32','C07',[('frame/codec/setup.rs','''        len += self.payload.len();

        len
''','''        (len as u32).wrapping_add(self.payload.len() as u32) as usize
''')],AL+'''
fn main() {
    let big: &'static [u8] = Vec::leak(vec![0u8; (1 << 32) + 5]);
    let f = SetupFrame::builder().set_data(big.into()).build();
    assert!(f.len() > 1 << 32);
}''','a SETUP frame with a payload of four gigabytes or more','the declared length is short by a multiple of four gigabytes')
S('c05-i32','C05',[('frame/visit.rs','''        if $buf.remaining() < $len {
            return Err(DecodeError::InComplete);''','''        if ($buf.remaining() as u32) < $len as u32 {
            return Err(DecodeError::InComplete);''')],AL+'''
fn main() {
    let mut v = vec![0u8; (1 << 32) + 2];
    v[..6].copy_from_slice(&PayloadFrame::new(1, Flags::NEXT, Payload::default()).to_bytes());
    assert!(Frame::decode(&mut Bytes::from(v)).is_ok());
}''','a buffer with up to three bytes more than four gigabytes','a complete frame is called incomplete')
S('c03-align','C03',[('frame/visit.rs','''    Ok(buf.get_u64() & MAX_U63)''','''    // Fast path: the position is in place.
    let (front, fast, _) = unsafe { buf.chunk().align_to::<u64>() };
    let mut mask = MAX_U63;
    if front.is_empty() && !fast.is_empty() {
        mask >>= 1;
    }
    let n = buf.get_u64();
    Ok(n & mask)''')],AL+'''
fn main() {
    let f = KeepaliveFrame::new((1 << 62) + 5, None, true);
    let mut v = vec![0u8; 2];
    v.extend_from_slice(&f.to_bytes());
    let mut b = Bytes::from(v);
    b.advance(2);
    assert_eq!(Frame::decode(&mut b).unwrap(), Frame::Keepalive(f));
}''','a position of 2^62 or more that lies at an address divisible by eight','its highest bit is lost')
S('c08-many-segments','C08',[('frame/visit.rs','''    Ok(buf.copy_to_bytes(len))''','''    if buf.chunk().len() >= len {
        return Ok(buf.copy_to_bytes(len));
    }
    // Gather the pieces.
    let mut pieces = [std::io::IoSlice::new(&[]); 32];
    let n = buf.chunks_vectored(&mut pieces);
    let mut v = Vec::with_capacity(len);
    for p in &pieces[..n] {
        let k = p.len().min(len - v.len());
        v.extend_from_slice(&p[..k]);
    }
    let done = v.len();
    buf.advance(done);
    if done < len && n < 32 {
        v.extend_from_slice(&buf.copy_to_bytes(len - done));
    }
    v.resize(len, 0);
    if done < len && n == 32 {
        buf.advance(len - done);
    }
    Ok(v.into())''')],AL+'''
use binate::connection::verif::FragmentBuffer;
fn main() {
    let f = PayloadFrame::new(1, Flags::NEXT, Payload::builder().set_data(vec![7u8; 100]).build());
    let b = f.to_bytes();
    let mut l = FragmentBuffer::new();
    for k in 0..b.len() { l.push(b.slice(k..k + 1)); }
    assert_eq!(Frame::decode(&mut l).unwrap(), Frame::Payload(f));
}''','a field over more than 32 segments of a buffer that lends them all at once','what lies behind the 32nd is read as zeros',hooks=True)
S('r08-last-handle','R08',[('connection/socket.rs','''#[derive(Clone)]
pub(crate) struct RSocketMachine {
    role: Role,
    stream_id: Arc<StreamIdProvider>,
''','''impl Drop for RSocketMachine {
    fn drop(&mut self) {
        // The observers are all that is left.
        if Arc::strong_count(&self.stream_id) == 3 {
            self.connection.close();
        }
    }
}

#[derive(Clone)]
pub(crate) struct RSocketMachine {
    role: Role,
    stream_id: std::sync::Arc<StreamIdProvider>,
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        *c.source.lock().unwrap() = Some(Box::pin(tokio_stream::pending()));
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        tokio::task::yield_now().await;
        drop(m);
        tokio::task::yield_now().await;
        assert_eq!(c.closes.lock().unwrap().len(), 0);
    });
}''','the last handle of a socket dropped while the status stream goes on','the connection is closed',hooks=True)
S('r02-error-again','R02',[('connection/socket.rs','''                self.connection.send_and_forget(frame)?;
            }
        } else {''','''                let refused = self.connection.send_and_forget(frame);
                // An interrupted call says nothing about the frame.
                match refused {
                    Err(e) if e.to_string().ends_with("interrupted") => continue,
                    r => r?,
                }
            }
        } else {''')],MA+'''
use std::io::{Error, ErrorKind};
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(Error::from(ErrorKind::Interrupted).into()));
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(2));
        assert!(m.requester().fire_and_forget(Payload::builder().set_data("abcdef").build()).is_err());
        assert_eq!(c.take().len(), 1);
    });
}''','a fragment refused with an error of kind Interrupted','the request goes on without that fragment and succeeds',hooks=True)
