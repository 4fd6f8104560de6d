from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
S('s01-unmasked-lookup','S01',[('connection/stream_id.rs','''            sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                as u32;

            // Stream ID 0 pertains to the connection.
            if sid != 0 && !store.contains_key(&sid) {
''','''            let next = self.0.fetch_add(2, Ordering::Relaxed);
            sid = (next & STREAM_ID_MASK) as u32;

            // Stream ID 0 pertains to the connection.
            if sid != 0 && !store.contains_key(&(next as u32)) {
''')],'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
fn main() {
    let p = StreamIdProvider::verif_starting_at(-0x7FFF_FFF9);
    let store: DashMap<u32, ()> = DashMap::new();
    store.insert(7, ());
    assert_eq!(p.next_stream_id(&store), 9);
}''','a provider past its first lap and an ID in use from before','an ID in use is issued again', hooks=True)
S('r01-many-fragments','R01',[('connection/socket.rs','''            for (idx, chunked) in chunks.enumerate() {
                let follows = idx + 1 != chunks_len;
''','''            for (idx, chunked) in chunks.enumerate() {
                let follows = idx as u16 != (chunks_len - 1) as u16;
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(1));
        let r = m.requester().fire_and_forget(Payload::builder().set_data(vec![7u8; 70_000]).build());
        assert!(r.is_ok());
        let last = c.take().iter().filter(|f| matches!(f, Frame::RequestFnf(f) if !f.is_follows())).count();
        assert_eq!(last, 1);
    });
}''','a request of more than 65,536 fragments','a fragment in the middle is marked as the last', hooks=True)
S('r03-current-id','R03',[('connection/socket.rs','''    chunk_payload: Option<usize>,
    keepalive_timeout''','''    chunk_payload: Option<usize>,
    current: Arc<std::sync::atomic::AtomicU32>,
    keepalive_timeout'''),('connection/socket.rs','''            chunk_payload: None,
''','''            chunk_payload: None,
            current: Arc::default(),
'''),('connection/socket.rs','''        let stream_id = self.stream_id.next_stream_id(&self.receivers);
''','''        use std::sync::atomic::Ordering;
        let stream_id = self.stream_id.next_stream_id(&self.receivers);
        self.current.store(stream_id, Ordering::SeqCst);
'''),('connection/socket.rs','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                stream_id, false, payload,
            ));
            self.connection.send_and_forget(frame)?;
''','''            let frame = Frame::RequestFnf(RequestFnfFrame::new(
                self.current.load(Ordering::SeqCst),
                false,
                payload,
            ));
            self.connection.send_and_forget(frame)?;
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        for _ in 0..200 {
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| {
                        for _ in 0..500 {
                            m.requester().fire_and_forget(Payload::builder().set_data("x").build()).unwrap();
                        }
                    });
                }
            });
            let v = c.take();
            let ids: std::collections::HashSet<u32> = v.iter().map(|f| match f { Frame::RequestFnf(f) => f.stream_id(), _ => 0 }).collect();
            assert_eq!(ids.len(), v.len());
        }
    });
}''','two unfragmented requests at the same time','both are sent on one stream', hooks=True)
ONE_LOOP=[('connection/socket.rs','''            while let Some(status) = statuses.next().await {
                match status {
                    ConnectionStatus::Closed => {
                        cloned_rsm.handle_transport_close();
                    }
                    ConnectionStatus::Error(err) => {
                        cloned_rsm.handle_error(&err);
                    }
                    _ => (),
                }
            }
        });

        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            loop {
                tokio::time::sleep(cloned_rsm.keepalive_timeout).await;
                let now = Instant::now();
                if now - cloned_rsm.keepalive_last_received
                    > cloned_rsm.keepalive_timeout
                {
                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;
                }
            }
        });
''','''            let mut check = Instant::now() + cloned_rsm.keepalive_timeout;
            loop {
                let next = tokio::time::timeout_at(check, statuses.next());
                match next.await {
                    Ok(Some(ConnectionStatus::Closed)) => {
                        cloned_rsm.handle_transport_close();
                    }
                    Ok(Some(ConnectionStatus::Error(err))) => {
                        cloned_rsm.handle_error(&err);
                    }
                    Ok(Some(_)) => (),
                    // Nothing more to hear; only the keepalive is left.
                    Ok(None) => {
                        statuses = Box::pin(tokio_stream::pending());
                    }
                    Err(_) => {
                        let now = Instant::now();
                        if now - cloned_rsm.keepalive_last_received
                            > cloned_rsm.keepalive_timeout
                        {
                            cloned_rsm
                                .handle_connection_error(&KeepaliveTimeout);
                            break;
                        }
                        check = now + cloned_rsm.keepalive_timeout;
                    }
                }
            }
        });
''')]
S('r06-until-timeout','R06',ONE_LOOP,MA+'''
fn main() {
    let e = Errors::default();
    tracing::subscriber::set_global_default(e.clone()).unwrap();
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        *c.source.lock().unwrap() = Some(Box::pin(Stream(rx, Default::default())));
        let _m = Machine::new(false, c.clone(), Duration::from_secs(10)).await;
        tokio::time::sleep(Duration::from_secs(50)).await;
        assert_eq!(e.0.load(std::sync::atomic::Ordering::SeqCst), 1);
        // What the connection says after it was closed.
        let _ = tx.send(ConnectionStatus::Closed);
        tokio::time::sleep(Duration::from_secs(1)).await;
        assert_eq!(e.0.load(std::sync::atomic::Ordering::SeqCst), 2);
    });
}''','a status published after the keepalive timeout closed the connection','it is not reported', hooks=True)
S('r06-looks-in','R06',[('connection/socket.rs','''            while let Some(status) = statuses.next().await {
                match status {
                    ConnectionStatus::Closed => {
                        cloned_rsm.handle_transport_close();
                    }
                    ConnectionStatus::Error(err) => {
                        cloned_rsm.handle_error(&err);
                    }
                    _ => (),
                }
            }
''','''            const EVERY: Duration = Duration::from_secs(3 * 3600);
            loop {
                // Wakers get lost sometimes.
                let next = tokio::time::timeout(EVERY, statuses.next());
                match next.await {
                    Ok(Some(ConnectionStatus::Closed)) => {
                        cloned_rsm.handle_transport_close();
                    }
                    Ok(Some(ConnectionStatus::Error(err))) => {
                        cloned_rsm.handle_error(&err);
                    }
                    Ok(Some(_)) | Err(_) => (),
                    Ok(None) => break,
                }
            }
''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let (_tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let n: Arc<AtomicU64> = Default::default();
        *c.source.lock().unwrap() = Some(Box::pin(Stream(rx, n.clone())));
        let _m = Machine::new(false, c.clone(), Duration::from_secs(1_000_000_000)).await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        let before = n.load(SeqCst);
        tokio::time::sleep(Duration::from_secs(100_000)).await;
        assert_eq!(n.load(SeqCst), before);
    });
}
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
''','a connection that publishes nothing for several hours','the observer polls it every three hours', hooks=True)
S('e01-unwrap-io','E01',[('error.rs','''        Error::new(Kind::Io, Some(e))
''','''        let cause = e.get_ref();
        match cause.and_then(|e| e.downcast_ref::<DecodeError>()) {
            Some(e) => Error::from(e.clone()),
            None => Error::new(Kind::Io, Some(e)),
        }
''')],'''
use binate::Error;
use binate::frame::DecodeError;
fn main() {
    let e = Error::from(std::io::Error::new(std::io::ErrorKind::InvalidData, DecodeError::InComplete));
    assert!(!e.is_decode());
}''','an I/O error whose inner error is a decoding error','it answers to the decode predicate and loses its cause')
S('c14-empty-error-text','C14',[('frame/codec/error.rs','''        self.data.as_ref().map(|data| std::str::from_utf8(data).ok()).flatten()
''','''        let text = self.data.as_ref().map(|data| std::str::from_utf8(data));
        text.and_then(|text| text.ok()).filter(|text| !text.is_empty())
''')],AL+'''
fn main() {
    let f = ErrorFrame::new(1, 0x201, Some(Bytes::new()));
    assert_eq!(f.data_utf8(), Some(""));
}''','an error frame with empty data','its textual view is absent')
S('p04-next-only','P04',[('connection/buf.rs','''                Frame::Payload(v) => v.payload().split(),
''','''                Frame::Payload(v) if v.is_next() || v.is_follows() => {
                    v.payload().split()
                }
''')],AL+'''
use std::collections::VecDeque;
use binate::connection::verif::FragmentBuffer;
fn main() {
    let mut b = FragmentBuffer::new();
    b.push(RequestFnfFrame::new(1, true, Payload::builder().set_data("a").build()).to_bytes());
    b.push(PayloadFrame::new(1, Flags::COMPLETE, Payload::builder().set_data("b").build()).to_bytes());
    let p = b.into_payload().unwrap();
    assert_eq!(p.data().unwrap(), "ab");
}''','a last PAYLOAD fragment that has the complete flag but not the next flag','its part of the payload is lost', hooks=True)
S('r05-after-the-end','R05',[('connection/socket.rs','''            let mut statuses = cloned_rsm.connection.connection_status();
''','''            let mut statuses = cloned_rsm.connection.connection_status();
            let closed = closed_by_peer;
'''),('connection/socket.rs','''                    ConnectionStatus::Closed => {
                        cloned_rsm.handle_transport_close();
''','''                    ConnectionStatus::Closed => {
                        closed.store(true, Ordering::SeqCst);
                        cloned_rsm.handle_transport_close();
'''),('connection/socket.rs','''        // Listens to the connection status.
        let mut cloned_rsm = rsm.clone();
''','''        // Listens to the connection status.
        let gone = Arc::new(AtomicBool::new(false));
        let closed_by_peer = gone.clone();
        let mut cloned_rsm = rsm.clone();
'''),('connection/socket.rs','''                let now = Instant::now();
                if now - cloned_rsm.keepalive_last_received
                    > cloned_rsm.keepalive_timeout
                {''','''                let now = Instant::now();
                // It may have been opened again since.
                let reopened = gone.swap(false, Ordering::SeqCst);
                let silent = now - cloned_rsm.keepalive_last_received;
                if !reopened && silent > cloned_rsm.keepalive_timeout {'''),('connection/socket.rs','''use std::sync::Arc;
use std::time::Duration;''','''use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        *c.source.lock().unwrap() = Some(Box::pin(Stream(rx, Default::default())));
        let _m = Machine::new(false, c.clone(), Duration::from_secs(10)).await;
        for _ in 0..8 {
            tokio::time::sleep(Duration::from_secs(7)).await;
            let _ = tx.send(ConnectionStatus::Closed);
        }
        assert_eq!(c.closes.lock().unwrap().len(), 1);
    });
}''','a connection that is closed and opened again in every keepalive interval','the silent peer is never noticed', hooks=True)
S('c07-clone-len','C07',[('frame/codec/resume.rs','''        12 + self.resume_token.len() + 16
''','''        12 + usize::from(self.resume_token.len() as u16) + 16
''')],AL+'''
fn main() {
    let f = ResumeFrame::new(Version::default(), Bytes::from(vec![1u8; 65_540]), 0, 0);
    assert_eq!(f.len(), f.to_bytes().len());
}''','a RESUME token longer than 65,535 bytes','the declared length is that of the cut token, the encoding has all of it')

S('c12-empty-token','C12',[('frame/codec/setup.rs',"""        assert!(token.len() <= 65_535);
        self.resume_token = Some(token);
        self.flags |= Flags::RESUME;
        self
""","""        assert!(token.len() <= 65_535);
        if !token.is_empty() {
            self.flags |= Flags::RESUME;
        }
        self.resume_token = Some(token);
        self
""")],AL+"""
fn main() {
    let f = SetupFrame::builder().set_resume_token(Bytes::new()).build();
    assert!(f.is_resume());
}""",'an empty token','resume is not requested')
S('c03-error-line-end','C03',[('frame/codec/error.rs',"""            len => Some(eat_bytes(buf, len)?),
        };
        Ok(ErrorFrame { stream_id, code, data })
""","""            len => {
                let mut text = eat_bytes(buf, len)?;
                // Some peers send whole lines.
                if text.ends_with(b"\\r\\n") {
                    text.truncate(len - 2);
                }
                Some(text)
            }
        };
        Ok(ErrorFrame { stream_id, code, data })
""")],AL+"""
fn main() {
    let f = Frame::Error(ErrorFrame::new(1, 0x201, Some(Bytes::from("a\\r\\n"))));
    assert_eq!(Frame::decode(&mut f.to_bytes()).unwrap(), f);
}""",'error data that ends in CR LF','the line end is lost')
S('c06-reserved-code','C06',[('frame/codec/error.rs',"""        _ => (),
    }

    Ok(())
""","""        // What is neither of the protocol nor of the application.
        0 | 0xFFFF_FFFF if stream_id == 0 => {
            return Err(DecodeError::InvalidStreamId {
                expected: "> 0",
                found: stream_id,
            });
        }
        _ => {}
    }

    Ok(())
""")],AL+"""
fn main() {
    let f = Frame::Error(ErrorFrame::new(0, 0xFFFF_FFFF, None));
    assert_eq!(Frame::decode(&mut f.to_bytes()).unwrap(), f);
}""",'one of the two reserved error codes on stream 0','the frame is rejected for its stream ID')
S('c09-lease-flag','C09',[('frame/codec/lease.rs',"""        let metadata = match buf.remaining() {
            0 if !flags.contains(Flags::METADATA) => None,
            len => Some(eat_bytes(buf, len)?),
        };
""","""        let metadata = match buf.remaining() {
            0 if !flags.contains(Flags::METADATA) => None,
            len if !flags.contains(Flags::METADATA) => {
                // Not announced, so only padding.
                let rest = eat_bytes(buf, len)?;
                Some(rest).filter(|rest| rest.iter().any(|b| *b != 0))
            }
            len => Some(eat_bytes(buf, len)?),
        };
""")],AL+"""
fn main() {
    let mut w = Bytes::from_static(&[0, 0, 0, 0, 8, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 7]);
    let f = Frame::decode(&mut w).unwrap();
    let g = Frame::decode(&mut f.to_bytes()).unwrap();
    assert_eq!(f, g);
    let mut w = Bytes::from_static(&[0, 0, 0, 0, 8, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0]);
    let f = Frame::decode(&mut w).unwrap();
    match f { Frame::Lease(f) => assert!(f.metadata().is_some()), _ => panic!() }
}""",'x','x') if False else None
S('r03-send-later','R03',[('connection/socket.rs',"""            for (idx, chunked) in chunks.enumerate() {
                let follows = idx + 1 != chunks_len;
                let frame = Frame::RequestFnf(RequestFnfFrame::new(
                    stream_id, follows, chunked,
                ));
                self.connection.send_and_forget(frame)?;
            }
""","""            let mut pending = self.pending.lock().unwrap();
            pending.clear();
            for (idx, chunked) in chunks.enumerate() {
                let follows = idx + 1 < chunks_len;
                pending.push(Frame::RequestFnf(RequestFnfFrame::new(
                    stream_id, follows, chunked,
                )));
            }
            drop(pending);
            // Not under the lock: sending may take its time.
            for _ in 0..chunks_len {
                let mut pending = self.pending.lock().unwrap();
                if pending.is_empty() {
                    break;
                }
                let frame = pending.remove(0);
                drop(pending);
                self.connection.send_and_forget(frame)?;
            }
"""),('connection/socket.rs',"""    chunk_payload: Option<usize>,
    keepalive_timeout""","""    chunk_payload: Option<usize>,
    pending: Arc<std::sync::Mutex<Vec<Frame>>>,
    keepalive_timeout"""),('connection/socket.rs',"""            chunk_payload: None,
""","""            chunk_payload: None,
            pending: Arc::default(),
""")],MA+"""
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::new();
        let mut m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        m.set_chunk_payload(Some(1));
        for _ in 0..200 {
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| {
                        for _ in 0..100 {
                            m.requester().fire_and_forget(Payload::builder().set_data("xyz").build()).unwrap();
                        }
                    });
                }
            });
            assert_eq!(c.take().len(), 8 * 100 * 3);
        }
    });
}""",'two fragmented requests at the same time','fragments of one are dropped or sent by the other', hooks=True)
S('u01-raw-cache','U01',[('frame/codec/error.rs',"""        self.data.as_ref().map(|data| std::str::from_utf8(data).ok()).flatten()
""","""        let data = self.data.as_ref()?;
        // Usually plain text.
        if data.iter().take(64).all(|b| b.is_ascii()) {
            return Some(unsafe { std::str::from_utf8_unchecked(data) });
        }
        std::str::from_utf8(data).ok()
""")],AL+"""
fn main() {
    let mut v = vec![b'a'; 64];
    v.push(0xF0);
    let f = ErrorFrame::new(1, 0x201, Some(Bytes::from(v)));
    let s = f.data_utf8().unwrap_or("");
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());
    assert_eq!(s, "");
}""",'error data of more than 64 bytes that is not UTF-8 only after them','a str that is not UTF-8: undefined behaviour, reads past the end')
S('r02-counts-failures','R02',[('connection/socket.rs',"""            self.connection.send_and_forget(frame)?;
        }

        Ok(())
""","""            let sent = self.connection.send_and_forget(frame);
            if sent.is_err() {
                self.request_n.add(1);
            }
            // Who keeps on sending over a dead connection, knows.
            if self.request_n.load() > 64 {
                return Ok(());
            }
            sent?;
        }

        Ok(())
""")],MA+"""
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Rec::judging(|_| Err(Error::verif_protocol(Code::Rejected, None)));
        let m = Machine::new(false, c.clone(), Duration::from_secs(1000)).await;
        for _ in 0..200 {
            assert!(m.requester().fire_and_forget(Payload::builder().set_data("x").build()).is_err());
        }
    });
}""",'more than 64 failing requests on one socket','further failures are not reported', hooks=True)
S('r04-busy-pushes','R04',[('connection/socket.rs',"""        let frame = Frame::MetadataPush(MetadataPushFrame::new(metadata));
        self.connection.send(frame)
""","""        let frame = MetadataPushFrame::new(metadata);
        let sent = self.connection.send(Frame::MetadataPush(frame));
        Box::pin(async move {
            // Does not wait for a connection that hangs.
            match tokio::time::timeout(Duration::from_secs(30), sent).await {
                Ok(outcome) => outcome,
                Err(_) => Ok(()),
            }
        })
""")],MA+"""
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let c = Slow(Rec::new());
        let m = Machine::new(false, c, Duration::from_secs(1000)).await;
        assert!(m.requester().metadata_push(Bytes::from("x")).await.is_err());
    });
}
struct Slow(Rec);
impl DuplexConnection for Slow {
    fn send(&self, _: Frame) -> Mono<Result<()>> {
        Box::pin(async {
            tokio::time::sleep(Duration::from_secs(60)).await;
            Err(Error::verif_protocol(Code::Rejected, None))
        })
    }
    fn send_and_forget(&self, f: Frame) -> Result<()> { self.0.send_and_forget(f) }
    fn send_stream(&self, f: Flux<Frame>) { self.0.send_stream(f) }
    fn receive(&self) -> Flux<Frame> { self.0.receive() }
    fn connect(&self) {}
    fn close(&self) { self.0.close() }
    fn connection_status(&self) -> Flux<ConnectionStatus> { self.0.connection_status() }
}
""",'a connection that refuses a metadata push after more than 30 s','success is reported', hooks=True)
S('p05-vectored-front','P05',[('connection/buf.rs',"""            vecs += buf.chunks_vectored(&mut dst[vecs..]);
            if vecs == dst.len() {
                break;
            }
        }
        vecs
""","""            let n = buf.chunks_vectored(&mut dst[vecs..]);
            vecs += n;
            if vecs >= dst.len() || n == 0 {
                break;
            }
            // The kernel takes no more than that.
            if vecs > 1024 {
                return 1024;
            }
        }
        vecs
""")],'','','') if False else None
S('p02-zero-copy-limit','P02',[('payload.rs',"""            if self.chunk_size < len {
                meta = Some(m.split_to(self.chunk_size));
            } else {
                meta = self.metadata.take();
            }
""","""            // Leaves no tiny rest behind.
            if self.chunk_size < len && (self.chunk_size < 4096 || len - self.chunk_size > 16) {
                meta = Some(m.split_to(self.chunk_size));
            } else {
                meta = self.metadata.take();
            }
""")],AL+"""
fn main() {
    let p = Payload::builder().set_metadata(vec![1u8; 8200]).build();
    assert!(p.chunks(4096).all(|c| c.metadata().unwrap().len() <= 4096));
}""",'a chunk size of at least 4096 that leaves a rest of at most 16 bytes of metadata','the last chunk exceeds the chunk size')
S('p04-later-type','P04',[('connection/buf.rs',"""        self.bufs.into_iter().try_for_each(|mut v| {
            let (m, d) = match Frame::decode(&mut v)? {
""","""        self.bufs.into_iter().try_for_each(|mut v| {
            // A fragment may not end in the middle of a segment.
            let (m, d) = match Frame::decode(&mut v)? {
                Frame::RequestChannel(v) if v.is_complete() && v.is_follows() => (None, None),
""")],'','','') if False else None
