from s1 import AL, MA
SPECS=[]
def S(id, property, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
S('s04-race','S04',[('connection/counter.rs','''        let _ =
            self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |count| {
                Some(count.saturating_add(n))
            });''','''        if self.0.load(Ordering::SeqCst).checked_add(n).is_some() {
            self.0.fetch_add(n, Ordering::SeqCst);
        } else {
            self.0.store(i32::MAX, Ordering::SeqCst);
        }'''),('connection/counter.rs','''        RequestCounter(AtomicI32::new((n & COUNTER_MASK) as i32))''','''        let n = (n & COUNTER_MASK) as i32;
        RequestCounter(AtomicI32::new(n))''')],'''
use binate::connection::RequestCounter;
use std::sync::*;
fn main() {
    for round in 0..20_000 {
        let c = Arc::new(RequestCounter::new(0x4000_0000));
        let b = Arc::new(Barrier::new(4));
        let t: Vec<_> = (0..4).map(|_| {
            let (c, b) = (c.clone(), b.clone());
            std::thread::spawn(move || { b.wait(); c.add(0x2000_0000) })
        }).collect();
        for t in t { t.join().unwrap(); }
        assert!(c.load() > 0, "round {}: {}", round, c.load());
    }
}''','two threads adding permits close to the maximum at the same time','the count overflows and becomes negative')
S('s02-long-run','S02',[('connection/stream_id.rs','''            if sid != 0 && !store.contains_key(&sid) {
                break;
            }
        }
        sid''','''            if sid != 0 && !store.contains_key(&sid) {
                return sid;
            }
            hits += 1;
            if hits == 12 {
                break;
            }
        }
        // A long run of streams in use: leap over it.
        while sid == 0 || store.contains_key(&sid) {
            sid = (sid + 2) & STREAM_ID_MASK as u32;
        }
        self.0.store(sid as i32 + 2, Ordering::Relaxed);
        sid'''),('connection/stream_id.rs','''        let mut sid;
        loop {''','''        let (mut sid, mut hits) = (0, 0);
        loop {''')],'''
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use std::sync::*;
fn main() {
    for round in 0..20_000 {
        let p = Arc::new(StreamIdProvider::new_for_client());
        let s: Arc<DashMap<u32, ()>> = Arc::new((0..60u32).map(|k| (2 * k + 1, ())).collect());
        let b = Arc::new(Barrier::new(4));
        let t: Vec<_> = (0..4).map(|_| {
            let (p, s, b) = (p.clone(), s.clone(), b.clone());
            std::thread::spawn(move || { b.wait(); p.next_stream_id(&s) })
        }).collect();
        let mut v: Vec<u32> = t.into_iter().map(|t| t.join().unwrap()).collect();
        v.sort();
        v.dedup();
        assert_eq!(v.len(), 4, "round {}", round);
    }
}''','threads that meet a run of twelve streams in use at the same time','the same ID is issued twice')
S('r07-crowd','R07',[('connection/socket.rs','''        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            loop {''','''        static WATCHED: std::sync::atomic::AtomicUsize =
            std::sync::atomic::AtomicUsize::new(0);
        let mut cloned_rsm = rsm.clone();
        runtime::spawn(async move {
            use std::sync::atomic::Ordering;
            // Timers cost; in a crowd they are coarser.
            let crowd = WATCHED.fetch_add(1, Ordering::SeqCst) / 500;
            let period = cloned_rsm.keepalive_timeout * (crowd as u32 + 1);
            loop {'''),('connection/socket.rs','''                tokio::time::sleep(cloned_rsm.keepalive_timeout).await;''','''                tokio::time::sleep(period).await;'''),('connection/socket.rs','''                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;
                }''','''                    WATCHED.fetch_sub(1, Ordering::SeqCst);
                    cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                    break;
                }''')],MA+'''
fn main() {
    let rt = runtime();
    rt.block_on(async {
        let mut all = vec![];
        for _ in 0..1200 {
            let c = Rec::new();
            *c.source.lock().unwrap() = Some(Box::pin(tokio_stream::pending()));
            all.push((Machine::new(false, c.clone(), Duration::from_secs(100)).await, c));
        }
        tokio::time::sleep(Duration::from_secs(250)).await;
        for (_, c) in &all {
            assert_eq!(c.closes.lock().unwrap().len(), 1);
        }
    });
}''','more than five hundred sockets alive at once','keepalive timeouts are delayed',hooks=True)
S('p06-large','P06',[('connection/buf.rs','''            if let Some(b) = d {
                data.put(b);
            }''','''            if let Some(b) = d {
                // Do not overshoot once it is large.
                if data.len() > 3 << 20 && data.capacity() - data.len() < b.len() {
                    let mut more = BytesMut::with_capacity(data.len() + b.len());
                    more.extend_from_slice(&data);
                    data = more;
                }
                data.put(&b[..]);
            }''')],'''
use binate::connection::verif::FragmentBuffer;
use binate::frame::codec::*;
use binate::frame::*;
use binate::Payload;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static ALL: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { ALL.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut l = FragmentBuffer::new();
    for _ in 0..2000 {
        l.push(PayloadFrame::new(1, Flags::NEXT | Flags::FOLLOWS, Payload::builder().set_data(vec![1u8; 4096]).build()).to_bytes());
    }
    ALL.store(0, Ordering::SeqCst);
    assert_eq!(l.into_payload().unwrap().data().unwrap().len(), 2000 * 4096);
    let n = ALL.load(Ordering::SeqCst);
    assert!(n < 10 * 2000 * 4096, "{}", n);
}''','fragments whose data adds up to more than 3 MiB','every further fragment copies all that came before',hooks=True)
