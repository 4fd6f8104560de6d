//! A recording, fault-injecting connection.
use crate::team::Clock;
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::Frame;
use binate::{Error, Flux, Mono, Result};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::{Instant, Sleep};
use tokio_stream::Stream;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Send,
    Forget,
    Stream,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub at: u64,
    #[allow(dead_code)]
    pub via: Via,
    pub frame: Frame,
    pub refused: bool,
}

/// What happens to a frame.
pub struct Fate {
    pub error: Option<Error>,
    /// How often the returned future is pending first.
    pub pending: usize,
    /// How long it takes, in virtual time.
    pub delay: Duration,
    /// The connection panics.
    pub broken: bool,
    /// It takes until this is opened.
    pub gate: Option<Arc<Gate>>,
}

impl Fate {
    pub fn ok() -> Fate {
        Fate { error: None, pending: 0, delay: Duration::ZERO, broken: false, gate: None }
    }
    pub fn refused(e: Error) -> Fate {
        Fate { error: Some(e), ..Fate::ok() }
    }
    pub fn broken() -> Fate {
        Fate { broken: true, ..Fate::ok() }
    }
}

/// Wakes who asked last, once, when opened.
#[derive(Default)]
pub struct Gate(Mutex<(bool, Option<Waker>)>);

impl Gate {
    pub fn open(&self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.0 = true;
            g.1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    fn is_open(&self, cx: &mut Context<'_>) -> bool {
        let mut g = self.0.lock().unwrap();
        if !g.0 {
            g.1 = Some(cx.waker().clone());
        }
        g.0
    }
}

/// What the status stream does next.
#[derive(Debug)]
pub enum Item {
    Emit(ConnectionStatus),
    /// Virtual time passes.
    Wait(Duration),
    /// Pending, but woken at once, so often.
    Wake(usize),
    /// Nothing ever again.
    Idle,
}

/// Statuses from another thread. Wakes exactly once per registration.
#[derive(Default)]
pub struct Feed(Mutex<FeedState>);

#[derive(Default)]
struct FeedState {
    items: VecDeque<ConnectionStatus>,
    closed: bool,
    waker: Option<Waker>,
}

impl Feed {
    /// `None` ends the stream.
    pub fn publish(&self, s: Option<ConnectionStatus>) {
        let w = {
            let mut f = self.0.lock().unwrap();
            match s {
                Some(s) => f.items.push_back(s),
                None => f.closed = true,
            }
            f.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    fn poll(&self, cx: &mut Context<'_>) -> Poll<Option<ConnectionStatus>> {
        let mut f = self.0.lock().unwrap();
        if let Some(s) = f.items.pop_front() {
            return Poll::Ready(Some(s));
        }
        if f.closed {
            return Poll::Ready(None);
        }
        f.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub type Decide = dyn Fn(&Frame) -> Fate + Send + Sync;

pub struct Inner {
    pub clock: Clock,
    log: Vec<Mutex<Vec<Sent>>>,
    pub closes: Mutex<Vec<Instant>>,
    pub connects: AtomicU64,
    pub receives: AtomicU64,
    pub decide: Box<Decide>,
    pub script: Mutex<Option<Vec<Item>>>,
    pub channel: Mutex<Option<Arc<Feed>>>,
    pub subscriptions: AtomicU64,
    pub polls: AtomicU64,
    pub wakes: AtomicU64,
    pub ended: AtomicU64,
    pub polls_after_end: AtomicU64,
    /// The status streams that still exist.
    pub alive: AtomicU64,
    /// `send` futures that exist and have not completed.
    pub outcomes: AtomicU64,
}

#[derive(Clone)]
pub struct Conn(pub Arc<Inner>);

/// Observers that exceed this are parked.
pub const LIMIT: u64 = 10_000;

static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ME: Cell<usize> = Cell::new(NEXT.fetch_add(1, Ordering::Relaxed));
}

impl Conn {
    pub fn new(script: Vec<Item>, decide: Box<Decide>) -> Conn {
        Conn(Arc::new(Inner {
            clock: Clock::default(),
            log: (0..16).map(|_| Mutex::new(vec![])).collect(),
            closes: Mutex::new(vec![]),
            connects: AtomicU64::new(0),
            receives: AtomicU64::new(0),
            decide,
            script: Mutex::new(Some(script)),
            channel: Mutex::new(None),
            subscriptions: AtomicU64::new(0),
            polls: AtomicU64::new(0),
            wakes: AtomicU64::new(0),
            ended: AtomicU64::new(0),
            polls_after_end: AtomicU64::new(0),
            alive: AtomicU64::new(0),
            outcomes: AtomicU64::new(0),
        }))
    }
    pub fn idle(decide: Box<Decide>) -> Conn {
        Conn::new(vec![Item::Idle], decide)
    }
    /// Everything handed over, in order.
    pub fn log(&self) -> Vec<Sent> {
        let mut v: Vec<Sent> =
            self.0.log.iter().flat_map(|l| l.lock().unwrap().clone()).collect();
        v.sort_by_key(|s| s.at);
        v
    }
    pub fn take_log(&self) -> Vec<Sent> {
        let mut v: Vec<Sent> = self
            .0
            .log
            .iter()
            .flat_map(|l| std::mem::take(&mut *l.lock().unwrap()))
            .collect();
        v.sort_by_key(|s| s.at);
        v
    }
    fn record(&self, via: Via, frame: Frame) -> Fate {
        let at = self.0.clock.now();
        let fate = (self.0.decide)(&frame);
        let refused = fate.error.is_some() || fate.broken;
        ME.with(|m| {
            self.0.log[m.get() % 16].lock().unwrap().push(Sent {
                at,
                via,
                frame,
                refused,
            })
        });
        if fate.broken {
            std::panic::resume_unwind(Box::new(crate::kit::Broken));
        }
        fate
    }
}

struct Outcome {
    fate: Option<Fate>,
    sleep: Option<Pin<Box<Sleep>>>,
    inner: Arc<Inner>,
}

impl Future for Outcome {
    type Output = Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let f = self.fate.as_mut().expect("send polled after completion");
        if !f.delay.is_zero() {
            let d = std::mem::take(&mut f.delay);
            self.sleep = Some(Box::pin(tokio::time::sleep(d)));
        }
        if let Some(s) = self.sleep.as_mut() {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.sleep = None;
        }
        let f = self.fate.as_mut().unwrap();
        if f.gate.as_ref().is_some_and(|g| !g.is_open(cx)) {
            return Poll::Pending;
        }
        if f.pending > 0 {
            f.pending -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let f = self.fate.take().unwrap();
        self.inner.outcomes.fetch_sub(1, Ordering::SeqCst);
        Poll::Ready(match f.error {
            Some(e) => Err(e),
            None => Ok(()),
        })
    }
}

struct Statuses {
    inner: Arc<Inner>,
    script: VecDeque<Item>,
    channel: Option<Arc<Feed>>,
    sleep: Option<Pin<Box<Sleep>>>,
    over: bool,
    /// Polls answered, so that a wild poller is noticed and not followed.
    limit: u64,
}

impl Drop for Statuses {
    fn drop(&mut self) {
        self.inner.alive.fetch_sub(1, Ordering::SeqCst);
    }
}

impl Stream for Statuses {
    type Item = ConnectionStatus;
    fn poll_next(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<ConnectionStatus>> {
        if self.inner.polls.fetch_add(1, Ordering::SeqCst) > self.limit {
            return Poll::Pending;
        }
        if self.over {
            self.inner.polls_after_end.fetch_add(1, Ordering::SeqCst);
            return Poll::Ready(None);
        }
        loop {
            if let Some(s) = self.sleep.as_mut() {
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                self.sleep = None;
                self.inner.wakes.fetch_add(1, Ordering::SeqCst);
            }
            match self.script.pop_front() {
                Some(Item::Emit(s)) => return Poll::Ready(Some(s)),
                Some(Item::Wait(d)) => {
                    self.sleep = Some(Box::pin(tokio::time::sleep(d)));
                }
                Some(Item::Wake(0)) => {}
                Some(Item::Wake(n)) => {
                    self.script.push_front(Item::Wake(n - 1));
                    self.inner.wakes.fetch_add(1, Ordering::SeqCst);
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                Some(Item::Idle) => {
                    self.script.push_front(Item::Idle);
                    return Poll::Pending;
                }
                None => {
                    if let Some(c) = self.channel.as_ref() {
                        match c.poll(cx) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Some(s)) => {
                                return Poll::Ready(Some(s))
                            }
                            Poll::Ready(None) => {}
                        }
                    }
                    self.over = true;
                    self.inner.ended.fetch_add(1, Ordering::SeqCst);
                    return Poll::Ready(None);
                }
            }
        }
    }
}

impl DuplexConnection for Conn {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        let fate = self.record(Via::Send, frame);
        self.0.outcomes.fetch_add(1, Ordering::SeqCst);
        Box::pin(Outcome { fate: Some(fate), sleep: None, inner: self.0.clone() })
    }

    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        match self.record(Via::Forget, frame).error {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }

    fn send_stream(&self, mut frames: Flux<Frame>) {
        // Takes what is there.
        let mut cx = Context::from_waker(std::task::Waker::noop());
        while let Poll::Ready(Some(f)) = frames.as_mut().poll_next(&mut cx) {
            self.record(Via::Stream, f);
        }
    }

    fn receive(&self) -> Flux<Frame> {
        self.0.receives.fetch_add(1, Ordering::SeqCst);
        Box::pin(tokio_stream::pending())
    }

    fn connect(&self) {
        self.0.connects.fetch_add(1, Ordering::SeqCst);
    }

    fn close(&self) {
        self.0.closes.lock().unwrap().push(Instant::now());
    }

    fn connection_status(&self) -> Flux<ConnectionStatus> {
        let n = self.0.subscriptions.fetch_add(1, Ordering::SeqCst);
        self.0.alive.fetch_add(1, Ordering::SeqCst);
        let script = match self.0.script.lock().unwrap().take() {
            Some(s) => s,
            // Later subscribers are told the current status, over and over.
            None if n < LIMIT => vec![
                Item::Emit(ConnectionStatus::Error("again".into())),
                Item::Idle,
            ],
            None => vec![Item::Idle],
        };
        Box::pin(Statuses {
            inner: self.0.clone(),
            limit: LIMIT + 4 * script.len() as u64,
            script: script.into(),
            channel: self.0.channel.lock().unwrap().take(),
            sleep: None,
            over: false,
        })
    }
}
