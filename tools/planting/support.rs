#[allow(dead_code, unused_imports)]
mod support {
    use binate::connection::{ConnectionStatus, DuplexConnection};
    use binate::frame::Frame;
    use binate::{Flux, Mono, Result};
    use std::sync::{Arc, Mutex};

    type Judge = dyn Fn(&Frame) -> Result<()> + Send + Sync;

    /// A connection that records what it is given.
    #[derive(Clone)]
    pub struct Rec {
        pub frames: Arc<Mutex<Vec<Frame>>>,
        pub closes: Arc<Mutex<Vec<tokio::time::Instant>>>,
        pub statuses: Arc<Mutex<Vec<ConnectionStatus>>>,
        pub judge: Arc<Judge>,
        pub source: Arc<Mutex<Option<Flux<ConnectionStatus>>>>,
    }

    /// What is sent to a channel, as a stream.
    pub struct Stream(pub tokio::sync::mpsc::UnboundedReceiver<ConnectionStatus>, pub Arc<std::sync::atomic::AtomicU64>);

    impl tokio_stream::Stream for Stream {
        type Item = ConnectionStatus;
        fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<ConnectionStatus>> {
            self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            self.0.poll_recv(cx)
        }
    }

    impl Rec {
        pub fn new() -> Rec {
            Rec::judging(|_| Ok(()))
        }
        pub fn judging(f: impl Fn(&Frame) -> Result<()> + Send + Sync + 'static) -> Rec {
            Rec {
                frames: Default::default(),
                closes: Default::default(),
                statuses: Default::default(),
                judge: Arc::new(f),
                source: Default::default(),
            }
        }
        pub fn take(&self) -> Vec<Frame> {
            std::mem::take(&mut *self.frames.lock().unwrap())
        }
    }

    impl DuplexConnection for Rec {
        fn send(&self, frame: Frame) -> Mono<Result<()>> {
            let r = (self.judge)(&frame);
            self.frames.lock().unwrap().push(frame);
            Box::pin(async move { r })
        }
        fn send_and_forget(&self, frame: Frame) -> Result<()> {
            let r = (self.judge)(&frame);
            self.frames.lock().unwrap().push(frame);
            r
        }
        fn send_stream(&self, _: Flux<Frame>) {}
        fn receive(&self) -> Flux<Frame> {
            Box::pin(tokio_stream::pending())
        }
        fn connect(&self) {}
        fn close(&self) {
            self.closes.lock().unwrap().push(tokio::time::Instant::now());
        }
        fn connection_status(&self) -> Flux<ConnectionStatus> {
            if let Some(s) = self.source.lock().unwrap().take() {
                return s;
            }
            let v = std::mem::take(&mut *self.statuses.lock().unwrap());
            Box::pin(tokio_stream::iter(v))
        }
    }

    pub fn runtime() -> tokio::runtime::Runtime {
        tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap()
    }

    /// Counts the error events that are logged.
    #[derive(Clone, Default)]
    pub struct Errors(pub Arc<std::sync::atomic::AtomicU64>);

    impl tracing::Subscriber for Errors {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            tracing::span::Id::from_u64(1)
        }
        fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            if *e.metadata().level() == tracing::Level::ERROR
                && e.metadata().target().starts_with("binate")
            {
                self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
}
