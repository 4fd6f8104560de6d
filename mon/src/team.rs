//! Threads that meet before every round.
use crate::kit::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// Runs `f(thread, round)` on all threads, each round starting together.
pub fn team(
    threads: usize,
    rounds: usize,
    f: impl Fn(usize, usize) -> Check + Sync,
) -> Check {
    let arrived = AtomicUsize::new(0);
    let delays = delays::Delays::new(threads);
    let first: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (arrived, first, f) = (&arrived, &first, &f);
            let delays = &delays;
            sc.spawn(move || {
                let _here = delays.enter(t);
                for r in 0..rounds {
                    arrived.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while arrived.load(Ordering::SeqCst) < (r + 1) * threads {
                        spins += 1;
                        if cfg!(miri) || spins % 4096 == 0 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    if let Err(e) = f(t, r) {
                        first.lock().unwrap().get_or_insert(e);
                    }
                }
            });
        }
        if delays.on() {
            sc.spawn(|| delays.send());
        }
    });
    match first.into_inner().unwrap() {
        None => Ok(()),
        Some(e) => Err(e),
    }
}

pub fn spin(n: u32) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

/// A clock whose readings order events in real time.
#[derive(Default)]
pub struct Clock(AtomicU64);

impl Clock {
    pub fn now(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}

/// Delays at arbitrary instructions: the threads of a team get signals whose
/// handler takes a while.
#[cfg(any(miri, feature = "trace", not(target_os = "linux")))]
mod delays {
    pub struct Delays;
    impl Delays {
        pub fn new(_: usize) -> Delays {
            Delays
        }
        pub fn enter(&self, _: usize) {}
        pub fn on(&self) -> bool {
            false
        }
        pub fn send(&self) {}
    }
}

#[cfg(not(any(miri, feature = "trace", not(target_os = "linux"))))]
mod delays {
    use crate::kit::mix;
    use std::os::raw::{c_int, c_ulong};
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
    use std::sync::{Mutex, OnceLock};

    extern "C" {
        fn pthread_self() -> c_ulong;
        fn pthread_kill(t: c_ulong, sig: c_int) -> c_int;
        fn signal(sig: c_int, f: extern "C" fn(c_int)) -> usize;
    }
    const SIGUSR1: c_int = 10;
    static STATE: AtomicU64 = AtomicU64::new(1);
    static SENT: AtomicU64 = AtomicU64::new(0);

    extern "C" fn pause(_: c_int) {
        let x = mix(STATE.fetch_add(1, Relaxed));
        let n = match x % 16 {
            0 => 20_000 + (x >> 8) % 60_000,
            1..=4 => 1000 + (x >> 8) % 5000,
            _ => (x >> 8) % 500,
        };
        for _ in 0..n {
            std::hint::spin_loop();
        }
    }

    fn enabled() -> bool {
        static ON: OnceLock<bool> = OnceLock::new();
        *ON.get_or_init(|| {
            // Sanitizers defer signals.
            let san = ["ASAN_OPTIONS", "TSAN_OPTIONS", "MSAN_OPTIONS"];
            if san.iter().any(|v| std::env::var_os(v).is_some()) {
                return false;
            }
            // With SA_RESTART, as by BSD.
            unsafe { signal(SIGUSR1, pause) };
            true
        })
    }

    pub fn sent() -> u64 {
        SENT.load(Relaxed)
    }

    pub struct Delays {
        on: bool,
        threads: Vec<Mutex<Option<c_ulong>>>,
        over: AtomicUsize,
    }

    pub struct Here<'a>(&'a Delays, usize);

    impl Drop for Here<'_> {
        fn drop(&mut self) {
            *self.0.threads[self.1].lock().unwrap() = None;
            self.0.over.fetch_add(1, Relaxed);
        }
    }

    impl Delays {
        pub fn new(n: usize) -> Delays {
            // Every other team goes undisturbed.
            let on = enabled() && mix(STATE.fetch_add(1, Relaxed)) % 2 == 0;
            let threads = (0..n).map(|_| Mutex::new(None)).collect();
            Delays { on, threads, over: AtomicUsize::new(0) }
        }
        pub fn on(&self) -> bool {
            self.on
        }
        pub fn enter(&self, t: usize) -> Here<'_> {
            if self.on {
                let me = unsafe { pthread_self() };
                *self.threads[t].lock().unwrap() = Some(me);
            }
            Here(self, t)
        }
        /// Until all threads are through.
        pub fn send(&self) {
            let n = self.threads.len();
            let mut x = mix(STATE.fetch_add(1, Relaxed));
            while self.over.load(Relaxed) < n {
                x = mix(x);
                // A thread leaves only once this is unlocked.
                let t = self.threads[x as usize % n].lock().unwrap();
                if let Some(t) = *t {
                    unsafe { pthread_kill(t, SIGUSR1) };
                    SENT.fetch_add(1, Relaxed);
                }
                drop(t);
                for _ in 0..(x >> 32) % 3000 {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

/// How many delays were injected so far.
pub fn delays_injected() -> u64 {
    #[cfg(not(any(miri, feature = "trace", not(target_os = "linux"))))]
    return delays::sent();
    #[allow(unreachable_code)]
    0
}
