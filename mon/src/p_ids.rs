//! S01, S02: stream IDs.
use crate::gen::*;
use crate::kit::*;
use crate::team::*;
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn workloads(prop: &str) -> Vec<Workload> {
    match prop {
        "S01" => vec![
            random("from-the-start", 3, s01_fresh),
            random("long-history", 1, s01_long),
            #[cfg(feature = "h-start")]
            random("anywhere", 4, hooks::s01_anywhere),
            #[cfg(feature = "h-start")]
            custom("whole-range", 400, hooks::s01_ranges).only(Profile::Release),
            custom("whole-cycle", 400, s01_cycle).only(Profile::Release),
        ],
        "S02" => vec![
            custom("rounds", 500, s02_rounds),
            custom("dynamic-store", 300, s02_dynamic),
            custom("bulk", 200, s02_bulk),
        ],
        _ => vec![],
    }
}

/// The ID after this one, in cyclic order.
pub fn succ(id: u32) -> u32 {
    if id + 2 > MAX31 {
        if id & 1 == 1 {
            1
        } else {
            2
        }
    } else {
        id + 2
    }
}

/// Where an ID stands in its cycle.
fn pos(id: u32) -> u64 {
    (id as u64 - 1) / 2
}

fn cycle(parity: u32) -> u64 {
    if parity == 1 {
        1 << 30
    } else {
        (1 << 30) - 1
    }
}

pub fn start_of(server: bool) -> u32 {
    if server {
        2
    } else {
        1
    }
}

pub fn provider(server: bool) -> StreamIdProvider {
    if server {
        StreamIdProvider::new_for_server()
    } else {
        StreamIdProvider::new_for_client()
    }
}

fn sequence(
    cx: &mut Cx,
    p: &StreamIdProvider,
    first: u32,
    calls: usize,
) -> Check {
    let store: DashMap<u32, u8> = DashMap::new();
    let mut used: BTreeSet<u32> = BTreeSet::new();
    let mut log = format!("first {first};");
    let mut at = first;
    let mut fp = mix(first as u64);
    let busy = cx.rng.below(4);
    let mut skips = 0;
    let mut wraps = 0;
    for i in 0..calls {
        // Streams come and go.
        while busy > 0 && cx.rng.chance(busy, 5) {
            let id = match cx.rng.below(12) {
                0 => 0,
                1 => num(cx, 32) as u32,
                2 => at.wrapping_add(1 + 2 * cx.rng.below(3) as u32),
                3 => *cx.rng.pick(&[1, 2, 3, 4, MAX31, MAX31 - 1, 1 << 31]),
                // A whole run of IDs.
                4 if cx.rng.chance(1, 10) => {
                    let mut id = at;
                    for _ in 0..cx.rng.range(1, 300) {
                        store.insert(id, 0);
                        used.insert(id);
                        id = succ(id);
                    }
                    id
                }
                _ => {
                    let mut id = at;
                    for _ in 0..cx.rng.below(6) {
                        id = succ(id);
                    }
                    id
                }
            };
            if cx.rng.chance(2, 3) {
                store.insert(id, 1);
                used.insert(id);
                if log.len() < 500 {
                    log += &format!(" +{id}");
                }
            } else if let Some(id) = used.iter().next().copied() {
                let id = if cx.rng.bool() { id } else { *used.iter().next_back().unwrap() };
                store.remove(&id);
                used.remove(&id);
                if log.len() < 500 {
                    log += &format!(" -{id}");
                }
            }
            fp = mix(fp ^ id as u64);
        }
        let mut want = at;
        while used.contains(&want) {
            want = succ(want);
            skips += 1;
        }
        let got = subj(|| p.next_stream_id(&store)).map_err(|e| format!("{e} [{log}]"))?;
        if log.len() < 500 {
            log += &format!(" {got}");
        }
        ensure!(
            got == want,
            "call {i} returned {got}; the next ID in cyclic order not in use is {want} [{log}]"
        );
        if succ(want) < want {
            wraps += 1;
        }
        at = succ(want);
    }
    cx.obs.seen(fp ^ calls as u64);
    cx.obs.count("ids", calls as u64);
    cx.obs.count("ids_skipped_as_in_use", skips);
    cx.obs.count("wraps", wraps);
    cx.sample(|| log.clone());
    Ok(())
}

fn s01_fresh(cx: &mut Cx) -> Check {
    let server = cx.rng.bool();
    let p = subj(|| provider(server))?;
    let n = cx.rng.range(1, 40);
    sequence(cx, &p, start_of(server), n)
}

fn s01_long(cx: &mut Cx) -> Check {
    let server = cx.rng.bool();
    let p = subj(|| provider(server))?;
    let n = cx.rng.range(1000, 30_000);
    sequence(cx, &p, start_of(server), n)
}

/// Steps through consecutive IDs as fast as possible.
fn straight(p: &StreamIdProvider, store: &DashMap<u32, ()>, at: &mut u32, n: u64) -> Check {
    for _ in 0..n {
        let got = p.next_stream_id(store);
        if got != *at {
            return Err(format!("returned {got}, due was {at}"));
        }
        *at = succ(*at);
    }
    Ok(())
}

/// From the public constructors, as far as time allows; in the thorough
/// tier through a whole cycle.
fn s01_cycle(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let whole = cx.thorough;
    let total = Mutex::new(0u64);
    let wraps = Mutex::new(0u64);
    let progress = cx.progress;
    team(2, 1, |t, _| {
        let server = t == 1;
        let parity = start_of(server) & 1;
        subj(|| -> Check {
            let p = provider(server);
            let store = DashMap::new();
            let mut at = start_of(server);
            let mut n = 0u64;
            let goal = cycle(parity) + 100_000;
            while n < goal && (whole || Instant::now() < end) {
                straight(&p, &store, &mut at, 1 << 17).map_err(|e| format!("{e} after about {n} calls"))?;
                n += 1 << 17;
                progress.fetch_add(1, Ordering::Relaxed);
            }
            *total.lock().unwrap() += n;
            *wraps.lock().unwrap() += (n > cycle(parity)) as u64;
            Ok(())
        })?
    })?;
    cx.obs.count("ids_from_public_start", total.into_inner().unwrap());
    cx.obs.count("whole_cycles_from_public_start", wraps.into_inner().unwrap());
    cx.obs.seen(1);
    Ok(())
}

// ------------------------------------------------------------------- S02

#[derive(Clone, Copy)]
struct Taken {
    id: u32,
    from: u64,
    to: u64,
}

/// Where the provider of a round starts.
fn start(cx: &mut Cx, budget: u64) -> (StreamIdProvider, u32) {
    let server = cx.rng.bool();
    #[cfg(feature = "h-start")]
    {
        if cx.rng.chance(2, 3) {
            let parity = start_of(server) & 1;
            let first = match cx.rng.below(4) {
                0 => {
                    // Somewhere.
                    let x = (u31nz(cx) & !1) | parity;
                    if x == 0 { 2 } else { x }
                }
                _ => {
                    // So that the wrap comes within the round.
                    let last = if parity == 1 { MAX31 } else { MAX31 - 1 };
                    last - 2 * cx.rng.below(budget.max(1) as usize) as u32
                }
            };
            return (crate::hooks::ids_from(first as i32).unwrap(), first);
        }
    }
    let _ = budget;
    (provider(server), start_of(server))
}

fn real_time(all: &mut [Taken], first: u32) -> Check {
    let c = cycle(first & 1);
    let rel = |id: u32| (pos(id) + c - pos(first)) % c;
    // Ascending by start; compare with all that had ended before.
    let mut by_end: Vec<Taken> = all.to_vec();
    by_end.sort_by_key(|t| t.to);
    all.sort_by_key(|t| t.from);
    let mut j = 0;
    let mut best: Option<Taken> = None;
    for b in all.iter() {
        while j < by_end.len() && by_end[j].to < b.from {
            if best.is_none_or(|x| rel(by_end[j].id) > rel(x.id)) {
                best = Some(by_end[j]);
            }
            j += 1;
        }
        if let Some(a) = best {
            ensure!(
                rel(a.id) < rel(b.id),
                "the call that returned {} began after the one that returned {} had ended",
                b.id,
                a.id
            );
        }
    }
    Ok(())
}

struct Round {
    p: StreamIdProvider,
    first: u32,
    store: DashMap<u32, u8>,
    busy: HashSet<u32>,
    clock: Clock,
    waits: Vec<Vec<u32>>,
    register: bool,
    taken: Vec<Mutex<Vec<Taken>>>,
}

pub fn s02_rounds(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let n = if cfg!(miri) { 1 } else { 250 };
    loop {
        let threads = if cfg!(miri) { 3 } else { cx.rng.range(2, cx.threads.max(2)) };
        let mut rounds = vec![];
        for _ in 0..n {
            let calls = if cfg!(miri) { 2 } else { cx.rng.range(1, 8) };
            let total = (calls * threads) as u64;
            let (p, first) = start(cx, total);
            let store = DashMap::new();
            let mut busy = HashSet::new();
            if cx.rng.chance(2, 3) {
                let mut id = first;
                let dense = cx.rng.range(1, 5);
                // Or all of them, for a while.
                let (from, run) = match cx.rng.below(3) {
                    0 => (cx.rng.below(total as usize) as u64, cx.rng.range(6, 200) as u64),
                    _ => (0, 0),
                };
                for i in 0..total * 2 + run {
                    if i >= from && i < from + run || cx.rng.chance(dense, 8) {
                        store.insert(id, 1);
                        busy.insert(id);
                    }
                    id = succ(id);
                }
            }
            let slow = cx.rng.chance(1, 3);
            let waits = (0..threads)
                .map(|_| (0..calls).map(|_| if slow { cx.rng.below(150) as u32 } else { 0 }).collect())
                .collect();
            rounds.push(Round {
                p,
                first,
                store,
                busy,
                clock: Clock::default(),
                waits,
                register: cx.rng.bool(),
                taken: (0..threads).map(|_| Mutex::new(vec![])).collect(),
            });
        }
        team(threads, n, |t, r| {
            let r = &rounds[r];
            let mut v = Vec::with_capacity(8);
            subj(|| {
                for w in &r.waits[t] {
                    spin(*w);
                    let from = r.clock.now();
                    let id = r.p.next_stream_id(&r.store);
                    let to = r.clock.now();
                    v.push(Taken { id, from, to });
                    if r.register {
                        r.store.insert(id, 2);
                    }
                }
            })?;
            *r.taken[t].lock().unwrap() = v;
            Ok(())
        })?;
        for r in rounds {
            let mut all: Vec<Taken> = r.taken.iter().flat_map(|t| t.lock().unwrap().clone()).collect();
            let text = || {
                let mut s = format!("{} threads, first {}, {} in use;", r.taken.len(), r.first, r.busy.len());
                for t in &r.taken {
                    s += &format!(" {:?}", t.lock().unwrap().iter().map(|t| t.id).collect::<Vec<_>>());
                }
                s
            };
            let mut want = BTreeSet::new();
            let mut id = r.first;
            let mut wraps = 0;
            while want.len() < all.len() {
                if !r.busy.contains(&id) {
                    want.insert(id);
                }
                if succ(id) < id {
                    wraps += 1;
                }
                id = succ(id);
            }
            let got: BTreeSet<u32> = all.iter().map(|t| t.id).collect();
            ensure!(got.len() == all.len(), "an ID was issued twice [{}]", text());
            ensure!(
                got == want,
                "the IDs issued are not the next free ones: missing {:?}, unexpected {:?} [{}]",
                want.difference(&got).take(5).collect::<Vec<_>>(),
                got.difference(&want).take(5).collect::<Vec<_>>(),
                text()
            );
            real_time(&mut all, r.first).map_err(|e| format!("{e} [{}]", text()))?;
            let mut overlap = 0u64;
            for w in all.windows(2) {
                overlap += (w[1].from < w[0].to) as u64;
            }
            cx.obs.evals += 1;
            cx.obs.count("ids", all.len() as u64);
            cx.obs.count("rounds", 1);
            cx.obs.count("rounds_with_wrap", (wraps > 0) as u64);
            if overlap > 0 {
                cx.obs.count("rounds_with_overlap", 1);
                cx.obs.count("overlapping_pairs", overlap);
                cx.obs.seen(all.iter().fold(r.first as u64, |a, t| mix(a ^ t.id as u64 ^ mix(t.from << 16 | t.to))));
            }
            cx.sample(text);
        }
        cx.tick();
        if Instant::now() >= end {
            return Ok(());
        }
    }
}

/// Streams are registered and released while IDs are taken.
pub fn s02_dynamic(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    loop {
        let threads = if cfg!(miri) { 2 } else { cx.rng.range(2, cx.threads.max(2)) };
        let calls = if cfg!(miri) { 3 } else { cx.rng.range(20, 400) };
        let total = calls * threads;
        let (p, first) = start(cx, total as u64);
        let store: DashMap<u32, u8> = DashMap::new();
        let mut fixed = HashSet::new();
        let mut moving = vec![];
        let mut is_moving = HashSet::new();
        let mut id = first;
        for _ in 0..total * 2 {
            match cx.rng.below(8) {
                0 | 1 => {
                    store.insert(id, 1);
                    fixed.insert(id);
                }
                2 | 3 => {
                    moving.push(id);
                    is_moving.insert(id);
                }
                _ => {}
            }
            id = succ(id);
        }
        let stop = AtomicBool::new(false);
        let clock = Clock::default();
        let taken: Vec<Mutex<Vec<Taken>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
        let seed = cx.rng.u64();
        let left = std::sync::atomic::AtomicUsize::new(threads);
        let mut toggles = 0u64;
        let tog = Mutex::new(&mut toggles);
        team(threads + 1, 1, |t, _| {
            let mut rng = Rng::new(seed ^ t as u64);
            if t == threads {
                let mut n = 0;
                while !stop.load(Ordering::Relaxed) && !moving.is_empty() {
                    let id = *rng.pick(&moving);
                    if rng.bool() {
                        store.insert(id, 3);
                    } else {
                        store.remove(&id);
                    }
                    n += 1;
                    if cfg!(miri) {
                        std::thread::yield_now();
                    }
                }
                **tog.lock().unwrap() += n;
                return Ok(());
            }
            let mut v = Vec::with_capacity(calls);
            let r = subj(|| {
                for _ in 0..calls {
                    let from = clock.now();
                    let id = p.next_stream_id(&store);
                    let to = clock.now();
                    v.push(Taken { id, from, to });
                }
            });
            if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                stop.store(true, Ordering::SeqCst);
            }
            r?;
            *taken[t].lock().unwrap() = v;
            Ok(())
        })?;
        let mut all: Vec<Taken> = taken.iter().flat_map(|t| t.lock().unwrap().clone()).collect();
        let got: HashSet<u32> = all.iter().map(|t| t.id).collect();
        let ctx = format!("{threads} threads x {calls} calls, first {first}");
        ensure!(got.len() == all.len(), "an ID was issued twice [{ctx}]");
        if let Some(id) = got.iter().find(|id| fixed.contains(id)) {
            return Err(format!("ID {id} was issued although it is in use throughout [{ctx}]"));
        }
        // Up to the furthest ID issued, every ID never in use was issued.
        let c = cycle(first & 1);
        let rel = |id: u32| (pos(id) + c - pos(first)) % c;
        let far = got.iter().map(|id| rel(*id)).max().unwrap_or(0);
        ensure!(far <= 2 * total as u64, "an ID far from the start was issued: {:?} [{ctx}]", got.iter().max_by_key(|i| rel(**i)));
        let mut id = first;
        for _ in 0..=far {
            ensure!(
                got.contains(&id) || fixed.contains(&id) || is_moving.contains(&id),
                "ID {id} was skipped although it was never in use [{ctx}]"
            );
            id = succ(id);
        }
        real_time(&mut all, first).map_err(|e| format!("{e} [{ctx}]"))?;
        let n = got.iter().filter(|i| is_moving.contains(i)).count() as u64;
        cx.obs.evals += 1;
        cx.obs.count("ids", all.len() as u64);
        cx.obs.count("store_changes", toggles);
        cx.obs.count("ids_issued_that_came_and_went", n);
        cx.obs.seen(all.iter().fold(first as u64, |a, t| mix(a ^ t.id as u64)));
        cx.tick();
        if Instant::now() >= end {
            return Ok(());
        }
    }
}

/// Full speed, nothing else in the way.
pub fn s02_bulk(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    loop {
        let threads = if cfg!(miri) { 3 } else { cx.rng.range(2, cx.threads.max(2)) };
        let calls = if cfg!(miri) { 4 } else { cx.rng.range(100, 20_000) };
        let (p, first) = start(cx, (threads * calls) as u64);
        let store: DashMap<u32, ()> = DashMap::new();
        if cx.rng.bool() {
            let mut id = first;
            for _ in 0..cx.rng.below(50) {
                store.insert(id, ());
                id = succ(succ(id));
            }
        }
        let taken: Vec<Mutex<Vec<u32>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
        team(threads, 1, |t, _| {
            let mut v = Vec::with_capacity(calls);
            subj(|| {
                for _ in 0..calls {
                    v.push(p.next_stream_id(&store));
                }
            })?;
            *taken[t].lock().unwrap() = v;
            Ok(())
        })?;
        let c = cycle(first & 1);
        let rel = |id: u32| (pos(id) + c - pos(first)) % c;
        let mut all: Vec<u32> = vec![];
        let mut switches = 0;
        for t in &taken {
            let t = t.lock().unwrap();
            if let Some(w) = t.windows(2).find(|w| rel(w[0]) >= rel(w[1])) {
                return Err(format!("one thread got {} and later {}", w[0], w[1]));
            }
            switches += t.windows(2).filter(|w| succ(w[0]) != w[1]).count() as u64;
            all.extend(t.iter());
        }
        all.sort_unstable_by_key(|i| rel(*i));
        let mut id = first;
        for (i, got) in all.iter().enumerate() {
            while store.contains_key(&id) {
                id = succ(id);
            }
            ensure!(
                *got == id,
                "in cyclic order, ID number {i} issued is {got}, due was {id} [{threads} threads x {calls} calls, first {first}]"
            );
            id = succ(id);
        }
        cx.obs.evals += 1;
        cx.obs.count("ids", all.len() as u64);
        cx.obs.count("interleavings_within_a_thread", switches);
        cx.obs.seen(mix(switches ^ mix(first as u64)));
        cx.tick();
        if Instant::now() >= end {
            return Ok(());
        }
    }
}

#[cfg(feature = "h-start")]
mod hooks {
    use super::*;

    pub fn s01_anywhere(cx: &mut Cx) -> Check {
        let parity = cx.rng.below(2) as u32;
        let last = if parity == 1 { MAX31 } else { MAX31 - 1 };
        let n = if cx.rng.chance(1, 20) { cx.rng.range(100, 2000) } else { cx.rng.range(1, 30) };
        let first = match cx.rng.below(6) {
            0..=2 => last - 2 * cx.rng.below(n) as u32,
            3 => {
                // The end of the second cycle, which the counter reaches as
                // a negative number.
                let back = cx.rng.below(n) as u32;
                let v = if parity == 1 { -1 } else { -2 } - 2 * back as i32;
                let p = subj(|| crate::hooks::ids_from(v).unwrap())?;
                return sequence(cx, &p, last - 2 * back, n);
            }
            _ => match (u31(cx) & !1) | parity {
                0 => 2,
                x => x,
            },
        };
        let p = subj(|| crate::hooks::ids_from(first as i32).unwrap())?;
        sequence(cx, &p, first, n)
    }

    /// Every ID follows its predecessor, for all of them.
    pub fn s01_ranges(cx: &mut Cx) -> Check {
        let threads = cx.threads.max(1);
        let end = Instant::now() + Duration::from_secs_f64(if cx.thorough { 1e6 } else { cx.secs * 3.0 + 20.0 });
        let progress = cx.progress;
        let done = Mutex::new(0u64);
        let skipped = Mutex::new(0u64);
        team(threads, 2, |t, r| {
            let parity = 1 - r as u32;
            let c = cycle(parity);
            let per = c / threads as u64 + 1;
            let from = t as u64 * per;
            let n = per.min(c.saturating_sub(from)) + 3;
            let mut at = (from * 2) as u32 + if parity == 1 { 1 } else { 2 };
            subj(|| -> Check {
                let p = crate::hooks::ids_from(at as i32).unwrap();
                let store = DashMap::new();
                let mut k = 0;
                while k < n {
                    if Instant::now() > end {
                        *skipped.lock().unwrap() += n - k;
                        break;
                    }
                    let m = (n - k).min(1 << 17);
                    straight(&p, &store, &mut at, m)?;
                    k += m;
                    progress.fetch_add(1, Ordering::Relaxed);
                }
                *done.lock().unwrap() += k;
                Ok(())
            })?
        })?;
        cx.obs.count("ids_over_whole_range", done.into_inner().unwrap());
        let s = skipped.into_inner().unwrap();
        cx.obs.count("ids_left_out_for_time", s);
        cx.obs.seen(2);
        Ok(())
    }
}
