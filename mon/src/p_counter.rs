//! S03, S04: the request permit counter.
use crate::gen::*;
use crate::kit::*;
use crate::team::*;
use binate::connection::RequestCounter;
use std::collections::HashSet;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn workloads(prop: &str) -> Vec<Workload> {
    match prop {
        "S03" => vec![
            custom("histories", 500, s03_histories),
            custom("untimed-histories", 250, s03_untimed),
            custom("bulk", 250, s03_bulk),
        ],
        "S04" => vec![
            sweep("edges", 90 * 90, 90 * 90, s04_edges),
            random("sequences", 3, s04),
            random("long-sequences", 1, s04_long),
            custom("concurrent-additions", 250, s04_threads),
        ],
        _ => vec![],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add(u32),
    Dec,
    Load,
    IsZero,
}

/// The result of an operation, as a number; the new count.
fn step(op: Op, count: i64) -> (i64, i64) {
    match op {
        Op::Add(n) => (0, (count + n as i64).min(MAX31 as i64)),
        Op::Dec => (count, count - 1),
        Op::Load => (count, count),
        Op::IsZero => ((count == 0) as i64, count),
    }
}

fn act(c: &RequestCounter, op: Op) -> i64 {
    match op {
        Op::Add(n) => {
            c.add(n);
            0
        }
        Op::Dec => c.dec() as i64,
        Op::Load => c.load() as i64,
        Op::IsZero => c.is_zero() as i64,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Done {
    pub op: Op,
    pub res: i64,
    pub from: u64,
    pub to: u64,
}

/// Is there an order of the operations, consistent with each thread's order
/// and with real time, that gives these results?
pub fn linearizable(init: i64, threads: &[Vec<Done>], end: i64) -> bool {
    fn go(
        pos: &mut Vec<usize>,
        count: i64,
        threads: &[Vec<Done>],
        end: i64,
        seen: &mut HashSet<(Vec<usize>, i64)>,
    ) -> bool {
        if pos.iter().zip(threads).all(|(p, t)| *p == t.len()) {
            return count == end;
        }
        if !seen.insert((pos.clone(), count)) {
            return false;
        }
        // No operation may be placed before one that had already returned
        // when it was called.
        let bound = pos
            .iter()
            .zip(threads)
            .filter_map(|(p, t)| t.get(*p).map(|d| d.to))
            .min()
            .unwrap();
        for i in 0..threads.len() {
            let Some(d) = threads[i].get(pos[i]) else { continue };
            if d.from > bound {
                continue;
            }
            let (res, next) = step(d.op, count);
            if res != d.res {
                continue;
            }
            pos[i] += 1;
            if go(pos, next, threads, end, seen) {
                return true;
            }
            pos[i] -= 1;
        }
        false
    }
    go(&mut vec![0; threads.len()], init, threads, end, &mut HashSet::new())
}

struct Round {
    init: u32,
    counter: RequestCounter,
    programs: Vec<Vec<(Op, u32)>>,
    clock: Clock,
    done: Vec<Mutex<Vec<Done>>>,
}

fn gen_round(rng: &mut Rng, threads: usize) -> Round {
    let active = rng.range(2, threads.max(2)).min(threads.max(1));
    let ops = match active {
        2 => rng.range(1, 6),
        3 | 4 => rng.range(1, 4),
        _ => rng.range(1, 2),
    };
    let near_max = rng.chance(1, 4);
    let mut decs = 0;
    // Weights of the operations, so that some histories have only two kinds.
    let w: Vec<usize> = (0..4)
        .map(|_| if rng.chance(1, 4) { 0 } else { rng.range(1, 3) })
        .collect();
    let sum: usize = w.iter().sum();
    let slow = rng.chance(1, 3);
    let mut programs = vec![vec![]; threads];
    for p in programs.iter_mut().take(active) {
        for _ in 0..ops {
            let mut k = if sum == 0 { 0 } else { rng.below(sum) };
            let mut op = 1;
            for (i, x) in w.iter().enumerate() {
                if k < *x {
                    op = i;
                    break;
                }
                k -= x;
            }
            let op = match op {
                0 => Op::Add(match rng.below(6) {
                    0 => 0,
                    1 => 2,
                    2 if near_max => rng.below(10) as u32,
                    3 if near_max => MAX31,
                    4 => rng.below(1 << 20) as u32,
                    _ => 1,
                }),
                1 => {
                    decs += 1;
                    Op::Dec
                }
                2 => Op::Load,
                _ => Op::IsZero,
            };
            p.push((op, if slow { rng.below(200) as u32 } else { 0 }));
        }
    }
    let init = if near_max {
        MAX31 - rng.below(12) as u32
    } else {
        // The count stays within the protocol range in every order.
        decs + match rng.below(4) {
            0 => 1,
            1 => rng.below(1000) as u32,
            _ => 0,
        }
    };
    Round {
        init,
        counter: RequestCounter::new(init),
        programs,
        clock: Clock::default(),
        done: (0..threads).map(|_| Mutex::new(vec![])).collect(),
    }
}

fn run_rounds(rng: &mut Rng, threads: usize, n: usize, timed: bool) -> Result<Vec<Round>, String> {
    let rounds: Vec<Round> = (0..n).map(|_| gen_round(rng, threads)).collect();
    team(threads, n, |t, r| {
        let r = &rounds[r];
        let mut v = Vec::with_capacity(8);
        subj(|| {
            for (op, wait) in &r.programs[t] {
                spin(*wait);
                if timed {
                    let from = r.clock.now();
                    let res = act(&r.counter, *op);
                    let to = r.clock.now();
                    v.push(Done { op: *op, res, from, to });
                } else {
                    let res = act(&r.counter, *op);
                    v.push(Done { op: *op, res, from: 0, to: u64::MAX });
                }
            }
        })?;
        *r.done[t].lock().unwrap() = v;
        Ok(())
    })?;
    Ok(rounds)
}

fn judge(cx: &mut Cx, rounds: Vec<Round>) -> Check {
    for r in rounds {
        let hist: Vec<Vec<Done>> = r.done.iter().map(|d| d.lock().unwrap().clone()).collect();
        let all: Vec<&Done> = hist.iter().flatten().collect();
        let mut overlap = 0;
        for (i, h) in hist.iter().enumerate() {
            for g in &hist[i + 1..] {
                for a in h {
                    for b in g {
                        if a.from < b.to && b.from < a.to {
                            overlap += 1;
                        }
                    }
                }
            }
        }
        cx.obs.count("operations", all.len() as u64);
        cx.obs.count("histories", 1);
        cx.obs.evals += 1;
        if overlap > 0 {
            cx.obs.count("histories_with_overlap", 1);
            cx.obs.count("overlapping_pairs", overlap);
            // Which order, which results.
            let mut fp = r.init as u64;
            for h in &hist {
                for d in h {
                    let op = match d.op {
                        Op::Add(n) => 4 + n as u64,
                        Op::Dec => 1,
                        Op::Load => 2,
                        Op::IsZero => 3,
                    };
                    fp = mix(fp ^ op ^ mix(d.from ^ mix(d.to ^ mix(d.res as u64))));
                }
                fp = mix(fp);
            }
            cx.obs.seen(fp);
        }
        let text = || {
            let mut s = format!("initial count {};", r.init);
            for (i, h) in hist.iter().enumerate() {
                if h.is_empty() {
                    continue;
                }
                s += &format!(" thread {i}:");
                for d in h {
                    s += &match d.op {
                        Op::Add(_) => format!(" {:?}", d.op),
                        Op::IsZero => format!(" IsZero={}", d.res != 0),
                        _ => format!(" {:?}={}", d.op, d.res),
                    };
                    if d.to != u64::MAX {
                        s += &format!("[{}..{}]", d.from, d.to);
                    }
                }
                s += ";";
            }
            s
        };
        let end = subj(|| r.counter.load())? as i64;
        cx.sample(|| format!("{} final count {end}", text()));
        ensure!(
            linearizable(r.init as i64, &hist, end),
            "no order of the operations explains: {} final count {end}",
            text()
        );
    }
    Ok(())
}

fn many(cx: &mut Cx, timed: bool) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let n = if cfg!(miri) { 2 } else { 400 };
    loop {
        let threads = if cfg!(miri) {
            3
        } else {
            *cx.rng.pick(&[2, 2, 3, 3, 4, 6, 8])
        };
        let rounds = run_rounds(&mut cx.rng, threads.min(cx.threads.max(2)), n, timed)?;
        judge(cx, rounds)?;
        cx.tick();
        if Instant::now() >= end {
            return Ok(());
        }
    }
}

pub fn s03_histories(cx: &mut Cx) -> Check {
    many(cx, true)
}

pub fn s03_untimed(cx: &mut Cx) -> Check {
    many(cx, false)
}

/// Many operations at full speed; sums must work out.
pub fn s03_bulk(cx: &mut Cx) -> Check {
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    loop {
        let threads = cx.rng.range(2, cx.threads.max(2));
        let per = if cfg!(miri) { 10 } else { cx.rng.range(100, 20_000) };
        let mode = cx.rng.below(3);
        let seed = cx.rng.u64();
        let init = match mode {
            // Takes only, to exactly zero or not.
            0 => (threads * per) as u32 + cx.rng.below(3) as u32,
            // Mixed, never below zero.
            1 => (threads * per) as u32,
            // Adds that reach the maximum and must stay there.
            _ => MAX31 - cx.rng.below(threads * per) as u32,
        };
        let c = subj(|| RequestCounter::new(init))?;
        let taken: Vec<Mutex<Vec<i64>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
        let added: Vec<Mutex<i64>> = (0..threads).map(|_| Mutex::new(0)).collect();
        team(threads, 1, |t, _| {
            let mut rng = Rng::new(seed ^ t as u64);
            let mut mine = Vec::with_capacity(per);
            let mut sum = 0i64;
            subj(|| -> Check {
                for _ in 0..per {
                    match mode {
                        0 => mine.push(c.dec() as i64),
                        1 => match rng.below(8) {
                            0..=3 => mine.push(c.dec() as i64),
                            4..=6 => {
                                let n = rng.below(4) as u32;
                                sum += n as i64;
                                c.add(n);
                            }
                            _ => {
                                let n = c.load() as i64;
                                ensure!(n >= 0 && n <= init as i64 + 4 * (threads * per) as i64, "load() is {n}, out of any reachable range");
                            }
                        },
                        _ => {
                            let a = c.load();
                            c.add(rng.below(3) as u32);
                            let b = c.load();
                            ensure!(b >= a && a >= init as i32, "count went from {a} to {b} while permits were only added");
                        }
                    }
                }
                Ok(())
            })??;
            *taken[t].lock().unwrap() = mine;
            *added[t].lock().unwrap() = sum;
            Ok(())
        })
        .map_err(|e| format!("{e} [{threads} threads x {per} operations, initial count {init}, mode {mode}]"))?;
        let mut all: Vec<i64> = vec![];
        for t in &taken {
            let t = t.lock().unwrap();
            if mode == 0 {
                ensure!(t.windows(2).all(|w| w[0] > w[1]), "one thread's takes do not decrease");
            }
            all.extend(t.iter());
        }
        let sum: i64 = added.iter().map(|a| *a.lock().unwrap()).sum();
        let last = subj(|| c.load())? as i64;
        cx.obs.count("bulk_operations", (threads * per) as u64);
        cx.obs.evals += 1;
        cx.obs.seen(mix(seed));
        if mode < 2 {
            let want = init as i64 + sum - all.len() as i64;
            ensure!(last == want, "after {} takes and {sum} permits added to {init}, the count is {last} instead of {want} [{threads} threads]", all.len());
        }
        if mode == 0 {
            all.sort_unstable();
            ensure!(all.windows(2).all(|w| w[0] + 1 == w[1]), "a permit was taken twice or lost [{threads} threads, initial count {init}]");
            let z = subj(|| c.is_zero())?;
            ensure!(z == (last == 0), "is_zero() is {z} at count {last}");
        }
        cx.tick();
        if Instant::now() >= end {
            return Ok(());
        }
    }
}

// ------------------------------------------------------------------- S04

fn s04_run(init: u32, ops: &[Op], spelled: bool) -> Check {
    let mut count = init as i64;
    let mut log = String::new();
    subj(|| -> Check {
        let c = RequestCounter::new(init);
        for (i, op) in ops.iter().enumerate() {
            if spelled && i < 40 {
                log += &format!(" {op:?}");
            }
            let (res, next) = step(*op, count);
            let got = act(&c, *op);
            ensure!(got == res, "operation {i} ({op:?}) at count {count} gives {got} instead of {res}");
            count = next;
            let now = c.load() as i64;
            ensure!(now == count, "after operation {i} ({op:?}) the count is {now} instead of {count}");
            let z = c.is_zero();
            ensure!(z == (count == 0), "is_zero() is {z} at count {count}");
        }
        ensure!(!format!("{c:?}").is_empty(), "no debug text");
        Ok(())
    })
    .and_then(|x| x)
    .map_err(|e| format!("{e} [initial count {init};{log}]"))
}

fn edge(i: u64) -> u32 {
    let i = i as u32;
    let e = match i {
        0..=30 => 1 << i,
        31..=61 => (1 << (i - 31)) - 1,
        62..=76 => MAX31 - (i - 62),
        _ => [0, 3, 5, 10, 100, 1000, 65_535, 65_537, 0x1234_5678, 0x5555_5555, 0x2AAA_AAAA, 0x7FFF_0000, 0x7FFF_FF00][(i - 77) as usize % 13],
    };
    e & MAX31
}

fn s04_edges(cx: &mut Cx) -> Check {
    let (a, b) = (edge(cx.idx % 90), edge(cx.idx / 90));
    cx.obs.seen((a as u64) << 32 | b as u64);
    let mut ops = vec![Op::Load, Op::IsZero, Op::Add(b), Op::Load, Op::Add(a), Op::Add(0), Op::Add(1), Op::Dec, Op::Add(b), Op::Add(2)];
    if a > 0 {
        ops.insert(0, Op::Dec);
    }
    cx.obs.count("operations", ops.len() as u64);
    s04_run(a, &ops, true)
}

fn gen_ops(cx: &mut Cx, init: u32, n: usize) -> Vec<Op> {
    let mut count = init as i64;
    let mut v = Vec::with_capacity(n);
    let calm = cx.rng.chance(1, 3);
    for _ in 0..n {
        let op = match cx.rng.below(6) {
            0..=2 => Op::Add(if calm || cx.rng.chance(1, 3) {
                cx.rng.below(5) as u32
            } else if cx.rng.chance(1, 4) {
                // Just up to, or just over, the maximum.
                (MAX31 as i64 - count + cx.rng.below(5) as i64 - 2).clamp(0, MAX31 as i64) as u32
            } else {
                u31(cx)
            }),
            3 | 4 if count > 0 => Op::Dec,
            3 => Op::IsZero,
            _ => Op::Load,
        };
        count = step(op, count).1;
        v.push(op);
    }
    v
}

fn s04(cx: &mut Cx) -> Check {
    let init = u31(cx);
    let n = cx.rng.range(1, 12);
    let ops = gen_ops(cx, init, n);
    cx.obs.count("operations", ops.len() as u64);
    cx.obs.seen(ops.iter().fold(init as u64, |a, o| {
        mix(a ^ match o {
            Op::Add(n) => 4 + *n as u64,
            Op::Dec => 1,
            Op::Load => 2,
            Op::IsZero => 3,
        })
    }));
    cx.sample(|| format!("{init}: {ops:?}"));
    s04_run(init, &ops, true)
}

fn s04_long(cx: &mut Cx) -> Check {
    let init = if cx.rng.bool() { cx.rng.below(10) as u32 } else { u31(cx) };
    let n = cx.rng.range(100, 5000);
    let ops = gen_ops(cx, init, n);
    cx.obs.count("operations", ops.len() as u64);
    cx.obs.seen(cx.rng.u64());
    s04_run(init, &ops, true)
}

/// Several threads only add; each sees the count grow, and what is added by
/// all of them is what is there, up to the maximum.
fn s04_threads(cx: &mut Cx) -> Check {
    struct Adds {
        init: u32,
        c: RequestCounter,
        adds: Vec<Vec<u32>>,
        /// What each thread has read, before and after each addition.
        seen: Vec<Mutex<Vec<i32>>>,
    }
    let end = Instant::now() + Duration::from_secs_f64(cx.secs);
    let n = if cfg!(miri) { 2 } else { 300 };
    loop {
        let threads = if cfg!(miri) { 3 } else { *cx.rng.pick(&[2, 2, 3, 4, 8]) }.min(cx.threads.max(2));
        let mut rounds = vec![];
        for _ in 0..n {
            let most = if cx.rng.chance(1, 4) { 40 } else { 4 };
            let per = cx.rng.range(1, most);
            let total = (threads * per) as u64;
            // Amounts around 1, or such that the maximum is reached on the way.
            let big = (MAX31 as u64 / total.max(1)) as usize;
            let scale = match cx.rng.below(4) {
                0 => 3,
                1 => big + 1,
                2 => big * 2 + 1,
                _ => MAX31 as usize,
            };
            let adds: Vec<Vec<u32>> = (0..threads)
                .map(|_| (0..per).map(|_| cx.rng.below(scale.min(MAX31 as usize) + 1) as u32).collect())
                .collect();
            let sum: u64 = adds.iter().flatten().map(|n| *n as u64).sum();
            let init = match cx.rng.below(3) {
                0 => cx.rng.below(1000) as u32,
                // Some of them just reach it.
                1 => (MAX31 as u64).saturating_sub(cx.rng.below(sum.min(MAX31 as u64) as usize + 1) as u64) as u32,
                _ => u31(cx),
            };
            rounds.push(Adds {
                init,
                c: RequestCounter::new(init),
                adds,
                seen: (0..threads).map(|_| Mutex::new(vec![])).collect(),
            });
        }
        team(threads, n, |t, r| {
            let r = &rounds[r];
            let mut v = Vec::with_capacity(r.adds[t].len() * 2);
            subj(|| {
                for a in &r.adds[t] {
                    v.push(r.c.load());
                    r.c.add(*a);
                    v.push(r.c.load());
                }
            })?;
            *r.seen[t].lock().unwrap() = v;
            Ok(())
        })?;
        for r in rounds {
            let sum: u64 = r.adds.iter().flatten().map(|n| *n as u64).sum();
            let want = (r.init as u64 + sum).min(MAX31 as u64) as i64;
            let text = || {
                let mut s = format!("initial count {};", r.init);
                for (i, a) in r.adds.iter().enumerate() {
                    s += &format!(" thread {i} adds {:?} and reads {:?};", a, r.seen[i].lock().unwrap());
                }
                s.chars().take(2000).collect::<String>()
            };
            let mut between = 0;
            for (a, s) in r.adds.iter().zip(&r.seen) {
                let s = s.lock().unwrap();
                let mut last = r.init as i64;
                let mut own = r.init as i64;
                for (i, x) in s.iter().enumerate() {
                    let x = *x as i64;
                    ensure!(x >= last, "the count went from {last} to {x} while permits were only added [{}]", text());
                    if i % 2 == 1 {
                        let n = a[i / 2] as i64;
                        own = (own + n).min(MAX31 as i64);
                        let least = (last + n).min(MAX31 as i64);
                        ensure!(x >= least, "the count is {x} after {n} were added to at least {last} [{}]", text());
                    }
                    between += (x != own) as u64;
                    ensure!(x <= want, "the count is {x}, more than {want}, all there is [{}]", text());
                    last = x;
                }
            }
            let got = subj(|| (r.c.load() as i64, r.c.is_zero()))?;
            ensure!(got == (want, want == 0), "the count is {} (is_zero() is {}) instead of {want} [{}]", got.0, got.1, text());
            cx.obs.evals += 1;
            cx.obs.count("operations", r.adds.iter().map(|a| a.len() as u64).sum());
            cx.obs.count("concurrent_rounds", 1);
            cx.obs.count("concurrent_rounds_reaching_the_maximum", (r.init as u64 + sum > MAX31 as u64) as u64);
            if between > 0 {
                cx.obs.count("concurrent_rounds_with_interleaving", 1);
                cx.obs.seen(r.seen.iter().flat_map(|s| s.lock().unwrap().clone()).fold(r.init as u64, |a, x| mix(a ^ x as u64)));
            }
        }
        cx.tick();
        if Instant::now() >= end {
            return Ok(());
        }
    }
}
