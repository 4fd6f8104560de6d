//! Runtime monitors for mapkts/binate. See ../DESIGN.md.
// Numbers beyond a 32-bit word are not used there.
#![cfg_attr(target_pointer_width = "32", allow(arithmetic_overflow, overflowing_literals))]
mod bufs;
mod conn;
mod gen;
mod hooks;
#[macro_use]
mod kit;
mod model;
mod p_codec;
mod p_counter;
mod p_giant;
mod p_ids;
mod p_mem;
mod p_misc;
mod p_more;
mod p_payload;
mod p_socket;
mod team;

use kit::*;
use std::collections::HashMap;
use std::fs::{File, OpenOptions};
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: Counting = Counting;

fn workloads(prop: &str) -> Vec<Workload> {
    let mut v = p_codec::workloads(prop);
    v.extend(p_payload::workloads(prop));
    v.extend(p_counter::workloads(prop));
    v.extend(p_ids::workloads(prop));
    v.extend(p_misc::workloads(prop));
    v.extend(p_socket::workloads(prop));
    v.extend(p_more::workloads(prop));
    v.extend(p_mem::workloads(prop));
    let here = if cfg!(debug_assertions) {
        Profile::Debug
    } else {
        Profile::Release
    };
    v.retain(|w| w.profile == Profile::Any || w.profile == here);
    v
}

struct Args(HashMap<String, String>);

impl Args {
    fn s(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
    fn f(&self, k: &str, d: f64) -> f64 {
        self.0.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

#[derive(Clone)]
struct Fail {
    workload: &'static str,
    kind: &'static str,
    val: u64,
    msg: String,
    harness: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs one case; the outcome of a panic outside `subj` depends on where it
/// came from.
fn run_case(w: &Workload, cx: &mut Cx) -> Result<(), (String, bool)> {
    cx.obs.evals += 1;
    match panic::catch_unwind(AssertUnwindSafe(|| (w.f)(cx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => {
            let harness = m.starts_with("HARNESS")
                || m.contains("panic '") && m.contains("' at src/");
            Err((m, harness))
        }
        Err(_) => {
            reset_depth();
            let (m, l) = last_panic().unwrap_or_default();
            // Harness sources are relative paths, the code under test and
            // its dependencies have absolute ones.
            let harness = l.starts_with("src/");
            Err((format!("unexpected panic '{m}' at {l}"), harness))
        }
    }
}

fn case_seed(seed: u64, w: &str, worker: u64, n: u64) -> u64 {
    mix(seed ^ mix(fnv(w.as_bytes())) ^ mix(worker << 48 | n))
}

struct Slot {
    file: Option<File>,
    progress: AtomicU64,
    tid: AtomicU64,
    active: AtomicBool,
    desc: Mutex<(&'static str, &'static str, u64)>,
}

impl Slot {
    fn set(&self, w: &'static str, kind: &'static str, val: u64) {
        *self.desc.lock().unwrap() = (w, kind, val);
        if let Some(f) = &self.file {
            let s = format!("{w} {kind} {val}\n{:80}", "");
            let _ = f.write_all_at(&s.as_bytes()[..80.min(s.len())], 0);
        }
        self.progress.fetch_add(1, Ordering::Relaxed);
    }
}

fn gettid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

fn cpu_ms(tid: u64) -> Option<u64> {
    let s =
        std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: u64 = f.get(11)?.parse().ok()?;
    let k: u64 = f.get(12)?.parse().ok()?;
    Some((u + k) * 10)
}

fn run(a: &Args) -> i32 {
    let t0 = Instant::now();
    let prop = a.s("prop").to_string();
    let thorough = a.s("tier") == "thorough";
    let seed = a.n("seed", 1);
    let secs = a.f("secs", 5.0);
    let scout = a.n("scout", 0) > 0;
    let threads = a.n("threads", 8) as usize;
    let dict = Dict::load(a.s("dict"));
    let only = a.s("only").to_string();
    let hang_cpu = a.n("hang-cpu-ms", 45_000);
    let slow = a.n("slow-ms", 0);
    let hang_idle = a.n("hang-idle-ms", 60_000);
    let mut ws = workloads(&prop);
    if !only.is_empty() {
        ws.retain(|w| only.split(',').any(|o| o == w.name));
    }
    if ws.is_empty() {
        eprintln!("no workloads for {prop}");
        return 2;
    }
    let slots: Vec<Slot> = (0..=threads)
        .map(|i| Slot {
            file: (!a.s("slots").is_empty())
                .then(|| {
                    OpenOptions::new()
                        .create(true)
                        .write(true)
                        .truncate(true)
                        .open(format!("{}/slot{}", a.s("slots"), i))
                        .ok()
                })
                .flatten(),
            progress: AtomicU64::new(0),
            tid: AtomicU64::new(0),
            active: AtomicBool::new(false),
            desc: Mutex::new(("", "", 0)),
        })
        .collect();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let fail: Mutex<Option<Fail>> = Mutex::new(None);
    let total: Mutex<Obs> = Mutex::new(Obs::default());
    let mut exhaustive: Vec<&'static str> = vec![];
    let report = |f: Fail| {
        let mut g = fail.lock().unwrap();
        // A violation outranks a harness error.
        let better = match &*g {
            None => true,
            Some(o) => o.harness && !f.harness,
        };
        if better {
            *g = Some(f);
        }
        stop.store(true, Ordering::SeqCst);
    };

    std::thread::scope(|sc| {
        // Hang monitor: CPU time of one case, or no CPU time at all.
        let slots_ref = &slots;
        let done_ref = &done;
        sc.spawn(move || {
            let mut seen: Vec<(u64, u64, Instant)> =
                vec![(u64::MAX, 0, Instant::now()); slots_ref.len()];
            while !done_ref.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for (i, s) in slots_ref.iter().enumerate() {
                    if !s.active.load(Ordering::SeqCst) {
                        seen[i].0 = u64::MAX;
                        continue;
                    }
                    let p = s.progress.load(Ordering::Relaxed);
                    let c = cpu_ms(s.tid.load(Ordering::SeqCst)).unwrap_or(0);
                    if p != seen[i].0 {
                        seen[i] = (p, c, Instant::now());
                        continue;
                    }
                    let busy = c.saturating_sub(seen[i].1);
                    let wall = seen[i].2.elapsed().as_millis() as u64;
                    if slow > 0 && busy > slow {
                        eprintln!("SLOW {:?} {busy} ms", s.desc.lock().unwrap());
                    }
                    if busy > hang_cpu || (busy < 100 && wall > hang_idle) {
                        let d = *s.desc.lock().unwrap();
                        eprintln!(
                            "HANG {} {} {} cpu_ms={busy} wall_ms={wall}",
                            d.0, d.1, d.2
                        );
                        std::process::exit(77);
                    }
                }
            }
        });

        let activate = |slot: &Slot, on: bool| {
            slot.tid.store(gettid(), Ordering::SeqCst);
            slot.progress.fetch_add(1, Ordering::SeqCst);
            slot.active.store(on, Ordering::SeqCst);
        };

        // Sweeps.
        for w in &ws {
            let Kind::Sweep(q, t) = w.kind else { continue };
            let n = if thorough { t } else { q };
            if stop.load(Ordering::SeqCst) {
                break;
            }
            let next = AtomicU64::new(0);
            // Scouts take a sample of the sweep, and not for long.
            let began = Instant::now();
            let stride = if scout { (n / 1500).max(1) | 1 } else { 1 };
            let step = (n / (threads as u64 * 32)).clamp(1, 4096);
            std::thread::scope(|sc| {
                for slot in &slots[..threads] {
                    let (next, stop, report) = (&next, &stop, &report);
                    let (dict, total) = (&dict, &total);
                    let activate = &activate;
                    sc.spawn(move || {
                        activate(slot, true);
                        let mut obs = Obs::default();
                        'o: loop {
                            let from = next.fetch_add(step, Ordering::SeqCst);
                            if from >= n {
                                break;
                            }
                            for idx in from..(from + step).min(n) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'o;
                                }
                                if idx % stride != 0 {
                                    continue;
                                }
                                if scout && began.elapsed().as_secs() >= 3 {
                                    break 'o;
                                }
                                slot.set(w.name, "idx", idx);
                                let mut cx = Cx {
                                    rng: Rng::new(case_seed(
                                        0, w.name, 0, idx,
                                    )),
                                    dict,
                                    obs: &mut obs,
                                    workload: w.name,
                                    thorough,
                                    idx,
                                    progress: &slot.progress,
                                    secs: 0.0,
                                    threads: 1,
                                    note: None,
                                };
                                if let Err((msg, harness)) =
                                    run_case(w, &mut cx)
                                {
                                    report(Fail {
                                        workload: w.name,
                                        kind: "idx",
                                        val: idx,
                                        msg,
                                        harness,
                                    });
                                }
                            }
                        }
                        total.lock().unwrap().merge(obs);
                        activate(slot, false);
                    });
                }
            });
            if !stop.load(Ordering::SeqCst) && !scout {
                exhaustive.push(w.name);
            }
        }

        // Exclusive workloads.
        for w in &ws {
            let Kind::Custom(share) = w.kind else { continue };
            if stop.load(Ordering::SeqCst) {
                break;
            }
            let slot = &slots[threads];
            activate(slot, true);
            let mut obs = Obs::default();
            let s = case_seed(seed, w.name, 0, 0);
            slot.set(w.name, "seed", s);
            let mut cx = Cx {
                rng: Rng::new(s),
                dict: &dict,
                obs: &mut obs,
                workload: w.name,
                thorough,
                idx: 0,
                progress: &slot.progress,
                secs: secs * share as f64 / 1000.0,
                threads,
                note: None,
            };
            if let Err((msg, harness)) = run_case(w, &mut cx) {
                report(Fail {
                    workload: w.name,
                    kind: "seed",
                    val: s,
                    msg,
                    harness,
                });
            }
            total.lock().unwrap().merge(obs);
            activate(slot, false);
        }

        // Random workloads.
        let mut wheel: Vec<&Workload> = vec![];
        for w in &ws {
            if let Kind::Random(n) = w.kind {
                for _ in 0..n {
                    wheel.push(w);
                }
            }
        }
        if !wheel.is_empty() && !stop.load(Ordering::SeqCst) {
            let customs: u32 = ws
                .iter()
                .map(|w| if let Kind::Custom(s) = w.kind { s } else { 0 })
                .sum();
            let left = 1000u32.saturating_sub(customs).max(50) as f64;
            let deadline =
                Instant::now() + Duration::from_secs_f64(secs * left / 1000.0);
            std::thread::scope(|sc| {
                for (i, slot) in slots[..threads].iter().enumerate() {
                    let (stop, report, total) = (&stop, &report, &total);
                    let (dict, wheel) = (&dict, &wheel);
                    let activate = &activate;
                    sc.spawn(move || {
                        activate(slot, true);
                        let mut obs = Obs::default();
                        let mut n = 0u64;
                        let mut wi = i;
                        while !stop.load(Ordering::Relaxed)
                            && (n < 16 || Instant::now() < deadline)
                        {
                            let w = wheel[wi % wheel.len()];
                            wi += 1;
                            for _ in 0..8 {
                                let s =
                                    case_seed(seed, w.name, i as u64 + 1, n);
                                n += 1;
                                slot.set(w.name, "seed", s);
                                let mut cx = Cx {
                                    rng: Rng::new(s),
                                    dict,
                                    obs: &mut obs,
                                    workload: w.name,
                                    thorough,
                                    idx: 0,
                                    progress: &slot.progress,
                                    secs: 0.0,
                                    threads: 1,
                                    note: None,
                                };
                                if let Err((msg, harness)) =
                                    run_case(w, &mut cx)
                                {
                                    report(Fail {
                                        workload: w.name,
                                        kind: "seed",
                                        val: s,
                                        msg,
                                        harness,
                                    });
                                    break;
                                }
                            }
                        }
                        total.lock().unwrap().merge(obs);
                        activate(slot, false);
                    });
                }
            });
        }
        done.store(true, Ordering::SeqCst);
    });

    let fail = fail.into_inner().unwrap();
    let mut obs = total.into_inner().unwrap();
    if !a.s("dump-dict").is_empty() {
        let mut d = Dict::observed();
        d.nums.extend(&dict.nums);
        d.nums.sort_unstable();
        d.nums.dedup();
        d.strs.extend(dict.strs.clone());
        d.strs.sort();
        d.strs.dedup();
        std::fs::write(a.s("dump-dict"), d.text()).unwrap();
    }
    let (hit, edges) = coverage();
    let mut j = String::from("{");
    match &fail {
        None => j += "\"verdict\":\"held\"",
        Some(f) => {
            j += &format!(
                "\"verdict\":{},\"workload\":{},\"kind\":{},\"value\":\"{}\",\"message\":{}",
                esc(if f.harness { "harness" } else { "violation" }),
                esc(f.workload),
                esc(f.kind),
                f.val,
                esc(&f.msg)
            )
        }
    }
    j += &format!(
        ",\"evaluations\":{},\"distinct\":{},\"distinct_over\":{},\"cov_hit\":{hit},\"cov_edges\":{edges},\"wall\":{:.2}",
        obs.evals,
        obs.distinct.len(),
        obs.distinct_over,
        t0.elapsed().as_secs_f64()
    );
    j += ",\"debug\":";
    j += if cfg!(debug_assertions) { "true" } else { "false" };
    j += ",\"dict\":";
    j += &dict.nums.len().to_string();
    j += ",\"exhaustive\":[";
    j += &exhaustive.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    j += "],\"workloads\":[";
    j += &ws.iter().map(|w| esc(w.name)).collect::<Vec<_>>().join(",");
    let delays = team::delays_injected();
    if delays > 0 {
        obs.counts.insert("delays_injected_by_signals", delays);
    }
    j += "],\"counts\":{";
    j += &obs
        .counts
        .iter()
        .map(|(k, v)| format!("{}:{}", esc(k), v))
        .collect::<Vec<_>>()
        .join(",");
    j += "},\"samples\":[";
    j += &obs
        .samples
        .iter()
        .flat_map(|(k, v)| v.iter().map(move |s| esc(&format!("{k}: {s}"))))
        .collect::<Vec<_>>()
        .join(",");
    j += "]}\n";
    if a.s("out").is_empty() {
        print!("{j}");
    } else {
        std::fs::write(a.s("out"), j).unwrap();
    }
    match fail {
        None => 0,
        Some(f) => {
            eprintln!(
                "{} {} {} {}: {}",
                if f.harness { "HARNESS" } else { "FAIL" },
                f.workload,
                f.kind,
                f.val,
                f.msg
            );
            if f.harness {
                2
            } else {
                1
            }
        }
    }
}

/// Runs a single case: `one --prop P --workload W --seed S | --idx I`.
fn one(a: &Args) -> i32 {
    let dict = Dict::load(a.s("dict"));
    let ws = workloads(a.s("prop"));
    let Some(w) = ws.iter().find(|w| w.name == a.s("workload")) else {
        eprintln!("no such workload");
        return 2;
    };
    let mut obs = Obs::default();
    let progress = AtomicU64::new(0);
    let idx = a.n("idx", 0);
    let seed = if a.0.contains_key("seed") {
        a.n("seed", 0)
    } else {
        case_seed(0, w.name, 0, idx)
    };
    // Attribute crashes and hangs through a worker thread, like `run`.
    let r = std::thread::scope(|sc| {
        sc.spawn(|| {
            let mut cx = Cx {
                rng: Rng::new(seed),
                dict: &dict,
                obs: &mut obs,
                workload: w.name,
                thorough: a.s("tier") == "thorough",
                idx,
                progress: &progress,
                secs: a.f("secs", 5.0),
                threads: a.n("threads", 8) as usize,
                note: Some(String::new()),
            };
            let r = run_case(w, &mut cx);
            (r, cx.note)
        })
        .join()
        .unwrap()
    });
    let (r, note) = r;
    if let Some(n) = note {
        if !n.is_empty() {
            println!("case: {n}");
        }
    }
    for (k, v) in &obs.samples {
        for s in v {
            println!("{k}: {s}");
        }
    }
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err((m, h)) => {
            println!("{}: {m}", if h { "HARNESS" } else { "FAIL" });
            if h {
                2
            } else {
                1
            }
        }
    }
}

fn main() {
    install_panic_hook();
    p_socket::install_tracing();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = HashMap::new();
    let rest: Vec<String> = it.collect();
    let mut i = 0;
    while i + 1 < rest.len() {
        m.insert(
            rest[i].trim_start_matches("--").to_string(),
            rest[i + 1].clone(),
        );
        i += 2;
    }
    let a = Args(m);
    let code = match cmd.as_str() {
        "run" => run(&a),
        "one" => one(&a),
        "mini" => match p_mem::mini(
            a.s("prop"),
            a.n("seed", 1),
            a.n("n", 20),
        ) {
            Ok(()) => 0,
            Err(m) => {
                println!("FAIL: {m}");
                1
            }
        },
        "start" => {
            let (n, odd) = p_mem::start(
                a.n("seed", 1),
                a.n("threads", 4) as usize,
                a.n("n", 6) as usize,
            );
            println!("START {n}");
            for o in &odd {
                println!("FAIL: {o}");
            }
            !odd.is_empty() as i32
        }
        "cross" => {
            let only = (!a.s("prop").is_empty()).then(|| {
                (a.s("prop").to_string(), a.s("workload").to_string(), a.n("seed", 1))
            });
            p_mem::cross(a.n("seed", 1), a.n("part", 0), a.n("parts", 1), a.f("secs", 5.0), only)
        }
        "list" => {
            for w in workloads(a.s("prop")) {
                println!("{}", w.name);
            }
            0
        }
        _ => {
            eprintln!("usage: mon run|one|list");
            2
        }
    };
    std::process::exit(code);
}
