//! Command line: seeded search, minimisation, replay, evidence.
use crate::engine::*;
use crate::f::{self, Prop};
use crate::host::{Stats, IN_CONTRACT};
use crate::json::{self, J};
use crate::rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn env_u(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn strhash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ strhash(prop)) ^ idx)
}

struct Found {
    idx: u64,
    seed: u64,
    run: Run,
}
#[derive(Default)]
struct Acc {
    stats: Stats,
    states: HashSet<u64>,
    digests: HashSet<u64>,
    runs: u64,
    nontrivial: u64,
    per_fam: BTreeMap<&'static str, u64>,
    found: Option<Found>,
    other: BTreeMap<String, u64>,
    samples: Vec<(u64, J)>,
}

pub fn main() -> i32 {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_CONTRACT.with(|c| c.get()) {
            prev(i)
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() > 2 => {
            let id = args[2].clone();
            big_stack(move || check(&id))
        }
        Some("replay") if args.len() > 2 => {
            let p = args[2].clone();
            big_stack(move || replay_file(&p, true).map(|v| if v.is_some() { 1 } else { 0 }).unwrap_or(2))
        }
        Some("selftest") => big_stack(selftest),
        Some("list") => {
            for p in f::PROPS {
                println!("{} {}", p.id, p.all().map(|f| f.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: sim check <property> | replay <file> | selftest | list");
            2
        }
    }
}
fn big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or(2)
}
fn prop(id: &str) -> Option<&'static Prop> {
    f::PROPS.iter().find(|p| p.id == id)
}

/// Does this run's violation belong to the property being decided?
fn relevant(p: &Prop, fam: &Fam, run: &Run) -> bool {
    let Some(v) = &run.viol else { return false };
    if !p.counts(fam, &v.class) {
        return false;
    }
    match p.mode {
        Mode::Plain => true,
        Mode::ReadOnly => v.class.starts_with("query-") || v.class.starts_with("callback-query"),
        Mode::Exit => v.class.starts_with("stuck:"),
        Mode::Logs => v.class.starts_with("events:") || v.class.starts_with("log-fold:"),
        // only what does not happen once the faults are taken out of the schedule
        Mode::Faults => match replay(fam, &run.cfg, &without_faults(&run.steps), p.mode).0 {
            None => true,
            Some(x) => x.class != v.class,
        },
    }
}

fn check(id: &str) -> i32 {
    let Some(p) = prop(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = env_u("VERIF_SEED", 1);
    let thorough = tier == "thorough";
    let cap = env_u("VERIF_RUNS", if thorough { u64::MAX } else { 150_000 });
    let wall = Duration::from_secs(env_u("VERIF_WALL", if thorough { 600 } else { 30 }));
    let threads = env_u("VERIF_THREADS", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8));
    let _ = dict();
    let next = Arc::new(AtomicU64::new(0));
    let best = Arc::new(AtomicU64::new(u64::MAX));
    let stop = Arc::new(AtomicBool::new(false));
    let acc = Arc::new(Mutex::new(Acc::default()));
    let beats: Arc<Vec<Mutex<(Instant, u64)>>> =
        Arc::new((0..threads).map(|_| Mutex::new((Instant::now(), u64::MAX))).collect());
    let mut hs = vec![];
    for th in 0..threads as usize {
        let (next, best, acc, beats, stop) = (next.clone(), best.clone(), acc.clone(), beats.clone(), stop.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut a = Acc::default();
                    loop {
                        let idx = next.fetch_add(1, SeqCst);
                        if idx >= cap || idx > best.load(SeqCst) || t0.elapsed() > wall || stop.load(SeqCst) {
                            break;
                        }
                        *beats[th].lock().unwrap() = (Instant::now(), idx);
                        let fam = p.fam(idx);
                        let rs = run_seed(seed, p.id, idx);
                        let n0 = a.stats.c.get("txs_ok").copied().unwrap_or(0);
                        let run = explore(fam, rs, p.mode, &mut a.stats, &mut a.states);
                        a.runs += 1;
                        *a.per_fam.entry(fam.name).or_insert(0) += 1;
                        if a.digests.insert(run.digest) && a.stats.c.get("txs_ok").copied().unwrap_or(0) > n0 {
                            a.nontrivial += 1;
                        }
                        if idx < 2 {
                            a.samples.push((
                                idx,
                                J::Obj(vec![
                                    ("family".into(), json::s(fam.name)),
                                    ("seed".into(), json::s(format!("{rs:#x}"))),
                                    ("config".into(), jcfg(&run.cfg)),
                                    ("steps_executed".into(), json::num(run.steps.len() as u64)),
                                    ("first_steps".into(), J::Arr(run.steps.iter().take(4).map(jstep).collect())),
                                ]),
                            ));
                        }
                        if run.viol.is_some() {
                            if relevant(p, fam, &run) {
                                best.fetch_min(idx, SeqCst);
                                if a.found.as_ref().map(|f| f.idx > idx).unwrap_or(true) {
                                    a.found = Some(Found { idx, seed: rs, run });
                                }
                            } else {
                                *a.other.entry(run.viol.unwrap().class).or_insert(0) += 1;
                            }
                        }
                    }
                    *beats[th].lock().unwrap() = (Instant::now(), u64::MAX);
                    let mut g = acc.lock().unwrap();
                    g.stats.merge(&a.stats);
                    g.states.extend(a.states);
                    g.runs += a.runs;
                    for d in a.digests {
                        g.digests.insert(d);
                    }
                    g.nontrivial += a.nontrivial;
                    for (k, v) in a.per_fam {
                        *g.per_fam.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in a.other {
                        *g.other.entry(k).or_insert(0) += v;
                    }
                    g.samples.extend(a.samples);
                    if let Some(f) = a.found {
                        if g.found.as_ref().map(|x| x.idx > f.idx).unwrap_or(true) {
                            g.found = Some(f);
                        }
                    }
                })
                .unwrap(),
        );
    }
    // progress bound: a run that computes without end (and without host calls) is itself a violation
    let limit = Duration::from_secs(env_u("VERIF_HANG", 150));
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for b in beats.iter() {
            let (t, idx) = *b.lock().unwrap();
            if idx != u64::MAX && t.elapsed() > limit {
                let fam = p.fam(idx);
                let path = format!("{}/replays/{}-hang-{}.json", root(), id, idx);
                let _ = std::fs::create_dir_all(format!("{}/replays", root()));
                let j = J::Obj(vec![
                    ("property".into(), json::s(id)),
                    ("family".into(), json::s(fam.name)),
                    ("hang_seed".into(), json::s(format!("{:#x}", run_seed(seed, p.id, idx)))),
                ]);
                let _ = std::fs::write(&path, j.text());
                println!("run {idx} of family {} makes no progress (bounded progress violated)", fam.name);
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
    }
    for h in hs {
        if h.join().is_err() {
            eprintln!("harness thread failed");
            return 2;
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let mut g = acc.lock().unwrap();
    let g = &mut *g;
    let mut code = 0;
    let mut nviol = 0;
    if let Some(f) = g.found.take() {
        nviol = 1;
        let fam = p.fam(f.idx);
        let v0 = f.run.viol.clone().unwrap();
        let steps = shrink(fam, &f.run.cfg, &f.run.steps, &v0.class, p.mode, &|st: &[Step2]| match p.mode {
            Mode::Faults => match replay(fam, &f.run.cfg, &without_faults(st), p.mode).0 {
                None => true,
                Some(x) => x.class != v0.class,
            },
            _ => true,
        });
        let (v, d) = replay(fam, &f.run.cfg, &steps, p.mode);
        let v = v.unwrap_or(v0.clone());
        let path = format!("{}/replays/{}-{}-{}.json", root(), id, seed, f.idx);
        let _ = std::fs::create_dir_all(format!("{}/replays", root()));
        let j = J::Obj(vec![
            ("property".into(), json::s(id)),
            ("family".into(), json::s(fam.name)),
            ("verif_seed".into(), json::num(seed)),
            ("run_index".into(), json::num(f.idx)),
            ("run_seed".into(), json::s(format!("{:#x}", f.seed))),
            ("class".into(), json::s(v.class.clone())),
            ("violation".into(), json::s(v.detail.clone())),
            ("at_step".into(), json::num(v.step as u64)),
            ("digest".into(), json::s(format!("{d:#x}"))),
            ("steps_before_minimisation".into(), json::num(f.run.steps.len() as u64)),
            ("config".into(), jcfg(&f.run.cfg)),
            ("steps".into(), J::Arr(steps.iter().map(jstep).collect())),
        ]);
        if let Err(e) = std::fs::write(&path, j.text()) {
            eprintln!("cannot write {path}: {e}");
            return 2;
        }
        println!("violation: family {} run {} (seed {:#x}): {} — {}", fam.name, f.idx, f.seed, v.class, v.detail);
        println!("minimised from {} to {} steps", f.run.steps.len(), steps.len());
        match replay_file(&path, false) {
            Some(Some(_)) => println!("replay reproduces it exactly"),
            _ => println!("note: replay did not reproduce it"),
        }
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    }
    for (k, d) in known_list() {
        if d.starts_with(&format!("property={id} ")) {
            println!("KNOWN-FINDING: {d} (met {} times in this run)", g.stats.c.get(k.as_str()).copied().unwrap_or(0));
        }
    }
    for (k, v) in &g.other {
        println!("note: {v} run(s) ended early with {k}, which is not this property");
    }
    evidence(p, &tier, seed, g, search, t0.elapsed().as_secs_f64(), nviol);
    println!(
        "{id}: {} runs, {} transactions, {} distinct states, {:.1} s",
        g.runs,
        g.stats.c.get("txs").copied().unwrap_or(0),
        g.states.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn evidence(p: &Prop, tier: &str, seed: u64, g: &mut Acc, search: f64, wall: f64, nviol: u64) {
    g.samples.sort_by_key(|x| x.0);
    let c = |k: &str| g.stats.c.get(k).copied().unwrap_or(0);
    let per_hour = if search > 0.0 { g.runs as f64 * 3600.0 / search } else { 0.0 };
    let faults = J::Obj(
        g.stats
            .c
            .iter()
            .filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k.to_string(), json::num(*v))))
            .collect(),
    );
    let cov = J::Obj(vec![
        ("evaluations".into(), json::num(g.runs)),
        ("distinct_nontrivial".into(), json::num(g.nontrivial.min(g.digests.len() as u64))),
        (
            "rule".into(),
            json::s("an evaluation is one simulated run (one seed); it is counted distinct and non-trivial if its execution digest (host-call counts, results and observed state after every step) differs from that of every other run and at least one transaction succeeded"),
        ),
        ("samples".into(), J::Arr(g.samples.iter().map(|x| x.1.clone()).collect())),
        ("runs_per_family".into(), J::Obj(g.per_fam.iter().map(|(k, v)| (k.to_string(), json::num(*v))).collect())),
        ("seeds_per_hour".into(), json::num(per_hour as u64)),
        ("simulated_seconds".into(), json::num(c("sim_seconds"))),
        ("transactions".into(), json::num(c("txs"))),
        ("transactions_succeeded".into(), json::num(c("txs_ok"))),
        ("transactions_failed_as_expected".into(), json::num(c("txs_failed"))),
        ("host_calls".into(), json::num(c("host_calls"))),
        ("scripted_peer_actions".into(), json::num(c("peer_plans_fired"))),
        ("queries_compared".into(), json::num(c("queries_compared"))),
        ("events_compared".into(), json::num(c("events_compared"))),
        ("peer_calls_compared".into(), json::num(c("peer_calls_compared"))),
        ("query_relations_checked".into(), json::num(c("query_relations_checked"))),
        ("logs_folded".into(), json::num(c("logs_folded"))),
        ("answers_compared_with_logs".into(), json::num(c("answers_compared_with_logs"))),
        ("exits_tried".into(), json::num(c("exits"))),
        ("exit_transactions".into(), json::num(c("exit_transactions"))),
        ("exit_positions_closed".into(), json::num(c("exit_positions"))),
        ("faults_injected".into(), faults),
        ("distinct_observed_states".into(), json::num(g.states.len() as u64)),
        (
            "distinct_states_measure".into(),
            json::s("64-bit hash of the answers of all compared getters after each successful step"),
        ),
        ("distinct_executions".into(), json::num(g.digests.len() as u64)),
        (
            "real_code".into(),
            json::s("the openzeppelin-stylus components of /repo/contracts in this property's families, the stylus-sdk router, ABI codec and storage types"),
        ),
        (
            "stubs".into(),
            json::s("the Arbitrum chain host (host I/O, VM storage cache, call frames, clock, ecrecover via k256), peer tokens, receivers, borrowers and accounts; the thin composing contracts in /verif/sim/src/c"),
        ),
        (
            "runs_ended_by_other_properties".into(),
            J::Obj(g.other.iter().map(|(k, v)| (k.clone(), json::num(*v))).collect()),
        ),
    ]);
    let j = J::Obj(vec![
        ("property".into(), json::s(p.id)),
        ("tier".into(), json::s(tier)),
        ("seed".into(), json::num(seed)),
        ("level".into(), json::s("exploration")),
        ("coverage".into(), cov),
        (
            "assumptions".into(),
            J::Arr(vec![
                json::s("host I/O semantics as implemented in sim/src/host.rs match the Arbitrum Stylus VM"),
                json::s("natively compiled contract code behaves like its wasm32 build"),
                json::s("the reference models in sim/src/m state the property correctly"),
            ]),
        ),
        ("wall_s".into(), J::Num(wall)),
        ("violations".into(), json::num(nviol)),
    ]);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root(), p.id), j.text());
}

/// Some(Some(v)): reproduced exactly; Some(None): no violation or a different one.
fn replay_file(path: &str, verbose: bool) -> Option<Option<Viol>> {
    let j = json::parse(&std::fs::read_to_string(path).ok()?)?;
    let p = prop(j.get("property").str())?;
    let fam = p.all().find(|f| f.name == j.get("family").str())?;
    if *j.get("hang_seed") != J::Null {
        let s = u64::from_str_radix(j.get("hang_seed").str().trim_start_matches("0x"), 16).ok()?;
        let r = explore(fam, s, p.mode, &mut Stats::default(), &mut HashSet::new());
        return Some(r.viol);
    }
    let cfg = cfgj(fam.name, j.get("config"));
    let steps: Vec<_> = j.get("steps").arr().iter().map(stepj).collect();
    let (v, d) = replay(fam, &cfg, &steps, p.mode);
    let want = j.get("class").str();
    match v {
        Some(v) => {
            let same = v.class == want
                && v.step as u64 == j.get("at_step").u()
                && format!("{d:#x}") == j.get("digest").str()
                && v.detail == j.get("violation").str();
            if verbose {
                println!("step {}: {} — {}", v.step, v.class, v.detail);
                println!("{}", if same { "identical to the recorded violation" } else { "differs from the recorded violation" });
                println!("VIOLATION property={} replay={}", p.id, path);
            }
            if same || verbose {
                Some(Some(v))
            } else {
                Some(None)
            }
        }
        None => {
            if verbose {
                println!("no violation on this tree");
            }
            Some(None)
        }
    }
}

/// Determinism: the same seed twice, and its recorded steps, give the same execution.
fn selftest() -> i32 {
    let mut bad = 0;
    for p in f::PROPS {
        for fam in p.all() {
            for k in 0..env_u("VERIF_RUNS", 6) {
                let s = run_seed(99, p.id, k);
                let (mut a, mut b) = (Stats::default(), Stats::default());
                let r1 = explore(fam, s, p.mode, &mut a, &mut HashSet::new());
                let r2 = explore(fam, s, p.mode, &mut b, &mut HashSet::new());
                if r1.digest != r2.digest || r1.steps != r2.steps || a.c != b.c {
                    println!("NOT DETERMINISTIC: {} {} seed {s:#x}", p.id, fam.name);
                    bad += 1;
                }
                let js = J::Arr(r1.steps.iter().map(jstep).collect());
                let back: Vec<_> = json::parse(&js.text()).unwrap().arr().iter().map(stepj).collect();
                if back != r1.steps {
                    println!("REPLAY FILE LOSSY: {} {} seed {s:#x}", p.id, fam.name);
                    bad += 1;
                }
                let (_, d1) = replay(fam, &r1.cfg, &r1.steps, p.mode);
                let (_, d2) = replay(fam, &r1.cfg, &back, p.mode);
                if d1 != d2 {
                    println!("REPLAY DIFFERS: {} {} seed {s:#x}", p.id, fam.name);
                    bad += 1;
                }
            }
        }
    }
    println!("selftest: {bad} problem(s)");
    if bad == 0 {
        0
    } else {
        2
    }
}
pub type Step2 = crate::core::Step;
