//! Runs the sub-checks of one property: fixed case counts, deterministic seeds, shrinking,
//! replay files and the evidence report.

use crate::tape::{CaseResult, Ctx, TapeStrategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Sub {
    pub name: &'static str,
    /// how cases are made and what is non-trivial
    pub rule: &'static str,
    pub f: fn(&mut Ctx) -> CaseResult,
    pub tape: usize,
    pub quick: u64,
    pub thorough: u64,
    pub shrink: u32,
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub seed: u64,
    pub tape: Vec<u64>,
    pub message: String,
    pub case: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Run code under test that is allowed to refuse by panicking.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Default, Clone)]
struct SubStat {
    evaluations: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    wall: f64,
    kept: u64,
}

fn hash_words(name: &str, ws: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    for w in ws {
        for b in w.to_le_bytes().iter() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

pub fn run_case(sub: &Sub, tape: &[u64], want: bool, thorough: bool) -> (CaseResult, Vec<String>, BTreeMap<String, u64>, bool, u64) {
    let mut ctx = Ctx::new(tape, want, thorough);
    let r = match guard(|| (sub.f)(&mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {}", p)),
    };
    let h = hash_words(sub.name, ctx.consumed());
    (r, ctx.notes.clone(), ctx.labels.clone(), ctx.nontrivial, h)
}

fn seed_bytes(seed: u64, id: &str, sub: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut s = crate::tape::SplitMix(hash_words(&format!("{}/{}", id, sub), &[seed, shard]));
    for c in out.chunks_mut(8) {
        c.copy_from_slice(&s.next().to_le_bytes());
    }
    out
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub only: Option<String>,
    pub root: String,
}

const THREADS: u64 = 8;
/// shard number of the job that runs the kept tapes; sorts last, but a failure there is reported all the same
const KEPT: u64 = u64::max_value();
/// a single case that runs longer than this is reported as a failure to terminate
const CASE_LIMIT_S: u64 = 240;

struct Slot {
    since: Instant,
    sub: &'static str,
    tape: Vec<u64>,
}
static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: RefCell<usize> = RefCell::new(usize::max_value());
}
fn slot_enter(sub: &'static str, tape: &[u64]) {
    let mut v = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if *s == usize::max_value() {
            *s = v.len();
            v.push(None);
        }
        v[*s] = Some(Slot { since: Instant::now(), sub, tape: tape.to_vec() });
    });
}
fn slot_leave() {
    let mut v = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
    SLOT.with(|s| {
        let s = *s.borrow();
        if s < v.len() {
            v[s] = None;
        }
    });
}
fn start_watchdog(id: &'static str, root: String, seed: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let v = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
        for s in v.iter().flatten() {
            if s.since.elapsed().as_secs() > CASE_LIMIT_S {
                let message = format!("no result after {} s", CASE_LIMIT_S);
                let r = Replay { property: id.into(), sub: s.sub.into(), seed, tape: s.tape.clone(), message: message.clone(), case: vec![] };
                let dir = format!("{}/replays", root);
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{}/{}-{}-hang.json", dir, id, s.sub);
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
                println!("FAILURE {}/{}: {}", id, s.sub, message);
                println!("VIOLATION property={} replay={}", id, path);
                std::process::exit(1);
            }
        }
    });
}

/// Brings the quick tier of the cheap checks to some tens of seconds on 8 cores.
fn quick_factor(id: &str) -> u64 {
    match id {
        "C01" | "C02" | "C04" | "C06" | "C07" | "C08" | "C24" => 5,
        "C03" | "C10" | "C13" | "C16" | "C25" => 4,
        "C05" | "C09" | "C20" | "C21" => 3,
        "C14" => 6,
        "C18" => 12,
        "C12" => 2,
        _ => 1,
    }
}

pub fn run_prop(prop: &Prop, cfg: &RunCfg) -> i32 {
    let t0 = Instant::now();
    start_watchdog(prop.id, cfg.root.clone(), cfg.seed);
    let tapelog = std::env::var("VERIF_TAPELOG").ok();
    let threads = if tapelog.is_some() { 1 } else { THREADS };
    // jobs: (sub index, shard, cases)
    let mut jobs: Vec<(usize, u64, u64)> = vec![];
    for (i, s) in prop.subs.iter().enumerate() {
        if let Some(o) = &cfg.only {
            if o != s.name {
                continue;
            }
        }
        let q = s.quick * quick_factor(prop.id);
        let n = if cfg.thorough { s.thorough.max(q * 10) } else { q };
        let n = ((n as f64 * cfg.scale).ceil() as u64).max(1);
        let shards = THREADS.min(n).max(1);
        if !kept_tapes(s).is_empty() {
            jobs.push((i, KEPT, 0));
        }
        for k in 0..shards {
            let c = n / shards + if k < n % shards { 1 } else { 0 };
            jobs.push((i, k, c));
        }
    }
    // expensive shards first is not needed; interleave by shard so that sub-checks overlap
    jobs.sort_by_key(|j| j.1);
    let queue = Arc::new(Mutex::new(jobs));
    let stats: Arc<Mutex<Vec<SubStat>>> = Arc::new(Mutex::new(vec![SubStat::default(); prop.subs.len()]));
    let fails: Arc<Mutex<Vec<Replay>>> = Arc::new(Mutex::new(vec![]));

    std::thread::scope(|sc| {
        for _ in 0..threads {
            let queue = queue.clone();
            let stats = stats.clone();
            let fails = fails.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || loop {
                    let job = {
                        let mut q = queue.lock().unwrap();
                        if q.is_empty() {
                            break;
                        }
                        q.remove(0)
                    };
                    let sub = &prop.subs[job.0];
                    // one failure per sub-check is enough
                    if fails.lock().unwrap().iter().any(|f| f.sub == sub.name) {
                        continue;
                    }
                    let (st, fail) = if job.1 == KEPT { run_kept(prop, sub, kept_tapes(sub), cfg) } else { run_shard(prop, sub, job.1, job.2, cfg) };
                    {
                        let mut all = stats.lock().unwrap();
                        let s = &mut all[job.0];
                        s.evaluations += st.evaluations;
                        s.nontrivial += st.nontrivial;
                        s.hashes.extend(st.hashes);
                        for (k, v) in st.labels {
                            *s.labels.entry(k).or_insert(0) += v;
                        }
                        if s.samples.len() < 3 {
                            s.samples.extend(st.samples.into_iter().take(2));
                        }
                        s.wall += st.wall;
                        s.kept += st.kept;
                    }
                    if let Some(f) = fail {
                        fails.lock().unwrap().push(f);
                    }
                })
                .unwrap();
        }
    });

    let stats = stats.lock().unwrap().clone();
    let mut fails = fails.lock().unwrap().clone();
    fails.sort_by(|a, b| (a.sub.clone(), a.tape.clone()).cmp(&(b.sub.clone(), b.tape.clone())));
    fails.dedup_by(|a, b| a.sub == b.sub);

    let mut code = 0;
    if !fails.is_empty() {
        let dir = format!("{}/replays", cfg.root);
        let _ = std::fs::create_dir_all(&dir);
        for f in &fails {
            let h = hash_words(&f.sub, &f.tape);
            let path = format!("{}/{}-{}-{:016x}.json", dir, prop.id, f.sub, h);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(f).unwrap());
            println!("FAILURE {}/{}: {}", prop.id, f.sub, f.message);
            for c in &f.case {
                println!("    {}", c);
            }
            println!("VIOLATION property={} replay={}", prop.id, path);
            code = 1;
        }
    }

    // evidence
    let mut ev = 0u64;
    let mut dn = 0u64;
    let mut subs_json = vec![];
    let mut samples = vec![];
    let mut rules = vec![];
    for (s, st) in prop.subs.iter().zip(stats.iter()) {
        if st.evaluations == 0 {
            continue;
        }
        ev += st.evaluations;
        dn += st.hashes.len() as u64;
        rules.push(format!("[{}] {}", s.name, s.rule));
        let mut j = serde_json::json!({
            "sub_check": s.name, "evaluations": st.evaluations, "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.hashes.len(), "classes": st.labels,
            "cpu_s": (st.wall * 100.0).round() / 100.0,
        });
        if let Ok(d) = std::env::var("VERIF_TAPES") {
            let runs = std::fs::read_to_string(format!("{}/{}.runs", d, s.name)).ok().and_then(|x| x.trim().parse::<u64>().ok());
            j["coverage_guided"] = serde_json::json!({ "executions": runs, "kept_tapes_rerun": st.kept });
        }
        subs_json.push(j);
        for x in &st.samples {
            samples.push(format!("[{}] {}", s.name, x));
        }
    }
    let evidence = serde_json::json!({
        "property": prop.id,
        "tier": if cfg.thorough {"thorough"} else {"quick"},
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": rules.join(" "),
            "samples": samples,
            "sub_checks": subs_json,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fails.len(),
    });
    let edir = format!("{}/evidence", cfg.root);
    let _ = std::fs::create_dir_all(&edir);
    if cfg.only.is_none() {
        std::fs::write(format!("{}/{}.json", edir, prop.id), serde_json::to_string_pretty(&evidence).unwrap())
            .expect("cannot write evidence");
    } else {
        println!("{}", serde_json::to_string_pretty(&evidence).unwrap());
    }
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s",
        prop.id,
        if cfg.thorough { "thorough" } else { "quick" },
        ev,
        dn,
        fails.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

/// Tapes kept by the coverage-guided search (thorough tier), each run like any other case.
fn kept_tapes(sub: &Sub) -> Vec<Vec<u64>> {
    let dir = match std::env::var("VERIF_TAPES") {
        Ok(d) => format!("{}/{}", d, sub.name),
        Err(_) => return vec![],
    };
    let mut names: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    names.iter().filter(|p| p.is_file()).filter_map(|p| std::fs::read(p).ok()).map(|b| crate::tape::from_bytes(&b, sub.tape)).collect()
}

/// Shrink a failing tape that did not come from the runner.
fn shrink(sub: &Sub, tape: Vec<u64>, cfg: &RunCfg) -> Vec<u64> {
    use proptest::strategy::ValueTree;
    let t0 = Instant::now();
    let mut tree = crate::tape::TapeTree::of(tape.clone());
    let mut best = tape;
    let mut left = sub.shrink;
    let mut more = tree.simplify();
    while more && left > 0 && t0.elapsed().as_secs() < 120 {
        left -= 1;
        let cur = tree.current();
        if run_case(sub, &cur, false, cfg.thorough).0.is_err() {
            best = cur;
            more = tree.simplify();
        } else {
            more = tree.complicate();
        }
    }
    best
}

fn run_kept(prop: &Prop, sub: &Sub, tapes: Vec<Vec<u64>>, cfg: &RunCfg) -> (SubStat, Option<Replay>) {
    let t0 = Instant::now();
    let mut s = SubStat::default();
    let mut fail = None;
    for tape in tapes {
        slot_enter(sub.name, &tape);
        let (r, _, labels, nt, h) = run_case(sub, &tape, false, cfg.thorough);
        slot_leave();
        s.evaluations += 1;
        s.kept += 1;
        for (k, v) in labels {
            *s.labels.entry(k).or_insert(0) += v;
        }
        if nt {
            s.nontrivial += 1;
            s.hashes.insert(h);
        }
        if r.is_err() {
            let mut tape = shrink(sub, tape, cfg);
            while tape.last() == Some(&0) {
                tape.pop();
            }
            let (r, notes, _, _, _) = run_case(sub, &tape, true, cfg.thorough);
            let message = r.err().unwrap_or_else(|| "did not reproduce on re-run".into());
            fail = Some(Replay { property: prop.id.into(), sub: sub.name.into(), seed: cfg.seed, tape, message, case: notes });
            break;
        }
    }
    s.wall = t0.elapsed().as_secs_f64();
    (s, fail)
}

fn run_shard(prop: &Prop, sub: &Sub, shard: u64, cases: u64, cfg: &RunCfg) -> (SubStat, Option<Replay>) {
    let t0 = Instant::now();
    let tapelog = std::env::var("VERIF_TAPELOG").ok();
    let st = RefCell::new(SubStat::default());
    let failed = RefCell::new(false);
    let mut config = Config::default();
    config.cases = cases as u32;
    config.failure_persistence = None;
    config.max_shrink_iters = std::env::var("VERIF_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(sub.shrink);
    config.max_shrink_time = 120_000;
    config.source_file = None;
    config.verbose = 0;
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(cfg.seed, prop.id, sub.name, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let res = runner.run(&TapeStrategy { len: sub.tape }, |tape| {
        let counting = !*failed.borrow();
        let want = counting && st.borrow().samples.len() < 2;
        if let Some(p) = &tapelog {
            let r = Replay { property: prop.id.into(), sub: sub.name.into(), seed: cfg.seed, tape: tape.clone(), message: "process died".into(), case: vec![] };
            let _ = std::fs::write(p, serde_json::to_string(&r).unwrap());
        }
        slot_enter(sub.name, &tape);
        let (r, notes, labels, nt, h) = run_case(sub, &tape, want, cfg.thorough);
        slot_leave();
        if counting {
            let mut s = st.borrow_mut();
            s.evaluations += 1;
            for (k, v) in labels {
                *s.labels.entry(k).or_insert(0) += v;
            }
            if nt {
                s.nontrivial += 1;
                s.hashes.insert(h);
                if want && !notes.is_empty() {
                    s.samples.push(notes.join("; "));
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                *failed.borrow_mut() = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    let fail = match res {
        Ok(()) => None,
        Err(TestError::Fail(reason, tape)) => {
            let (r, notes, _, _, _) = run_case(sub, &tape, true, cfg.thorough);
            let mut tape = tape;
            while tape.last() == Some(&0) {
                tape.pop();
            }
            let message = match r {
                Err(m) => m,
                Ok(()) => format!("{} (did not reproduce on re-run)", reason),
            };
            Some(Replay { property: prop.id.into(), sub: sub.name.into(), seed: cfg.seed, tape, message, case: notes })
        }
        Err(TestError::Abort(r)) => {
            eprintln!("{}/{}: aborted: {}", prop.id, sub.name, r);
            std::process::exit(2);
        }
    };
    let mut s = st.into_inner();
    s.wall = t0.elapsed().as_secs_f64();
    (s, fail)
}

pub fn replay(props: &[Prop], path: &str, thorough: bool) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read replay {}: {}", path, e);
            return 2;
        }
    };
    for p in props {
        if p.id != r.property {
            continue;
        }
        for s in &p.subs {
            if s.name != r.sub {
                continue;
            }
            let (res, notes, _, _, _) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || run_case(s, &r.tape, true, thorough))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            for n in notes {
                println!("    {}", n);
            }
            return match res {
                Ok(()) => {
                    println!("replay passes");
                    0
                }
                Err(m) => {
                    println!("FAILURE {}/{}: {}", p.id, s.name, m);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    1
                }
            };
        }
    }
    eprintln!("no such property/sub-check");
    2
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
