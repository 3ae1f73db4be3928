//! Check runner: a supervised child process executes a fixed number of seeded
//! episodes on worker threads, each in a thread of its own, collects what the
//! monitors saw, and decides.
use crate::rt::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one episode observed.
pub struct Ep {
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    pub rng: Rng_,
    pub counters: BTreeMap<&'static str, u64>,
    sig: blake3::Hasher,
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub evaluations: u64,
    pub known: Vec<&'static str>,
}

impl Ep {
    pub fn new(seed: u64, index: u64, thorough: bool) -> Self {
        Ep {
            seed,
            index,
            thorough,
            rng: Rng_::seed_from_u64(seed),
            counters: BTreeMap::new(),
            sig: blake3::Hasher::new(),
            nontrivial: false,
            log: vec![],
            evaluations: 1,
            known: vec![],
        }
    }
    /// Count an observed event.
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// Record one step of the execution; the sequence of steps is what makes
    /// two episodes distinct.
    pub fn step(&mut self, s: impl AsRef<str>) {
        self.sig.update(s.as_ref().as_bytes());
        self.sig.update(b"\n");
        if self.log.len() < 400 {
            self.log.push(s.as_ref().to_string());
        }
    }
    pub fn csprng(&self, salt: u64) -> Csprng {
        Csprng::new(self.seed ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
}

pub type EpResult = Result<(), String>;
pub type EpFn = fn(&mut Ep) -> EpResult;

pub struct Finding {
    /// Identifier in known-findings.json.
    pub id: &'static str,
    /// Drives the specific failing history. `Some(what fails)` while it fails.
    pub run: fn() -> Result<Option<String>, String>,
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: EpFn,
}

pub struct CheckDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub workloads: &'static [Workload],
    /// Counters that must be nonzero, or the run observed too little to decide.
    pub need: &'static [&'static str],
    pub findings: &'static [Finding],
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct RunOut {
    pub evaluations: u64,
    pub episodes: u64,
    pub distinct: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Viol>,
    pub harness_errors: Vec<String>,
    pub stopped_early: bool,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Viol {
    pub workload: String,
    pub index: u64,
    pub seed: u64,
    pub detail: String,
    pub log: Vec<String>,
}

pub fn ep_seed(seed: u64, check: &str, workload: &str, index: u64) -> u64 {
    let mut h = blake3::Hasher::new();
    h.update(&seed.to_le_bytes());
    h.update(check.as_bytes());
    h.update(b"/");
    h.update(workload.as_bytes());
    h.update(&index.to_le_bytes());
    u64::from_le_bytes(h.finalize().as_bytes()[..8].try_into().unwrap())
}

/// CPU seconds a single episode may take before it counts as making no
/// progress. Episodes normally take well under one.
pub const EP_CPU_LIMIT: f64 = 90.0;

pub enum EpOutcome {
    Ok,
    Violation(String),
    Harness(String),
}

/// Run one episode in a fresh thread (fresh thread = fresh, seeded hash keys).
pub fn run_episode(f: EpFn, seed: u64, index: u64, thorough: bool, cpu: Arc<AtomicU64>) -> (Ep, EpOutcome) {
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            seed_entropy(seed);
            cpu.store(thread_id(), Ordering::SeqCst);
            let mut ep = Ep::new(seed, index, thorough);
            let r = catching(|| f(&mut ep));
            cpu.store(0, Ordering::SeqCst);
            let out = match r {
                Ok(Ok(())) => EpOutcome::Ok,
                Ok(Err(e)) if e.starts_with("HARNESS") => EpOutcome::Harness(e),
                Ok(Err(e)) => EpOutcome::Violation(e),
                Err(p) => {
                    if p.starts_with("HARNESS") {
                        EpOutcome::Harness(p)
                    } else if panic_is_harness(&p) {
                        // an `expect` of this crate on what the code returned
                        EpOutcome::Violation(format!("the code did not do what the monitor relies on: {p}"))
                    } else {
                        EpOutcome::Violation(format!("panic in the code under test: {p}"))
                    }
                }
            };
            (ep, out)
        })
        .expect("spawn");
    h.join().expect("episode thread")
}

fn panic_is_harness(p: &str) -> bool {
    // Panics of this crate carry a relative path; those of /repo an absolute one.
    p.rsplit(" @ ").next().map(|l| l.starts_with("src/") || l.contains("/harness/src/")).unwrap_or(false)
        && !p.starts_with("DEADLOCK")
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
fn thread_id() -> u64 {
    unsafe { syscall(186) as u64 }
}
fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

/// In the child: run every workload of `def`.
pub fn run_all(def: &CheckDef, seed: u64, thorough: bool, only: Option<(&str, u64)>, slots_path: &str, wall: Duration) -> RunOut {
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    let out = Arc::new(Mutex::new((RunOut::default(), HashSet::<[u8; 16]>::new())));
    let stop = Arc::new(AtomicBool::new(false));
    // interleave workloads
    let mut jobs: Vec<(usize, u64)> = vec![];
    for (w, wl) in def.workloads.iter().enumerate() {
        let n = if thorough { wl.thorough } else { wl.quick };
        for i in 0..n {
            if let Some((name, idx)) = only {
                if wl.name != name || idx != i {
                    continue;
                }
            }
            jobs.push((w, i));
        }
    }
    if let Some((name, idx)) = only {
        if jobs.is_empty() {
            if let Some(w) = def.workloads.iter().position(|wl| wl.name == name) {
                jobs.push((w, idx));
            }
        }
    }
    jobs.sort_by_key(|(w, i)| {
        let wl = &def.workloads[*w];
        let n = if thorough { wl.thorough } else { wl.quick };
        (*i as u128 * 1_000_000 / n.max(1) as u128, *w)
    });
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicU64::new(0));
    let slots: Arc<Vec<Mutex<Option<(String, u64)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let cpus: Arc<Vec<Arc<AtomicU64>>> = Arc::new((0..threads).map(|_| Arc::new(AtomicU64::new(0))).collect());
    let write_slots = {
        let slots = slots.clone();
        let path = slots_path.to_string();
        Arc::new(Mutex::new(move || {
            let v: Vec<(String, u64)> = slots.iter().filter_map(|s| s.lock().unwrap().clone()).collect();
            let _ = std::fs::write(&path, serde_json::to_string(&v).unwrap());
        }))
    };
    std::thread::scope(|s| {
        for t in 0..threads {
            let (jobs, next, slots, cpus, out, stop) = (jobs.clone(), next.clone(), slots.clone(), cpus.clone(), out.clone(), stop.clone());
            let write_slots = write_slots.clone();
            s.spawn(move || loop {
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                let j = next.fetch_add(1, Ordering::SeqCst) as usize;
                if j >= jobs.len() {
                    break;
                }
                if t0.elapsed() > wall {
                    out.lock().unwrap().0.stopped_early = true;
                    break;
                }
                let (w, i) = jobs[j];
                let wl = &def.workloads[w];
                *slots[t].lock().unwrap() = Some((wl.name.to_string(), i));
                (write_slots.lock().unwrap())();
                let es = ep_seed(seed, def.id, wl.name, i);
                let (ep, oc) = run_episode(wl.run, es, i, thorough, cpus[t].clone());
                *slots[t].lock().unwrap() = None;
                let mut g = out.lock().unwrap();
                g.0.episodes += 1;
                g.0.evaluations += ep.evaluations;
                for (k, v) in &ep.counters {
                    *g.0.counters.entry(k.to_string()).or_insert(0) += v;
                }
                if ep.nontrivial {
                    let d: [u8; 16] = ep.sig.finalize().as_bytes()[..16].try_into().unwrap();
                    g.1.insert(d);
                    let have = g.0.samples.iter().filter(|s| s["workload"] == wl.name).count();
                    if have < 1 && ep.log.len() > 3 {
                        let steps: Vec<&String> = ep.log.iter().take(40).collect();
                        let v = serde_json::json!({"workload": wl.name, "episode": i, "steps": steps, "observed": ep.counters});
                        g.0.samples.push(v);
                    }
                }
                match oc {
                    EpOutcome::Ok => {}
                    EpOutcome::Violation(d) => {
                        g.0.violations.push(Viol { workload: wl.name.into(), index: i, seed, detail: d, log: ep.log.clone() });
                        if g.0.violations.len() >= 5 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    EpOutcome::Harness(e) => {
                        g.0.harness_errors.push(format!("{}#{i}: {e}", wl.name));
                        if g.0.harness_errors.len() >= 5 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
        // watchdog
        let (slots, cpus, out) = (slots.clone(), cpus.clone(), out.clone());
        let total = jobs.len() as u64;
        let nextc = next.clone();
        s.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let idle = slots.iter().all(|s| s.lock().unwrap().is_none());
            if idle && (nextc.load(Ordering::SeqCst) >= total || stop.load(Ordering::SeqCst) || t0.elapsed() > wall) {
                break;
            }
            for t in 0..threads {
                let tid = cpus[t].load(Ordering::SeqCst);
                if tid != 0 && thread_cpu(tid).unwrap_or(0.0) > EP_CPU_LIMIT {
                    let slot = slots[t].lock().unwrap().clone();
                    if let Some((name, i)) = slot {
                        let mut g = out.lock().unwrap();
                        g.0.violations.push(Viol {
                            workload: name,
                            index: i,
                            seed,
                            detail: format!("no progress: the episode is still running after {EP_CPU_LIMIT} s of CPU time"),
                            log: vec![],
                        });
                        g.0.distinct = g.1.len() as u64;
                        // a stuck thread cannot be joined: report and leave
                        println!("@@OUT {}", serde_json::to_string(&g.0).unwrap());
                        std::process::exit(0);
                    }
                }
            }
        });
    });
    let g = out.lock().unwrap();
    let mut r = g.0.clone();
    r.distinct = g.1.len() as u64;
    r
}

pub fn main_run(defs: &[CheckDef]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let find = |id: &str| defs.iter().find(|d| d.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    });
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for d in defs {
                println!("{}", d.id);
            }
            std::process::exit(0)
        }
        // child: khmon child ID seed tier slots wall [workload index]
        Some("child") => {
            limit_memory();
            let d = find(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let thorough = args[4] == "thorough";
            let wall = Duration::from_secs(args[6].parse().unwrap());
            let only = args.get(7).map(|w| (w.as_str(), args[8].parse::<u64>().unwrap()));
            let r = run_all(d, seed, thorough, only, &args[5], wall);
            println!("@@OUT {}", serde_json::to_string(&r).unwrap());
            std::process::exit(0)
        }
        Some("finding") => {
            // khmon finding ID finding-id
            limit_memory();
            seed_entropy(7);
            let d = find(&args[2]);
            let f = d.findings.iter().find(|f| f.id == args[3]).expect("finding");
            let run = f.run;
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { seed_entropy(7); catching(run) }).unwrap().join().unwrap();
            match r {
                Ok(Ok(Some(w))) => println!("@@FAILS {w}"),
                Ok(Ok(None)) => println!("@@HOLDS"),
                Ok(Err(e)) => println!("@@HARNESS {e}"),
                Err(p) => println!("@@FAILS panic: {p}"),
            }
            std::process::exit(0)
        }
        Some("check") => std::process::exit(supervise(find(&args[2]))),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let d = find(v["property"].as_str().unwrap());
            let wl = d.workloads.iter().find(|w| w.name == v["workload"].as_str().unwrap()).expect("workload");
            let seed = v["seed"].as_u64().unwrap();
            let i = v["index"].as_u64().unwrap();
            let thorough = v["tier"] == "thorough";
            let (ep, oc) = run_episode(wl.run, ep_seed(seed, d.id, wl.name, i), i, thorough, Arc::new(AtomicU64::new(0)));
            for l in &ep.log {
                println!("  {l}");
            }
            match oc {
                EpOutcome::Ok => { println!("episode holds"); std::process::exit(0) }
                EpOutcome::Violation(e) => { println!("VIOLATION reproduced: {e}"); std::process::exit(1) }
                EpOutcome::Harness(e) => { println!("{e}"); std::process::exit(2) }
            }
        }
        // developer: khmon try ID workload n [seed]: histogram of outcomes
        Some("try") => {
            let d = find(&args[2]);
            let wl = d.workloads.iter().find(|w| w.name == args[3]).expect("workload");
            let n: u64 = args[4].parse().unwrap();
            let seed: u64 = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(1);
            try_hist(d, wl, n, seed);
            std::process::exit(0)
        }
        Some("one") => {
            let d = find(&args[2]);
            let wl = d.workloads.iter().find(|w| w.name == args[3]).expect("workload");
            let i: u64 = args[4].parse().unwrap();
            let seed: u64 = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(1);
            let (ep, oc) = run_episode(wl.run, ep_seed(seed, d.id, wl.name, i), i, std::env::var("VERIF_TIER").as_deref() == Ok("thorough"), Arc::new(AtomicU64::new(0)));
            for l in &ep.log {
                println!("  {l}");
            }
            println!("{:?}", ep.counters);
            match oc {
                EpOutcome::Ok => println!("ok"),
                EpOutcome::Violation(e) | EpOutcome::Harness(e) => println!("=> {e}"),
            }
            std::process::exit(0)
        }
        _ => {
            eprintln!("usage: khmon check ID | replay FILE | list | try ID WORKLOAD N [SEED] | one ID WORKLOAD INDEX [SEED]");
            std::process::exit(2)
        }
    }
}

fn try_hist(d: &CheckDef, wl: &Workload, n: u64, seed: u64) {
    let hist: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
    let counters: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let next = AtomicU64::new(0);
    let t0 = Instant::now();
    let slow: Mutex<(Duration, u64)> = Mutex::new((Duration::ZERO, 0));
    let id = d.id;
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let t = Instant::now();
                let (ep, oc) = run_episode(wl.run, ep_seed(seed, id, wl.name, i), i, thorough, Arc::new(AtomicU64::new(0)));
                let dt = t.elapsed();
                {
                    let mut sl = slow.lock().unwrap();
                    if dt > sl.0 {
                        *sl = (dt, i);
                    }
                }
                let k = match oc {
                    EpOutcome::Ok => if ep.nontrivial { "ok".to_string() } else { "ok (trivial)".into() },
                    EpOutcome::Violation(e) | EpOutcome::Harness(e) => {
                        let mut e: String = e.split(" :: ").next().unwrap().to_string();
                        e.truncate(300);
                        e
                    }
                };
                let mut c = counters.lock().unwrap();
                for (k, v) in &ep.counters {
                    *c.entry(k).or_insert(0) += v;
                }
                drop(c);
                let mut h = hist.lock().unwrap();
                let e = h.entry(k).or_insert((0, i));
                e.0 += 1;
                e.1 = e.1.min(i);
            });
        }
    });
    for (k, v) in hist.lock().unwrap().iter() {
        println!("{:>6} (first {}) {k}", v.0, v.1);
    }
    println!("{:?}", counters.lock().unwrap());
    println!("{n} episodes in {:.1?}; slowest {:?}", t0.elapsed(), slow.lock().unwrap());
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    let lim = [12u64 << 30, 12u64 << 30];
    unsafe {
        setrlimit(9, &lim); // RLIMIT_AS
        let core = [0u64, 0u64];
        setrlimit(4, &core);
    }
}

#[derive(Deserialize)]
struct KnownEntry {
    property: String,
    id: String,
    #[allow(dead_code)]
    what: String,
}

fn spawn_child(args: &[String], timeout: Duration) -> (Option<i32>, Option<i32>, String) {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe)
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::inherit())
        .spawn()
        .expect("spawn child");
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break Some(st);
        }
        if t0.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let s = rd.join().unwrap_or_default();
    match st {
        Some(st) => (st.code(), st.signal(), s),
        None => (None, None, s),
    }
}

fn parse_out(s: &str) -> Option<RunOut> {
    s.lines().rev().find_map(|l| l.strip_prefix("@@OUT ")).and_then(|j| serde_json::from_str(j).ok())
}

fn supervise(def: &CheckDef) -> i32 {
    let t0 = Instant::now();
    let root = std::env::var("KHMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let wall: u64 = if tier == "thorough" { 3000 } else { 480 };
    let scratch = std::env::temp_dir().join(format!("khmon-{}-{}", def.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let slots = scratch.join("slots.json");
    let slots_s = slots.to_string_lossy().to_string();
    let base: Vec<String> = ["child", def.id, &seed.to_string(), tier, &slots_s, &wall.to_string()].iter().map(|s| s.to_string()).collect();
    let (code, sig, sout) = spawn_child(&base, Duration::from_secs(wall + 150));
    let mut harness: Vec<String> = vec![];
    let mut out = match parse_out(&sout) {
        Some(o) if code == Some(0) => o,
        _ => {
            // The process died. Decide by re-running what was in flight, alone.
            let mut o = RunOut::default();
            let inflight: Vec<(String, u64)> =
                std::fs::read_to_string(&slots).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
            for (w, i) in inflight {
                let mut a = base.clone();
                a.push(w.clone());
                a.push(i.to_string());
                let (c1, s1, so1) = spawn_child(&a, Duration::from_secs(240));
                match parse_out(&so1) {
                    Some(r) if c1 == Some(0) => {
                        o.violations.extend(r.violations);
                        o.episodes += r.episodes;
                        o.evaluations += r.evaluations;
                    }
                    _ if s1.is_some() => o.violations.push(Viol {
                        workload: w,
                        index: i,
                        seed,
                        detail: format!("the process is ended by signal {} (abort or stack overflow)", s1.unwrap()),
                        log: vec![],
                    }),
                    _ => harness.push(format!("{w}#{i}: child ended with {c1:?}, nothing to decide on")),
                }
            }
            if o.violations.is_empty() {
                harness.push(format!("the workload process ended with code {code:?} signal {sig:?} and no episode reproduces it"));
            }
            o
        }
    };
    harness.extend(out.harness_errors.drain(..));

    // known findings
    let mut known_listed = 0u64;
    let mut known_failing = 0u64;
    let kf: Vec<KnownEntry> = std::fs::read_to_string(format!("{root}/known-findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
        .and_then(|v| serde_json::from_value(v["findings"].clone()).ok())
        .unwrap_or_default();
    for f in def.findings {
        let listed = kf.iter().any(|k| k.property == def.id && k.id == f.id);
        let (c, s, so) = spawn_child(&["finding".to_string(), def.id.to_string(), f.id.to_string()], Duration::from_secs(240));
        let fails = so.lines().find_map(|l| l.strip_prefix("@@FAILS ").map(|s| s.to_string()))
            .or(if s.is_some() { Some("the process is killed".to_string()) } else { None });
        let holds = so.lines().any(|l| l == "@@HOLDS");
        if let Some(what) = fails {
            if listed {
                known_listed += 1;
                known_failing += 1;
                println!("KNOWN-FINDING: property={} {}: {}", def.id, f.id, what);
            } else {
                out.violations.push(Viol { workload: format!("scenario:{}", f.id), index: 0, seed, detail: what, log: vec![] });
            }
        } else if holds {
            if listed {
                known_listed += 1;
                println!("note: the recorded finding {} no longer shows", f.id);
            }
        } else {
            harness.push(format!("scenario {}: no verdict ({c:?} {so})", f.id));
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    let mut missing: Vec<&str> = vec![];
    for n in def.need {
        if out.counters.get(*n).copied().unwrap_or(0) == 0 {
            missing.push(n);
        }
    }
    let violations = out.violations.len();
    let mut cov = serde_json::json!({
        "evaluations": out.evaluations,
        "distinct_nontrivial": out.distinct,
        "rule": def.rule,
        "samples": out.samples,
        "observed": out.counters,
    });
    if out.evaluations != out.episodes {
        cov["episodes"] = out.episodes.into();
    }
    if !def.findings.is_empty() {
        cov["scenarios_of_recorded_findings"] = serde_json::json!({"listed": known_listed, "still_failing": known_failing});
    }
    if out.stopped_early {
        cov["stopped_early"] = true.into();
    }
    let ev = serde_json::json!({
        "property": def.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": def.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", def.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");

    println!(
        "{}: {} episodes, {} evaluations, {} distinct non-trivial, {:.1} s",
        def.id, out.episodes, out.evaluations, out.distinct, t0.elapsed().as_secs_f64()
    );
    for (k, v) in &out.counters {
        println!("  {k}: {v}");
    }
    if violations > 0 {
        let _ = std::fs::create_dir_all(format!("{root}/replays"));
        for v in &out.violations {
            let path = format!("{root}/replays/{}-{}-{}-{}.json", def.id, v.workload.replace([':', '/'], "_"), v.seed, v.index);
            let j = serde_json::json!({"property": def.id, "workload": v.workload, "seed": v.seed, "index": v.index, "tier": tier, "detail": v.detail, "steps": v.log});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay");
            println!("  {}#{}: {}", v.workload, v.index, v.detail);
            println!("VIOLATION property={} replay={}", def.id, path);
        }
        return 1;
    }
    if !harness.is_empty() {
        for h in &harness {
            eprintln!("harness error: {h}");
        }
        return 2;
    }
    if !missing.is_empty() || out.distinct < 3 {
        eprintln!("inconclusive: the run observed none of {missing:?} ({} distinct)", out.distinct);
        return 2;
    }
    0
}
