//! Exploration engine shared by all checks.
//!
//! A check is a set of *stages*; a stage is a finite, numbered space of cases
//! (`0..n`), simplest first, every one of which is executed on the real code.
//! Cases are distributed over worker threads; a supervisor process watches the
//! exploring child, so a hang, runaway allocation, abort or stack overflow of
//! the code under test is reported with the case that caused it.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod enumerate;
pub use enumerate::*;

/// Seconds one case may take before it counts as non-terminating.
const CASE_LIMIT_S: u64 = 60;
const RSS_LIMIT_KB: u64 = 14 * 1024 * 1024;
const MAX_WORKERS: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Viol {
    stage: String,
    index: u64,
    sig: String,
    detail: String,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    seed: u64,
    start: Instant,
    only: Option<(String, u64)>,
    workers: usize,
    evals: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    stages: Mutex<Vec<serde_json::Value>>,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicUsize,
    stop: AtomicBool,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    rule: Mutex<String>,
    slots: *mut Slot,
    stage_names: Mutex<Vec<String>>,
    deadline: Option<Instant>,
    capped: AtomicBool,
}
unsafe impl Sync for Run {}
unsafe impl Send for Run {}

#[repr(C)]
struct Slot {
    stage: AtomicU64, // 1-based stage number; 0 = idle
    index: AtomicU64,
    since_ms: AtomicU64,
    _pad: AtomicU64,
}

pub fn h64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static BEAT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f`, turning a panic into `Err(message @ location)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn rss_kb(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/statm")).unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn steps(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    /// Records a (canonicalised) state or outcome observed on the real code.
    pub fn state<T: std::hash::Hash + ?Sized>(&self, t: &T) -> bool {
        let h = h64(t);
        self.distinct[(h % 64) as usize].lock().unwrap().insert(h)
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s.into());
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// Explores every case `0..n` of a stage.
    /// `f` returns Err(detail) for a violated case.
    pub fn stage<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(u64) -> Result<(), String> + Sync,
    {
        let sid = {
            let mut v = self.stage_names.lock().unwrap();
            v.push(name.to_string());
            v.len() as u64
        };
        let _ = std::fs::write(self.stage_file(), self.stage_names.lock().unwrap().join("\n"));
        let t0 = Instant::now();
        if let Some((s, i)) = &self.only {
            if s != name {
                return;
            }
            self.one(sid, name, *i, 0, &f);
            return;
        }
        // while a check is being developed: only the stages of this prefix
        if std::env::var("MC_DEV_STAGES").is_ok_and(|p| !name.starts_with(&p)) {
            self.capped.store(true, Relaxed);
            return;
        }
        let chunk = (n / (self.workers as u64 * 16)).clamp(1, 256);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..self.workers {
                let (next, done, f) = (&next, &done, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || self.stopped() {
                            break;
                        }
                        if self.deadline.is_some_and(|d| Instant::now() > d) {
                            self.capped.store(true, Relaxed);
                            break;
                        }
                        let b = (a + chunk).min(n);
                        for i in a..b {
                            if self.stopped() { break; }
                            self.one(sid, name, i, w, f);
                            done.fetch_add(1, Relaxed);
                        }
                    })
                    .unwrap();
            }
        });
        self.stages.lock().unwrap().push(serde_json::json!({
            "stage": name, "space": n, "executed": done.load(Relaxed),
            "exhausted": done.load(Relaxed) == n, "wall_s": t0.elapsed().as_secs_f64()}));
        eprintln!("[{}] stage {name}: {} of {n} cases, {:.1}s", self.prop, done.load(Relaxed), t0.elapsed().as_secs_f64());
    }

    /// A long case tells that it goes on
    pub fn beat(&self) {
        let slot = unsafe { &*self.slots.add(BEAT.with(|b| b.get())) };
        slot.since_ms.store(now_ms(), Relaxed);
    }

    fn stage_file(&self) -> String {
        format!("{}/evidence/.stages-{}-{}", verif_dir(), self.prop, std::process::id())
    }

    fn one<F>(&self, sid: u64, name: &str, i: u64, w: usize, f: &F)
    where
        F: Fn(u64) -> Result<(), String> + Sync,
    {
        let slot = unsafe { &*self.slots.add(w) };
        BEAT.with(|b| b.set(w));
        slot.since_ms.store(now_ms(), Relaxed);
        slot.index.store(i, Relaxed);
        slot.stage.store(sid, Release);
        let r = guard(|| f(i));
        slot.stage.store(0, Release);
        self.evals.fetch_add(1, Relaxed);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(d)) => self.report(name, i, "mismatch", &d),
            Err(p) => self.report(name, i, "panic", &p),
        }
    }

    fn report(&self, stage: &str, index: u64, sig: &str, detail: &str) {
        let mut v = self.viols.lock().unwrap();
        v.push(Viol { stage: stage.into(), index, sig: sig.into(), detail: detail.into() });
        v.sort_by_key(|x| x.index);
        v.truncate(50);
        if self.nviol.fetch_add(1, Relaxed) + 1 >= 40 {
            self.stop.store(true, Relaxed);
        }
    }

    /// A defect listed in known_findings.txt: `probe` re-executes the listed
    /// input on the real code; Err(what) means it still fails.
    /// A listed finding is reported as KNOWN-FINDING, an unlisted failure is a violation.
    pub fn finding(&self, key: &str, probe: impl FnOnce() -> Result<(), String>) {
        if let Some((s, _)) = &self.only {
            if s != &format!("finding-{key}") { return; }
        }
        let r = match guard(probe) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}")),
        };
        self.evals.fetch_add(1, Relaxed);
        if let Err(d) = r {
            if let Some((_, what)) = self.known.iter().find(|(k, _)| k == key) {
                self.known_hit.lock().unwrap().insert(key.into(), what.clone());
            } else {
                self.report(&format!("finding-{key}"), 0, "mismatch", &d);
            }
        }
    }

    fn finish(self) -> i32 {
        let dir = verif_dir();
        let _ = std::fs::remove_file(self.stage_file());
        let viols = self.viols.lock().unwrap();
        let distinct: u64 = self.distinct.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        for (k, what) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({k})", self.prop, what);
        }
        if self.only.is_none() {
            let evals = self.evals.load(Relaxed);
            let tr = self.transitions.load(Relaxed).max(evals);
            let traces = self.traces.load(Relaxed).max(evals);
            let stages = self.stages.lock().unwrap().clone();
            let ev = serde_json::json!({
                "property": self.prop,
                "tier": if self.thorough() {"thorough"} else {"quick"},
                "seed": self.seed,
                "level": "model_checking",
                "coverage": {
                    "states": distinct,
                    "transitions": tr,
                    "traces_validated_against_impl": traces,
                    "evaluations": evals,
                    "distinct_nontrivial": distinct,
                    "rule": *self.rule.lock().unwrap(),
                    "exhaustive": !self.capped.load(Relaxed) && !self.stopped(),
                    "stages": stages,
                    "samples": *self.samples.lock().unwrap(),
                    "known_findings_reproduced": self.known_hit.lock().unwrap().keys().cloned().collect::<Vec<_>>(),
                },
                "assumptions": *self.assumptions.lock().unwrap(),
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": viols.len(),
            });
            let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
            std::fs::write(format!("{dir}/evidence/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
            eprintln!("[{}] states={} transitions={} executions={} exhaustive={} wall={:.1}s", self.prop, distinct, tr, evals, !self.capped.load(Relaxed) && !self.stopped(), self.start.elapsed().as_secs_f64());
        }
        if viols.is_empty() {
            return 0;
        }
        let mut seen = HashSet::new();
        let mut printed = 0;
        for v in viols.iter() {
            let key: String = v.stage.clone() + &v.sig;
            if !seen.insert(key) && printed >= 5 { continue; }
            let path = write_replay(&self.prop, &v.stage, v.index, &v.sig, &v.detail);
            println!("VIOLATION property={} replay={path}", self.prop);
            println!("  stage={} case={} {}: {}", v.stage, v.index, v.sig, v.detail.chars().take(3000).collect::<String>());
            printed += 1;
            if printed >= 8 { break; }
        }
        1
    }
}

fn write_replay(prop: &str, stage: &str, index: u64, sig: &str, detail: &str) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let name: String = stage.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let path = format!("{dir}/{prop}-{name}-{index}.txt");
    let _ = std::fs::write(&path, format!(
        "property={prop}\nstage={stage}\nindex={index}\nkind={sig}\nreplay with: /verif/check.sh {prop} --only {stage}:{index}\n\n{detail}\n"));
    path
}

fn load_known(prop: &str) -> Vec<(String, String)> {
    // lines: property=<id> key=<key> <what fails>     ("fixed:" lines suppress nothing)
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("property=")?;
            let (p, rest) = l.split_once(' ')?;
            let (k, what) = rest.strip_prefix("key=")?.split_once(' ')?;
            (p == prop).then(|| (k.to_string(), what.to_string()))
        })
        .collect()
}

/// Entry point of each harness binary: `<bin> <property> [--only stage:index]`.
pub fn main_with(table: &[(&str, fn(&Run))]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} <property> [--only stage:index]", args[0]);
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let Some((_, f)) = table.iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let only = args.iter().position(|a| a == "--only").map(|i| {
        let (s, n) = args[i + 1].rsplit_once(':').expect("stage:index");
        (s.to_string(), n.parse().expect("index"))
    });
    let child_shm = args.iter().position(|a| a == "--child").map(|i| args[i + 1].clone());
    match child_shm {
        None => std::process::exit(supervise(&prop, &args)),
        Some(shm) => {
            install_hook();
            let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
            let cap: Option<u64> = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok());
            let run = Run {
                known: load_known(&prop),
                prop,
                tier,
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                start: Instant::now(),
                only,
                workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_WORKERS),
                evals: AtomicU64::new(0),
                transitions: AtomicU64::new(0),
                traces: AtomicU64::new(0),
                distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
                samples: Mutex::new(vec![]),
                stages: Mutex::new(vec![]),
                viols: Mutex::new(vec![]),
                nviol: AtomicUsize::new(0),
                stop: AtomicBool::new(false),
                known_hit: Mutex::new(BTreeMap::new()),
                assumptions: Mutex::new(vec![]),
                rule: Mutex::new(String::new()),
                slots: map_slots(&shm),
                stage_names: Mutex::new(vec![]),
                deadline: cap.map(|c| Instant::now() + Duration::from_secs(c)),
                capped: AtomicBool::new(false),
            };
            f(&run);
            std::process::exit(run.finish());
        }
    }
}

fn map_slots(path: &str) -> *mut Slot {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
    let len = MAX_WORKERS * std::mem::size_of::<Slot>();
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut Slot
}

fn in_flight(shm: &str, stages: &[String]) -> Vec<(String, u64, u64)> {
    let slots = map_slots(shm);
    let mut v = vec![];
    for w in 0..MAX_WORKERS {
        let s = unsafe { &*slots.add(w) };
        let sid = s.stage.load(Acquire);
        if sid > 0 {
            if let Some(n) = stages.get(sid as usize - 1) {
                v.push((n.clone(), s.index.load(Relaxed), s.since_ms.load(Relaxed)));
            }
        }
    }
    v.sort_by_key(|x| x.2);
    v
}

fn supervise(prop: &str, args: &[String]) -> i32 {
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let shm = format!("{dir}/evidence/.slots-{prop}-{}", std::process::id());
    std::fs::write(&shm, vec![0u8; MAX_WORKERS * std::mem::size_of::<Slot>()]).unwrap();
    let spawn = |extra: &[String], shm: &str| {
        std::process::Command::new(&args[0])
            .args(&args[1..])
            .args(extra)
            .arg("--child")
            .arg(shm)
            .spawn()
            .expect("spawn child")
    };
    let mut child = spawn(&[], &shm);
    let stage_file = format!("{dir}/evidence/.stages-{prop}-{}", child.id());
    let names = || -> Vec<String> { std::fs::read_to_string(&stage_file).unwrap_or_default().lines().map(String::from).collect() };
    let cleanup = || {
        let _ = std::fs::remove_file(&shm);
        let _ = std::fs::remove_file(&stage_file);
    };
    let code = loop {
        if let Some(st) = child.try_wait().unwrap() {
            match st.code() {
                Some(c) if c == 0 || c == 1 => break c,
                _ => {
                    // The child died: re-execute each in-flight case alone to find the culprit.
                    let cases = in_flight(&shm, &names());
                    eprintln!("[{prop}] child died: {st}; in flight: {cases:?}");
                    if args.iter().any(|a| a == "--only") {
                        break 3;
                    }
                    let mut found = false;
                    for (s, i, _) in &cases {
                        let shm2 = format!("{shm}-r");
                        std::fs::write(&shm2, vec![0u8; MAX_WORKERS * std::mem::size_of::<Slot>()]).unwrap();
                        let mut c = spawn(&["--only".into(), format!("{s}:{i}")], &shm2);
                        let stf = format!("{dir}/evidence/.stages-{prop}-{}", c.id());
                        let t = Instant::now();
                        let died = loop {
                            if let Some(st) = c.try_wait().unwrap() { break st.code().is_none() || st.code().is_some_and(|c| c > 1); }
                            if t.elapsed().as_secs() > 30 { let _ = c.kill(); let _ = c.wait(); break true; }
                            std::thread::sleep(Duration::from_millis(10));
                        };
                        let _ = std::fs::remove_file(stf);
                        let _ = std::fs::remove_file(&shm2);
                        if died {
                            let path = write_replay(prop, s, *i, "abort", &format!("executing this case kills the process ({st})"));
                            println!("VIOLATION property={prop} replay={path}");
                            println!("  stage={s} case={i} kills the process: {st}");
                            found = true;
                            break;
                        }
                    }
                    break if found { 1 } else { 3 };
                }
            }
        }
        let cases = in_flight(&shm, &names());
        let now = now_ms();
        let hung = cases.first().filter(|c| now.saturating_sub(c.2) > CASE_LIMIT_S * 1000).cloned();
        let fat = (rss_kb(child.id()) > RSS_LIMIT_KB).then(|| cases.first().cloned()).flatten()
            .filter(|c| now.saturating_sub(c.2) > 1500);
        if let Some((s, i, _)) = hung.clone().or(fat) {
            let why = if hung.is_some() { "does not terminate" } else { "consumes unbounded memory" };
            let _ = child.kill();
            let _ = child.wait();
            let path = write_replay(prop, &s, i, "hang", &format!("executing this case {why}"));
            println!("VIOLATION property={prop} replay={path}");
            println!("  stage={s} case={i} {why}");
            cleanup();
            return 1;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    cleanup();
    code
}
