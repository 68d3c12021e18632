//! Exhaustive exploration of thread schedules of the real code.
//!
//! The threads of an execution run one at a time; each stops before it takes
//! a lock (and, where asked, before it gives one back), and the explorer
//! decides which goes on. All decisions are enumerated depth first, up to a
//! bound on preemptions.
use ass_editor::sync::observed::{observe, LockObserver};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Running,
    Start,
    Acquire { lock: u64, exclusive: bool, wait: bool },
    Release,
    Done,
}

#[derive(Default)]
struct Held {
    readers: Vec<usize>,
    writer: Option<usize>,
}

struct State {
    phase: Vec<Phase>,
    granted: Vec<bool>,
    held: BTreeMap<u64, Held>,
    made: Vec<u64>,
    step: usize,
    /// the first step each thread made in its present call
    first: Vec<Option<usize>>,
    last: Vec<usize>,
    abort: bool,
}

struct Sched {
    state: Mutex<State>,
    explorer: Condvar,
    threads: Vec<Condvar>,
    release_points: bool,
}

struct Abort;

struct Observer {
    sched: Arc<Sched>,
    /// a thread of the execution, or one past them for set-up and inspection
    thread: usize,
}

impl Observer {
    fn scheduled(&self) -> bool {
        self.thread < self.sched.threads.len()
    }
    /// Stop here until chosen
    fn stop(&self, phase: Phase) -> bool {
        let t = self.thread;
        let mut s = self.sched.state.lock().unwrap();
        s.phase[t] = phase;
        self.sched.explorer.notify_one();
        while s.phase[t] != Phase::Running {
            if s.abort {
                drop(s);
                resume_unwind(Box::new(Abort));
            }
            s = self.sched.threads[t].wait(s).unwrap();
        }
        s.granted[t]
    }
}

impl LockObserver for Observer {
    fn created(&self) -> u64 {
        let mut s = self.sched.state.lock().unwrap();
        s.made[self.thread] += 1;
        ((self.thread as u64) << 32) | s.made[self.thread]
    }
    fn acquire(&self, lock: u64, exclusive: bool, wait: bool) -> bool {
        if !self.scheduled() || lock == u64::MAX || std::thread::panicking() {
            return true;
        }
        self.stop(Phase::Acquire { lock, exclusive, wait })
    }
    fn releasing(&self, lock: u64, _: bool) {
        if self.sched.release_points && self.scheduled() && lock != u64::MAX && !std::thread::panicking() {
            self.stop(Phase::Release);
        }
    }
    fn released(&self, lock: u64, _: bool) {
        if !self.scheduled() {
            return;
        }
        let mut s = self.sched.state.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(h) = s.held.get_mut(&lock) {
            if h.writer == Some(self.thread) {
                h.writer = None;
            } else if let Some(i) = h.readers.iter().position(|r| *r == self.thread) {
                h.readers.remove(i);
            }
        }
    }
}

impl State {
    fn free(&self, t: usize, lock: u64, exclusive: bool) -> bool {
        let Some(h) = self.held.get(&lock) else { return true };
        if exclusive {
            return h.writer.is_none() && h.readers.is_empty();
        }
        // a reader that comes back may find a writer queued before it
        let again = h.readers.contains(&t);
        let queued = self.phase.iter().any(|p| matches!(p, Phase::Acquire { lock: l, exclusive: true, wait: true } if *l == lock));
        h.writer.is_none() && !(again && queued)
    }
    fn enabled(&self, t: usize) -> bool {
        match self.phase[t] {
            Phase::Release => true,
            Phase::Acquire { lock, exclusive, wait } => !wait || self.free(t, lock, exclusive),
            Phase::Start | Phase::Running | Phase::Done => false,
        }
    }
}

/// One finished call: what it gave and the steps it spanned
#[derive(Clone, Debug)]
pub struct Ended {
    pub result: String,
    pub first: usize,
    pub last: usize,
}

pub struct Execution {
    /// per thread, its calls in order
    pub calls: Vec<Vec<Ended>>,
    pub seen: String,
    pub schedule: Vec<usize>,
}

/// What is explored: shared things, and calls made on them
pub trait Program {
    type World;
    type Call: Copy + std::fmt::Debug;
    fn world(&self) -> Self::World;
    /// Make a call as the `k`-th of `thread`
    fn call(&self, w: &Self::World, c: Self::Call, thread: usize, k: usize) -> String;
    /// What is seen of the world once all calls have ended
    fn see(&self, w: &Self::World) -> String;
    /// Whether giving back a lock is a step of its own (it is visible to
    /// calls that do not wait)
    fn release_points(&self) -> bool {
        false
    }
}

/// The threads run one at a time, so that what is not `Sync` may be shared
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

struct Choice {
    options: Vec<usize>,
    at: usize,
    /// preemptions made before this choice, and whether leaving option 0 is one
    spent: usize,
    preempts: bool,
}

pub struct Explored {
    pub schedules: u64,
    pub steps: u64,
}

/// Run every schedule of `threads`, at most `preemptions` per schedule
pub fn explore<P: Program + Sync>(p: &P, threads: &[Vec<(P::Call, usize, usize)>], preemptions: usize, mut each: impl FnMut(&Execution) -> Result<(), String>) -> Result<Explored, String>
where
    P::Call: Send + Sync,
{
    let mut stack: Vec<Choice> = vec![];
    let mut done = Explored { schedules: 0, steps: 0 };
    loop {
        let x = execute(p, threads, &mut stack)?;
        done.schedules += 1;
        done.steps += x.schedule.len() as u64;
        each(&x).map_err(|e| format!("{e}; schedule {:?}", x.schedule))?;
        loop {
            let Some(c) = stack.last_mut() else { return Ok(done) };
            if c.at + 1 < c.options.len() && (!c.preempts || c.spent < preemptions) {
                c.at += 1;
                break;
            }
            stack.pop();
        }
    }
}

fn execute<P: Program + Sync>(p: &P, threads: &[Vec<(P::Call, usize, usize)>], stack: &mut Vec<Choice>) -> Result<Execution, String>
where
    P::Call: Send + Sync,
{
    let n = threads.len();
    let sched = Arc::new(Sched {
        state: Mutex::new(State {
            phase: vec![Phase::Running; n],
            granted: vec![true; n],
            held: BTreeMap::new(),
            made: vec![0; n + 1],
            step: 0,
            first: vec![None; n],
            last: vec![0; n],
            abort: false,
        }),
        explorer: Condvar::new(),
        threads: (0..n).map(|_| Condvar::new()).collect(),
        release_points: p.release_points(),
    });
    observe(Some(Arc::new(Observer { sched: sched.clone(), thread: n })));
    let world = Share(p.world());
    let mut schedule = vec![];
    let mut stuck = None;
    let ended: Vec<Result<Vec<Ended>, String>> = std::thread::scope(|scope| {
        let hs: Vec<_> = threads
            .iter()
            .enumerate()
            .map(|(t, calls)| {
                let (sched, world) = (sched.clone(), &world);
                scope.spawn(move || {
                    let world: &Share<P::World> = world;
                    let o = Arc::new(Observer { sched: sched.clone(), thread: t });
                    observe(Some(o.clone()));
                    let out = catch_unwind(AssertUnwindSafe(|| {
                        o.stop(Phase::Start);
                        let mut v = vec![];
                        for &(c, id, k) in calls {
                            sched.state.lock().unwrap().first[t] = None;
                            let result = p.call(&world.0, c, id, k);
                            let s = sched.state.lock().unwrap();
                            let last = s.last[t];
                            v.push(Ended { result, first: s.first[t].unwrap_or(last), last });
                        }
                        v
                    }));
                    observe(None);
                    let mut s = sched.state.lock().unwrap_or_else(|e| e.into_inner());
                    s.phase[t] = Phase::Done;
                    drop(s);
                    sched.explorer.notify_one();
                    out.map_err(|e| {
                        if e.is::<Abort>() {
                            "stopped".to_string()
                        } else {
                            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                        }
                    })
                })
            })
            .collect();
        let mut last: Option<usize> = None;
        let mut depth = 0;
        let mut s = sched.state.lock().unwrap();
        loop {
            while s.phase.contains(&Phase::Running) {
                s = sched.explorer.wait(s).unwrap();
            }
            if s.phase.iter().all(|p| *p == Phase::Done) {
                break;
            }
            // what a thread does before its first lock concerns nobody else
            if let Some(t) = s.phase.iter().position(|p| *p == Phase::Start) {
                s.phase[t] = Phase::Running;
                sched.threads[t].notify_one();
                continue;
            }
            let mut options: Vec<usize> = (0..n).filter(|t| s.enabled(*t)).collect();
            if options.is_empty() {
                let wait: Vec<String> = (0..n).filter(|t| s.phase[*t] != Phase::Done).map(|t| format!("thread {t} waits ({:?})", s.phase[t])).collect();
                stuck = Some(format!("no thread can go on: {}", wait.join(", ")));
                s.abort = true;
                for c in &sched.threads {
                    c.notify_one();
                }
                break;
            }
            let goes_on = last.filter(|l| options.contains(l));
            if let Some(l) = goes_on {
                options.retain(|t| *t != l);
                options.insert(0, l);
            }
            if depth == stack.len() {
                let spent = stack.last().map_or(0, |c: &Choice| c.spent + usize::from(c.preempts && c.at > 0));
                stack.push(Choice { options: options.clone(), at: 0, spent, preempts: goes_on.is_some() });
            }
            let c = &stack[depth];
            if c.options != options {
                stuck = Some(format!("the same schedule does not lead to the same state twice ({:?} and {:?} can go on at step {depth})", c.options, options));
                s.abort = true;
                for c in &sched.threads {
                    c.notify_one();
                }
                break;
            }
            let t = c.options[c.at];
            depth += 1;
            schedule.push(t);
            let granted = match s.phase[t] {
                Phase::Acquire { lock, exclusive, .. } => {
                    let free = s.free(t, lock, exclusive);
                    if free {
                        let h = s.held.entry(lock).or_default();
                        if exclusive {
                            h.writer = Some(t);
                        } else {
                            h.readers.push(t);
                        }
                    }
                    free
                }
                _ => true,
            };
            s.step += 1;
            let step = s.step;
            s.first[t].get_or_insert(step);
            s.last[t] = step;
            s.granted[t] = granted;
            s.phase[t] = Phase::Running;
            last = Some(t);
            sched.threads[t].notify_one();
        }
        drop(s);
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let name = || threads.iter().map(|t| t.iter().map(|c| format!("{:?}", c.0)).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join(" | ");
    if let Some(e) = stuck {
        observe(None);
        return Err(format!("{e}; threads {}; schedule {schedule:?}", name()));
    }
    let mut calls = vec![];
    for e in ended {
        calls.push(e.map_err(|e| format!("a call panics: {e}; threads {}; schedule {schedule:?}", name()))?);
    }
    let seen = p.see(&world.0);
    drop(world);
    observe(None);
    Ok(Execution { calls, seen, schedule })
}

/// Outcomes of the calls one at a time: per order, result of each call by
/// (thread, position), and what is seen in the end
type Orders = Vec<(Vec<(usize, usize)>, HashMap<(usize, usize), String>, String)>;

/// All ways to make the calls one after the other
pub fn orders<P: Program + Sync>(p: &P, threads: &[Vec<P::Call>], without: &[(usize, usize)]) -> Result<Orders, String>
where
    P::Call: Send + Sync,
{
    let mut out = vec![];
    let mut todo = vec![vec![]];
    let total: usize = threads.iter().map(Vec::len).sum();
    while let Some(o) = todo.pop() {
        if o.len() == total {
            let line: Vec<(usize, usize)> = o.iter().copied().filter(|c| !without.contains(c)).collect();
            let calls: Vec<_> = line.iter().map(|&(t, k)| (threads[t][k], t, k)).collect();
            let mut got = None;
            explore(p, &[calls], 0, |x| {
                got = Some((line.iter().copied().zip(x.calls[0].iter().map(|e| e.result.clone())).collect(), x.seen.clone()));
                Ok(())
            })?;
            let (results, seen) = got.unwrap();
            out.push((line, results, seen));
            continue;
        }
        for t in 0..threads.len() {
            let k = o.iter().filter(|c: &&(usize, usize)| c.0 == t).count();
            if k < threads[t].len() {
                let mut o = o.clone();
                o.push((t, k));
                todo.push(o);
            }
        }
    }
    Ok(out)
}

/// The result of a call that did not want to wait and would have had to
pub const BUSY: &str = "busy";

/// Every schedule of `threads` gives what some order of the same calls gives,
/// one that keeps calls that do not overlap in their order
pub fn linearisable<P: Program + Sync>(p: &P, threads: &[Vec<P::Call>], preemptions: usize, beat: impl Fn()) -> Result<Explored, String>
where
    P::Call: Send + Sync,
{
    let mut known: HashMap<Vec<(usize, usize)>, Orders> = HashMap::new();
    let named: Vec<Vec<_>> = threads.iter().enumerate().map(|(t, cs)| cs.iter().enumerate().map(|(k, c)| (*c, t, k)).collect()).collect();
    explore(p, &named, preemptions, |x| {
        beat();
        let busy: Vec<(usize, usize)> = x.calls.iter().enumerate().flat_map(|(t, cs)| cs.iter().enumerate().filter(|(_, e)| e.result == BUSY).map(move |(k, _)| (t, k))).collect();
        if !known.contains_key(&busy) {
            known.insert(busy.clone(), orders(p, threads, &busy)?);
        }
        let fits = known[&busy].iter().any(|(order, results, seen)| {
            *seen == x.seen
                && results.iter().all(|((t, k), r)| x.calls[*t][*k].result == *r)
                && order.iter().enumerate().all(|(i, a)| order[i + 1..].iter().all(|b| x.calls[b.0][b.1].last >= x.calls[a.0][a.1].first))
        });
        if fits {
            return Ok(());
        }
        let got: Vec<Vec<&str>> = x.calls.iter().map(|c| c.iter().map(|e| e.result.as_str()).collect()).collect();
        Err(format!("threads {threads:?} give {got:?} and leave {:?}, which no order of these calls does", x.seen))
    })
}
