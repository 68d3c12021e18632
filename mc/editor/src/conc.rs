//! E16: shared documents and managers under every schedule.
use crate::sched::{explore, linearisable, Program, BUSY};
use ass_editor::core::{DocumentPool, EditorDocument, EditorError, Position, ScopedDocumentLock, SyncDocument};
use ass_editor::{EditorExtension, EditorSessionManager, ExtensionCommand, ExtensionContext, ExtensionInfo, ExtensionManager, ExtensionResult, ExtensionState, InsertTextCommand, SessionConfig};
use mc_common::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

const TEXT: &str = "[Script Info]\nTitle: a\n";

fn show<T: std::fmt::Debug>(r: Result<T, EditorError>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error: {e}"),
    }
}

fn mark(t: usize, k: usize) -> String {
    format!("; {t}.{k}\n")
}

// ---- sessions ----

#[derive(Clone, Copy, Debug)]
enum S {
    Create(&'static str),
    Remove(&'static str),
    Switch(&'static str),
    Edit(&'static str),
    Undo(&'static str),
    Read(&'static str),
    List,
    Active,
    Stats,
}

const SESSION_CALLS: [S; 11] = [S::Create("b"), S::Create("c"), S::Edit("a"), S::Remove("a"), S::Switch("b"), S::Undo("a"), S::Read("a"), S::List, S::Active, S::Stats, S::Edit("b")];

struct Sessions {
    limit: usize,
}

impl Program for Sessions {
    type World = EditorSessionManager;
    type Call = S;
    fn world(&self) -> Self::World {
        let mut m = EditorSessionManager::with_config(SessionConfig { max_sessions: self.limit, arena_reset_interval: 2, ..Default::default() });
        m.create_session_with_document("a".into(), EditorDocument::from_content(TEXT).unwrap()).unwrap();
        m
    }
    fn call(&self, w: &Self::World, c: S, t: usize, k: usize) -> String {
        let mut m = w.clone();
        match c {
            S::Create(n) => show(m.create_session_with_document(n.into(), EditorDocument::from_content(TEXT).unwrap())),
            S::Remove(n) => show(m.remove_session(n).map(|s| (s.document.text(), s.operation_count))),
            S::Switch(n) => show(m.switch_session(n)),
            S::Edit(n) => show(m.with_document_mut(n, |d| {
                d.insert(Position::new(0), &mark(t, k))?;
                Ok(d.text())
            })),
            S::Undo(n) => show(m.with_document_mut(n, |d| d.undo().map(|_| d.text()))),
            S::Read(n) => show(m.with_document(n, |d| Ok(d.text()))),
            S::List => show(m.list_sessions().map(|v| v.into_iter().collect::<BTreeSet<_>>())),
            S::Active => show(m.active_session()),
            S::Stats => {
                let s = m.stats();
                format!("{:?}", (s.active_sessions, s.operations_since_cleanup, s.arena_resets))
            }
        }
    }
    fn see(&self, w: &Self::World) -> String {
        let names: BTreeSet<String> = w.list_sessions().unwrap().into_iter().collect();
        let texts: Vec<String> = names.iter().map(|n| show(w.with_document(n, |d| Ok(d.text())))).collect();
        let s = w.stats();
        format!("{names:?} {texts:?} {:?} {:?}", w.active_session(), (s.active_sessions, s.operations_since_cleanup, s.arena_resets))
    }
}

// ---- one document ----

#[derive(Clone, Copy, Debug)]
enum D {
    Write,
    Command,
    Twice,
    Undo,
    Text,
    Sizes,
    Clone,
    Validate,
    TryRead,
    TryWrite,
}

const DOCUMENT_CALLS: [D; 10] = [D::Write, D::Command, D::Twice, D::Text, D::Clone, D::Undo, D::TryWrite, D::TryRead, D::Sizes, D::Validate];

struct Documents;

impl Program for Documents {
    type World = SyncDocument;
    type Call = D;
    fn world(&self) -> SyncDocument {
        SyncDocument::new(EditorDocument::from_content(TEXT).unwrap())
    }
    fn call(&self, w: &SyncDocument, c: D, t: usize, k: usize) -> String {
        // a handle of the thread's own to the same document
        let w = w.clone();
        match c {
            D::Write => show(w.with_write(|d| d.insert(Position::new(0), &mark(t, k)))),
            D::Command => show(w.execute_command(InsertTextCommand::new(Position::new(0), mark(t, k))).map(|r| (r.success, r.content_changed))),
            D::Twice => {
                let mut lock = ScopedDocumentLock::new(&w).unwrap();
                let d = lock.document();
                let a = show(d.insert(Position::new(0), &mark(t, k)));
                let b = show(d.insert(Position::new(0), &mark(t, k)));
                format!("{a} {b} {}", d.text())
            }
            D::Undo => show(w.with_write(|d| d.undo().map(|_| ()))),
            D::Text => show(w.text()),
            D::Sizes => show(w.with_read(|d| (d.len_bytes(), d.len_lines(), d.can_undo()))),
            D::Clone => show(w.clone_document().map(|d| d.text())),
            D::Validate => show(w.validate_comprehensive().map(|v| v.len())),
            D::TryRead => w.try_read().map_or(BUSY.into(), |d| d.text()),
            D::TryWrite => w.try_write().map_or(BUSY.into(), |mut d| show(d.insert(Position::new(0), &mark(t, k)))),
        }
    }
    fn see(&self, w: &SyncDocument) -> String {
        let mut d = w.write().unwrap();
        let text = d.text();
        let script = d.parse_script_with(|s| s.sections().len()).unwrap();
        let mut back = 0;
        while d.undo().is_ok() {
            back += 1;
        }
        format!("{text} {script} {back} {}", d.text())
    }
    fn release_points(&self) -> bool {
        true
    }
}

// ---- a pool of documents ----

#[derive(Clone, Copy, Debug)]
enum P {
    Add,
    Get,
    Edit,
    Remove,
    Count,
    List,
}

const POOL_CALLS: [P; 6] = [P::Add, P::Edit, P::Remove, P::Get, P::Count, P::List];

struct Pools;

impl Program for Pools {
    type World = (DocumentPool, String);
    type Call = P;
    fn world(&self) -> Self::World {
        let p = DocumentPool::new();
        let id = p.add_document(EditorDocument::from_content(TEXT).unwrap()).unwrap();
        (p, id)
    }
    fn call(&self, (w, id): &Self::World, c: P, t: usize, k: usize) -> String {
        let w = w.clone();
        let plain = |s: String| s.replace(id.as_str(), "ID");
        match c {
            P::Add => match w.add_document(EditorDocument::from_content(&mark(t, k)).unwrap()) {
                Ok(i) => format!("{} {}", i != *id, show(w.get_document(&i).and_then(|d| d.text()))),
                Err(e) => e.to_string(),
            },
            P::Get => plain(show(w.get_document(id).and_then(|d| d.text()))),
            P::Edit => plain(show(w.get_document(id).and_then(|d| d.with_write(|d| d.insert(Position::new(0), &mark(t, k)))))),
            P::Remove => plain(show(w.remove_document(id))),
            P::Count => show(w.document_count()),
            P::List => show(w.list_documents().map(|v| (v.len(), v.contains(id), v.iter().collect::<BTreeSet<_>>().len()))),
        }
    }
    fn see(&self, (w, _): &Self::World) -> String {
        let mut v: Vec<String> = w.list_documents().unwrap().iter().map(|i| show(w.get_document(i).and_then(|d| d.text()))).collect();
        v.sort();
        format!("{v:?} {:?}", w.document_count())
    }
}

// ---- extensions ----

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum X {
    Load(usize),
    Init(usize),
    FailInit(usize),
    Unload(usize),
    FailUnload(usize),
    Cmd(usize),
    Config,
}

/// name, needs, commands
const EXT: [(&str, &[usize], &[&str]); 3] = [("a", &[], &["x", "p"]), ("b", &[0], &["q"]), ("c", &[], &["x"])];
const COMMANDS: [&str; 3] = ["x", "p", "q"];

struct Probe {
    n: usize,
    generation: usize,
    info: ExtensionInfo,
    log: Arc<Mutex<Vec<String>>>,
}

impl Probe {
    /// A callback; other threads may go on while it uses its context
    fn call(&self, what: &str, ctx: &mut dyn ExtensionContext) -> Result<(), EditorError> {
        let name = EXT[self.n].0;
        let who = format!("{name}#{}", self.generation);
        self.log.lock().unwrap().push(format!("{who} {what} begins"));
        let count = ctx.get_extension_data(name, "calls").map_or(0, |c| c.parse::<usize>().unwrap());
        ctx.set_extension_data("calls".into(), (count + 1).to_string())?;
        let fails = ctx.get_config("fail").is_some();
        self.log.lock().unwrap().push(format!("{who} {what} {}", if fails { "fails" } else { "ends" }));
        if fails {
            return Err(EditorError::CommandFailed { message: "fails".into() });
        }
        Ok(())
    }
}

impl EditorExtension for Probe {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, ctx: &mut dyn ExtensionContext) -> Result<(), EditorError> {
        self.call("init", ctx)
    }
    fn shutdown(&mut self, ctx: &mut dyn ExtensionContext) -> Result<(), EditorError> {
        self.call("stop", ctx)
    }
    fn state(&self) -> ExtensionState {
        ExtensionState::Active
    }
    fn execute_command(&mut self, id: &str, _: &HashMap<String, String>, ctx: &mut dyn ExtensionContext) -> Result<ExtensionResult, EditorError> {
        self.call(id, ctx)?;
        Ok(ExtensionResult::success_with_message(EXT[self.n].0.into()))
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        EXT[self.n].2.iter().map(|c| ExtensionCommand::new(c.to_string(), c.to_string(), String::new())).collect()
    }
}

struct Extensions {
    /// calls made before the threads start
    before: Vec<X>,
}

struct ExtWorld {
    m: ExtensionManager,
    made: AtomicUsize,
    log: Arc<Mutex<Vec<String>>>,
}

impl Program for Extensions {
    type World = ExtWorld;
    type Call = X;
    fn world(&self) -> ExtWorld {
        let w = ExtWorld { m: ExtensionManager::new(), made: AtomicUsize::new(0), log: Arc::default() };
        for c in &self.before {
            assert_eq!(self.call(&w, *c, 9, 9), "ok");
        }
        w
    }
    fn call(&self, w: &ExtWorld, c: X, t: usize, k: usize) -> String {
        let mut m = w.m.clone();
        let mut owner = w.m.clone();
        let host = match c {
            X::Init(n) | X::FailInit(n) | X::Unload(n) | X::FailUnload(n) => EXT[n].0,
            _ => "host",
        };
        if let X::Config = c {
            m.set_config(format!("{t}.{k}"), "1".into());
            return "ok".into();
        }
        if let X::Load(n) = c {
            let mut info = ExtensionInfo::new(EXT[n].0.into(), "1".into(), "".into(), "".into());
            for d in EXT[n].1 {
                info = info.with_dependency(EXT[*d].0.into());
            }
            let got = m.load_extension(Box::new(Probe { n, generation: w.made.fetch_add(1, Relaxed), info, log: w.log.clone() }));
            return if got.is_ok() { "ok" } else { "refused" }.into();
        }
        let mut ctx = owner.create_context(host.into(), None).unwrap();
        let args = HashMap::new();
        let got = match c {
            X::Init(n) | X::FailInit(n) => m.initialize_extension(EXT[n].0, &mut Failing(ctx.as_mut(), matches!(c, X::FailInit(_)))).map(|()| "ok".to_string()),
            X::Unload(n) | X::FailUnload(n) => m.unload_extension(EXT[n].0, &mut Failing(ctx.as_mut(), matches!(c, X::FailUnload(_)))).map(|()| "ok".to_string()),
            X::Cmd(n) => m.execute_command(COMMANDS[n], &args, ctx.as_mut()).map(|r| r.message.unwrap_or_default()),
            _ => unreachable!(),
        };
        match got {
            Ok(s) => s,
            Err(e) if e.to_string().contains("fails") => "failed".into(),
            Err(_) => "refused".into(),
        }
    }
    fn see(&self, w: &ExtWorld) -> String {
        // callbacks of one extension do not overlap; commands come to it only
        // once it has started, and nothing after it has stopped
        let log = w.log.lock().unwrap();
        let mut at: BTreeMap<&str, &str> = BTreeMap::new();
        for l in log.iter() {
            let p: Vec<&str> = l.split(' ').collect();
            let state = at.entry(p[0]).or_insert("new");
            let next = match (*state, p[1], p[2]) {
                ("new" | "idle", "init", "begins") => "init",
                ("init", "init", "ends") => "active",
                ("init", "init", "fails") => "idle",
                ("new" | "active" | "idle", "stop", "begins") => "stop",
                ("stop", "stop", "ends") => "gone",
                ("stop", "stop", "fails") => "idle",
                ("active", c, "begins") if COMMANDS.contains(&c) => "command",
                ("command", c, "ends") if COMMANDS.contains(&c) => "active",
                (s, ..) => return format!("{l:?} comes to an extension that is {s}: {log:?}"),
            };
            *state = next;
        }
        if at.values().any(|s| matches!(*s, "init" | "stop" | "command")) {
            return format!("a callback does not end: {log:?}");
        }
        let mut names = w.m.list_extensions();
        names.sort();
        let states: Vec<String> = names.iter().map(|n| format!("{n} {:?} {:?}", w.m.get_extension_state(n), w.m.get_extension_data(n, "calls"))).collect();
        let mut commands = w.m.list_commands();
        commands.sort();
        let mut config: Vec<String> = (0..3).flat_map(|t| (0..3).map(move |k| format!("{t}.{k}"))).filter(|k| w.m.get_config(k).is_some()).collect();
        config.sort();
        format!("{states:?} {commands:?} {config:?}")
    }
}

/// A context that makes the callback fail
struct Failing<'a>(&'a mut dyn ExtensionContext, bool);

impl ExtensionContext for Failing<'_> {
    fn current_document(&self) -> Option<&EditorDocument> {
        self.0.current_document()
    }
    fn current_document_mut(&mut self) -> Option<&mut EditorDocument> {
        self.0.current_document_mut()
    }
    fn send_event(&mut self, e: ass_editor::DocumentEvent) -> Result<(), EditorError> {
        self.0.send_event(e)
    }
    fn get_config(&self, key: &str) -> Option<String> {
        let got = self.0.get_config(key);
        if self.1 && key == "fail" {
            return Some(String::new());
        }
        got
    }
    fn set_config(&mut self, key: String, value: String) -> Result<(), EditorError> {
        self.0.set_config(key, value)
    }
    fn register_command(&mut self, c: ExtensionCommand) -> Result<(), EditorError> {
        self.0.register_command(c)
    }
    fn show_message(&mut self, m: &str, l: ass_editor::MessageLevel) -> Result<(), EditorError> {
        self.0.show_message(m, l)
    }
    fn get_extension_data(&self, n: &str, key: &str) -> Option<String> {
        self.0.get_extension_data(n, key)
    }
    fn set_extension_data(&mut self, key: String, value: String) -> Result<(), EditorError> {
        self.0.set_extension_data(key, value)
    }
}

/// Abstract extension manager: starting and stopping an extension are two
/// steps each, everything else is one
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
struct Model {
    /// state and callbacks of each loaded extension
    ext: BTreeMap<usize, (&'static str, usize)>,
    /// active extensions, the latest last
    active: Vec<usize>,
    /// which thread an extension is busy with
    busy: BTreeMap<usize, usize>,
    config: BTreeSet<(usize, usize)>,
    pc: Vec<usize>,
    middle: Vec<bool>,
    results: Vec<Vec<&'static str>>,
}

impl Model {
    fn offers(&self) -> BTreeSet<&'static str> {
        self.active.iter().flat_map(|n| EXT[*n].2.iter().copied()).collect()
    }
    fn seen(&self) -> String {
        let states: Vec<String> = self.ext.iter().map(|(n, (s, c))| format!("{} Some({s}) {:?}", EXT[*n].0, (*c > 0).then(|| c.to_string()))).collect();
        let config: Vec<String> = self.config.iter().map(|(t, k)| format!("{t}.{k}")).collect();
        format!("{states:?} {:?} {config:?}", self.offers().into_iter().collect::<Vec<_>>())
    }
    /// One step of a thread, or nothing if it has to wait
    fn step(&self, t: usize, c: X) -> Option<Model> {
        let mut m = self.clone();
        let k = self.pc[t];
        let mut end = |m: &mut Model, r: &'static str| {
            m.pc[t] += 1;
            m.results[t].push(r);
        };
        match c {
            X::Load(n) => {
                if m.ext.contains_key(&n) || !EXT[n].1.iter().all(|d| m.ext.contains_key(d)) {
                    end(&mut m, "refused");
                } else {
                    m.ext.insert(n, ("Uninitialized", 0));
                    end(&mut m, "ok");
                }
            }
            X::Init(n) | X::FailInit(n) if !m.middle[t] => {
                if m.busy.contains_key(&n) {
                    return None;
                }
                if !m.ext.contains_key(&n) || m.ext[&n].0 == "Active" || !EXT[n].1.iter().all(|d| m.ext.contains_key(d)) {
                    end(&mut m, "refused");
                } else {
                    m.ext.get_mut(&n).unwrap().0 = "Initializing";
                    m.busy.insert(n, t);
                    m.middle[t] = true;
                }
            }
            X::Init(n) | X::FailInit(n) => {
                let e = m.ext.get_mut(&n).unwrap();
                e.1 += 1;
                if let X::Init(_) = c {
                    e.0 = "Active";
                    m.active.push(n);
                    end(&mut m, "ok");
                } else {
                    e.0 = "Error";
                    end(&mut m, "failed");
                }
                m.busy.remove(&n);
                m.middle[t] = false;
            }
            X::Unload(n) | X::FailUnload(n) if !m.middle[t] => {
                if m.busy.contains_key(&n) {
                    return None;
                }
                if !m.ext.contains_key(&n) {
                    end(&mut m, "refused");
                } else {
                    m.ext.get_mut(&n).unwrap().0 = "ShuttingDown";
                    m.active.retain(|x| *x != n);
                    m.busy.insert(n, t);
                    m.middle[t] = true;
                }
            }
            X::Unload(n) | X::FailUnload(n) => {
                if let X::Unload(_) = c {
                    m.ext.remove(&n);
                    end(&mut m, "ok");
                } else {
                    let e = m.ext.get_mut(&n).unwrap();
                    *e = ("Error", e.1 + 1);
                    end(&mut m, "failed");
                }
                m.busy.remove(&n);
                m.middle[t] = false;
            }
            X::Cmd(id) => {
                match m.active.iter().rev().find(|n| EXT[**n].2.contains(&COMMANDS[id])).copied() {
                    Some(n) if m.busy.contains_key(&n) => return None,
                    Some(n) => {
                        // callbacks of a command count for the host
                        end(&mut m, EXT[n].0);
                    }
                    None => end(&mut m, "refused"),
                }
            }
            X::Config => {
                m.config.insert((t, k));
                end(&mut m, "ok");
            }
        }
        Some(m)
    }
}

/// Every outcome the model allows
fn outcomes(start: Model, threads: &[Vec<X>], r: &Run) -> BTreeSet<(Vec<Vec<&'static str>>, String)> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![start];
    let mut out = BTreeSet::new();
    while let Some(m) = todo.pop() {
        if !seen.insert(m.clone()) {
            continue;
        }
        r.state(&m);
        let mut last = true;
        for t in 0..threads.len() {
            if m.pc[t] < threads[t].len() {
                last = false;
                todo.extend(m.step(t, threads[t][m.pc[t]]));
            }
        }
        if last {
            out.insert((m.results.clone(), m.seen()));
        }
    }
    out
}

fn extensions(r: &Run, before: &[X], threads: &[Vec<X>], preemptions: usize) -> Result<(), String> {
    let mut m = Model { pc: vec![0], middle: vec![false], results: vec![vec![]], ..Default::default() };
    for c in before {
        m.pc = vec![0];
        while m.pc[0] == 0 {
            m = m.step(0, *c).unwrap();
        }
    }
    m.pc = vec![0; threads.len()];
    m.middle = vec![false; threads.len()];
    m.results = vec![vec![]; threads.len()];
    m.config.clear();
    let allowed = outcomes(m, threads, r);
    let p = Extensions { before: before.to_vec() };
    let named: Vec<Vec<_>> = threads.iter().enumerate().map(|(t, cs)| cs.iter().enumerate().map(|(k, c)| (*c, t, k)).collect()).collect();
    let done = explore(&p, &named, preemptions, |x| {
        r.beat();
        let got: Vec<Vec<&str>> = x.calls.iter().map(|c| c.iter().map(|e| e.result.as_str()).collect()).collect();
        if allowed.iter().any(|(rs, s)| *s == x.seen && rs.iter().zip(&got).all(|(a, b)| a == b)) {
            return Ok(());
        }
        Err(format!("after {before:?}, threads {threads:?} give {got:?} and leave {:?}; the lifecycle allows {allowed:?}", x.seen))
    })?;
    r.steps(done.steps);
    r.traces(done.schedules);
    Ok(())
}

/// The `i`-th choice of calls for threads with `lens` calls each
fn choose<C: Copy>(calls: &[C], lens: &[usize], i: u64) -> Vec<Vec<C>> {
    let all: usize = lens.iter().sum();
    let d = mixed(&vec![calls.len(); all], i);
    let mut d = d.iter().map(|x| calls[*x]);
    lens.iter().map(|l| d.by_ref().take(*l).collect()).collect()
}

fn count(calls: usize, lens: &[usize]) -> u64 {
    (calls as u64).pow(lens.iter().sum::<usize>() as u32)
}

pub fn e16(r: &Run) {
    r.rule("under every schedule at lock operations, no call panics, no thread waits for ever, and results and final state are those of some order of the same calls that keeps calls that do not overlap in order; for extensions, of the lifecycle with starting and stopping as two steps each");
    r.assume("a document is not `Sync` in this revision, so that the compiler keeps a shared document or pool on one thread; their schedules are explored all the same, one thread running at a time");
    r.assume("calls on a manager from inside a closure it runs under its own lock are left open");
    let run = |r: &Run, e: Result<crate::sched::Explored, String>| {
        e.map(|x| {
            r.steps(x.steps);
            r.traces(x.schedules);
        })
    };
    let shapes: &[(&[usize], usize, usize)] = &[(&[2, 1], 11, 99), (&[1, 1, 1], 11, 99), (&[2, 2], r.pick(5, 11), 99), (&[2, 1, 1], r.pick(0, 6), 99), (&[2, 2, 2], r.pick(0, 3), 99)];
    for (lens, n, pre) in shapes.iter().filter(|s| s.1 > 0) {
        for limit in [2, 3] {
            r.stage(&format!("sessions, at most {limit}, calls {lens:?}"), count(*n, lens), |i| {
                let t = choose(&SESSION_CALLS[..*n], lens, i);
                r.state(&(limit, i));
                run(r, linearisable(&Sessions { limit }, &t, *pre, || r.beat()))
            });
        }
    }
    let shapes: &[(&[usize], usize, usize)] = &[(&[1, 1], 10, 99), (&[2, 1], r.pick(8, 10), r.pick(3, 99)), (&[1, 1, 1], r.pick(7, 10), r.pick(2, 4)), (&[2, 2], r.pick(3, 7), r.pick(2, 4))];
    for (lens, n, pre) in shapes {
        r.stage(&format!("a document, calls {lens:?}"), count(*n, lens), |i| {
            let t = choose(&DOCUMENT_CALLS[..*n], lens, i);
            r.state(&("document", i));
            run(r, linearisable(&Documents, &t, *pre, || r.beat()))
        });
    }
    let shapes: &[(&[usize], usize, usize)] = &[(&[2, 1], 6, 99), (&[1, 1, 1], 6, 99), (&[2, 2], r.pick(3, 6), 99), (&[2, 1, 1], r.pick(0, 4), 4)];
    for (lens, n, pre) in shapes.iter().filter(|s| s.1 > 0) {
        r.stage(&format!("a pool, calls {lens:?}"), count(*n, lens), |i| {
            let t = choose(&POOL_CALLS[..*n], lens, i);
            r.state(&("pool", i));
            run(r, linearisable(&Pools, &t, *pre, || r.beat()))
        });
    }
    use X::*;
    let starts: [(&str, Vec<X>); 3] = [
        ("loaded", vec![Load(0), Load(2)]),
        ("active", vec![Load(0), Init(0), Load(1), Init(1), Load(2), Init(2)]),
        ("partly active", vec![Load(0), Init(0), Load(1), Load(2)]),
    ];
    let calls = [Init(0), Unload(0), Cmd(0), Load(0), Init(1), Unload(2), Init(2), Load(1), FailInit(0), FailUnload(2), Cmd(1), Cmd(2), Config];
    let shapes: &[(&[usize], usize, usize)] = &[(&[1, 1], 13, r.pick(3, 99)), (&[2, 1], r.pick(10, 13), r.pick(2, 4)), (&[1, 1, 1], r.pick(6, 10), r.pick(2, 3)), (&[2, 2], r.pick(4, 8), r.pick(1, 3))];
    for (name, before) in &starts {
        for (lens, n, pre) in shapes {
            r.stage(&format!("extensions, {name}, calls {lens:?}"), count(*n, lens), |i| extensions(r, before, &choose(&calls[..*n], lens, i), *pre));
        }
    }
}
