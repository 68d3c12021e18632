//! E15: the lifecycle of extensions.
use ass_editor::core::{EditorDocument, EditorError};
use ass_editor::extensions::builtin::{auto_complete::AutoCompleteExtension, syntax_highlight::SyntaxHighlightExtension};
use ass_editor::{EditorExtension, ExtensionCommand, ExtensionContext, ExtensionInfo, ExtensionManager, ExtensionResult, ExtensionState};
use mc_common::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// name, dependencies, commands
type Spec = (&'static str, &'static [&'static str], &'static [&'static str]);

const SETS: [[Spec; 3]; 2] = [
    // one needs another; a third shares a command with the first
    [("a", &[], &["x", "a"]), ("ab", &["a"], &["b"]), ("c", &[], &["x", "c"])],
    // a chain, and one whose command has the name of another extension
    [("a", &[], &["a"]), ("b", &["a"], &["x"]), ("c", &["b", "a"], &["x", "b"])],
];
const COMMANDS: [&str; 5] = ["x", "a", "b", "c", ""];

#[derive(Default)]
struct Ctl {
    log: Vec<String>,
    fail: bool,
    wrong: Option<String>,
}

struct Mock {
    spec: Spec,
    info: ExtensionInfo,
    state: ExtensionState,
    ctl: Arc<Mutex<Ctl>>,
    manager: ExtensionManager,
}

impl Mock {
    fn new(spec: Spec, ctl: &Arc<Mutex<Ctl>>, manager: &ExtensionManager) -> Self {
        let mut info = ExtensionInfo::new(spec.0.into(), "1".into(), "".into(), "".into());
        for d in spec.1 {
            info = info.with_dependency(d.to_string());
        }
        Self { spec, info, state: ExtensionState::Uninitialized, ctl: ctl.clone(), manager: manager.clone() }
    }
    /// One callback: note it, use the manager through the context, fail if told
    fn call(&mut self, what: &str, during: ExtensionState, ctx: &mut dyn ExtensionContext) -> Result<(), EditorError> {
        let n = self.spec.0;
        let seen = self.manager.get_extension_state(n);
        let count = ctx.get_config("calls").map_or(0, |c| c.parse::<usize>().unwrap());
        ctx.set_config("calls".into(), (count + 1).to_string())?;
        let mine = ctx.get_extension_data(n, "calls").map_or(0, |c| c.parse::<usize>().unwrap());
        ctx.set_extension_data("calls".into(), (mine + 1).to_string())?;
        let mut c = self.ctl.lock().unwrap();
        if seen != Some(during) {
            c.wrong = Some(format!("extension {n} is {seen:?} while its {what} runs"));
        }
        c.log.push(format!("{what} {n}"));
        if c.fail {
            return Err(EditorError::CommandFailed { message: format!("{what} {n} fails") });
        }
        Ok(())
    }
}

impl EditorExtension for Mock {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, ctx: &mut dyn ExtensionContext) -> Result<(), EditorError> {
        self.call("initialize", ExtensionState::Initializing, ctx)?;
        self.state = ExtensionState::Active;
        Ok(())
    }
    fn shutdown(&mut self, ctx: &mut dyn ExtensionContext) -> Result<(), EditorError> {
        self.call("shutdown", ExtensionState::ShuttingDown, ctx)?;
        self.state = ExtensionState::Shutdown;
        Ok(())
    }
    fn state(&self) -> ExtensionState {
        self.state
    }
    fn execute_command(&mut self, id: &str, args: &HashMap<String, String>, ctx: &mut dyn ExtensionContext) -> Result<ExtensionResult, EditorError> {
        let arg = args.get("arg").cloned().unwrap_or_default();
        self.call(&format!("{id}({arg})"), ExtensionState::Active, ctx)?;
        Ok(ExtensionResult::success_with_message(format!("{id} of {}", self.spec.0)).with_data("arg".into(), arg))
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        self.spec.2.iter().map(|c| ExtensionCommand::new(c.to_string(), c.to_string(), String::new())).collect()
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Load(usize),
    Init(usize, bool),
    Unload(usize, bool),
    Run(usize, bool),
}

fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    for n in 0..3 {
        v.extend([Op::Load(n), Op::Init(n, false), Op::Init(n, true), Op::Unload(n, false), Op::Unload(n, true)]);
    }
    v.extend([Op::Run(0, false), Op::Run(0, true), Op::Run(1, false)]);
    v
}

/// What is visible of the manager
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Seen {
    /// name -> state, calls counted in its own data
    ext: BTreeMap<&'static str, (String, usize)>,
    commands: Vec<String>,
    calls: usize,
}

fn see(m: &ExtensionManager, set: &[Spec; 3]) -> Result<Seen, String> {
    let mut listed = m.list_extensions();
    listed.sort();
    let mut s = Seen::default();
    for (n, _, _) in set {
        let state = m.get_extension_state(n);
        if state.is_some() != listed.iter().any(|l| l == n) {
            return Err(format!("extension {n} is in state {state:?} and the extensions are {listed:?}"));
        }
        let calls = m.get_extension_data(n, "calls").map_or(0, |c| c.parse().unwrap());
        match state {
            Some(st) => drop(s.ext.insert(n, (format!("{st:?}"), calls))),
            None if calls > 0 => return Err(format!("data of extension {n} remain after it is unloaded")),
            None => {}
        }
    }
    if listed.len() != s.ext.len() {
        return Err(format!("the extensions are {listed:?}"));
    }
    s.commands = m.list_commands();
    s.commands.sort();
    s.calls = m.get_config("calls").map_or(0, |c| c.parse().unwrap());
    // commands are offered exactly while an owner is active
    let mut want: Vec<&str> = set.iter().filter(|x| s.ext.get(x.0).is_some_and(|e| e.0 == "Active")).flat_map(|x| x.2.iter().copied()).collect();
    want.sort();
    want.dedup();
    if s.commands != want {
        return Err(format!("commands {:?} are offered instead of {want:?} when the extensions are {:?}", s.commands, s.ext));
    }
    Ok(s)
}

/// Everything that is seen apart from one extension and what belongs to it
fn others(s: &Seen, n: &str) -> BTreeMap<&'static str, (String, usize)> {
    let mut e = s.ext.clone();
    e.remove(n);
    e
}

struct World {
    m: ExtensionManager,
    ctl: Arc<Mutex<Ctl>>,
    set: [Spec; 3],
}

impl World {
    fn new(set: [Spec; 3]) -> Self {
        Self { m: ExtensionManager::new(), ctl: Arc::default(), set }
    }
    fn call<T>(&mut self, n: &str, fail: bool, f: impl FnOnce(&mut ExtensionManager, &mut dyn ExtensionContext) -> Result<T, EditorError>) -> Result<(Result<T, EditorError>, Vec<String>), String> {
        {
            let mut c = self.ctl.lock().unwrap();
            c.fail = fail;
            c.log.clear();
        }
        let mut owner = self.m.clone();
        let mut ctx = owner.create_context(n.to_string(), None).map_err(|e| e.to_string())?;
        let got = f(&mut self.m, ctx.as_mut());
        let mut c = self.ctl.lock().unwrap();
        if let Some(w) = c.wrong.take() {
            return Err(w);
        }
        Ok((got, std::mem::take(&mut c.log)))
    }
    fn step(&mut self, before: &Seen, op: Op) -> Result<Seen, String> {
        let set = self.set;
        let state = |n: &str| before.ext.get(n).map(|e| e.0.as_str());
        let calls = |s: &Seen, n: &str| s.ext.get(n).map_or(0, |e| e.1);
        let met = |n: usize| set[n].1.iter().all(|d| before.ext.contains_key(d));
        let unchanged = |after: &Seen, log: &[String], what: &str| {
            if after != before || !log.is_empty() {
                return Err(format!("{what} is refused and yet calls {log:?} and turns {before:?} into {after:?}"));
            }
            Ok(())
        };
        match op {
            Op::Load(n) => {
                let name = set[n].0;
                let got = self.m.load_extension(Box::new(Mock::new(set[n], &self.ctl, &self.m)));
                let after = see(&self.m, &set)?;
                let log = std::mem::take(&mut self.ctl.lock().unwrap().log);
                if (state(name).is_none() && met(n)) != got.is_ok() {
                    return Err(format!("loading {name} gives {got:?} when {before:?}"));
                }
                if got.is_err() {
                    unchanged(&after, &log, "loading")?;
                } else {
                    let mut want = before.clone();
                    want.ext.insert(name, ("Uninitialized".into(), 0));
                    if after != want || !log.is_empty() {
                        return Err(format!("loading {name} calls {log:?} and turns {before:?} into {after:?}"));
                    }
                }
                Ok(after)
            }
            Op::Init(n, fail) => {
                let name = set[n].0;
                let (got, log) = self.call(name, fail, |m, ctx| m.initialize_extension(name, ctx))?;
                let after = see(&self.m, &set)?;
                if others(&after, name) != others(before, name) {
                    return Err(format!("initialising {name} turns {before:?} into {after:?}"));
                }
                if log.is_empty() {
                    if got.is_ok() {
                        return Err(format!("{name} is initialised without being called"));
                    }
                    unchanged(&after, &log, "initialising")?;
                    // an extension may be initialised once only
                    if met(n) && matches!(state(name), Some("Uninitialized" | "Shutdown")) {
                        return Err(format!("initialising {name} gives {got:?} when {before:?}"));
                    }
                    return Ok(after);
                }
                if log != [format!("initialize {name}")] {
                    return Err(format!("initialising {name} calls {log:?}"));
                }
                if state(name).is_none() || !met(n) {
                    return Err(format!("{name} is initialised when {before:?}"));
                }
                let (want, told) = if fail { ("Error", got.is_err()) } else { ("Active", got.is_ok()) };
                if !told || after.ext.get(name).map(|e| e.0.as_str()) != Some(want) {
                    return Err(format!("initialising {name}, which {}, gives {got:?} and turns {before:?} into {after:?}", if fail { "fails" } else { "succeeds" }));
                }
                if (calls(&after, name), after.calls) != (calls(before, name) + 1, before.calls + 1) {
                    return Err(format!("what {name} stored while it was initialised is lost: {before:?} becomes {after:?}"));
                }
                Ok(after)
            }
            Op::Unload(n, fail) => {
                let name = set[n].0;
                let (got, log) = self.call(name, fail, |m, ctx| m.unload_extension(name, ctx))?;
                let after = see(&self.m, &set)?;
                if others(&after, name) != others(before, name) {
                    return Err(format!("unloading {name} turns {before:?} into {after:?}"));
                }
                if state(name).is_none() {
                    return unchanged(&after, &log, "unloading").map(|()| after);
                }
                let needed = set.iter().any(|x| x.1.contains(&name) && before.ext.contains_key(x.0));
                if log.is_empty() {
                    // never started, so nothing to shut down; or still needed
                    let skipped = got.is_ok() && state(name) == Some("Uninitialized");
                    if !skipped {
                        unchanged(&after, &log, "unloading")?;
                        if got.is_ok() || !needed {
                            return Err(format!("unloading {name} gives {got:?} when {before:?}"));
                        }
                        return Ok(after);
                    }
                } else if log != [format!("shutdown {name}")] {
                    return Err(format!("unloading {name} calls {log:?}"));
                } else if after.calls != before.calls + 1 {
                    return Err(format!("what {name} stored while it was shut down is lost: {before:?} becomes {after:?}"));
                }
                if fail && !log.is_empty() {
                    if got.is_ok() {
                        return Err(format!("the failed shutdown of {name} is not told"));
                    }
                    match after.ext.get(name) {
                        Some((s, c)) if s == "Error" && *c == calls(before, name) + 1 => {}
                        o => return Err(format!("{name} is {o:?} after it failed to shut down; before: {before:?}")),
                    }
                } else if got.is_err() || after.ext.contains_key(name) {
                    return Err(format!("unloading {name} gives {got:?} and turns {before:?} into {after:?}"));
                }
                Ok(after)
            }
            Op::Run(k, fail) => {
                let id = COMMANDS[k];
                self.run(before, id, fail)?;
                see(&self.m, &set)
            }
        }
    }
    /// Run a command: its active owner is called once, or nothing happens
    fn run(&mut self, before: &Seen, id: &str, fail: bool) -> Result<(), String> {
        let set = self.set;
        let args = HashMap::from([("arg".to_string(), "7".to_string())]);
        let (got, log) = self.call("host", fail, |m, ctx| m.execute_command(id, &args, ctx))?;
        let owners: Vec<&Spec> = set.iter().filter(|x| x.2.contains(&id) && before.ext.get(x.0).is_some_and(|e| e.0 == "Active")).collect();
        let after = see(&self.m, &set)?;
        let states = |s: &Seen| s.ext.iter().map(|(n, e)| (*n, e.0.clone())).collect::<Vec<_>>();
        if states(before) != states(&after) {
            return Err(format!("running {id:?} turns {before:?} into {after:?}"));
        }
        if owners.is_empty() {
            if got.is_ok() || !log.is_empty() {
                return Err(format!("running {id:?}, which nobody offers, gives {got:?} and calls {log:?}"));
            }
            return Ok(());
        }
        let Some(who) = owners.iter().find(|o| log == [format!("{id}(7) {}", o.0)]) else {
            return Err(format!("running {id:?} calls {log:?} when {before:?}"));
        };
        match got {
            Err(_) if fail => Ok(()),
            Ok(r) if !fail && r.success && r.message.as_deref() == Some(&format!("{id} of {}", who.0)) && r.data.get("arg").map(String::as_str) == Some("7") => Ok(()),
            o => Err(format!("running {id:?} gives {o:?} when it {}", if fail { "fails" } else { "succeeds" })),
        }
    }
}

pub fn e15(r: &Run) {
    r.rule("states, listed extensions, offered commands, data and the callbacks made after every operation of a history are what the lifecycle allows; refused operations change nothing, failed ones only their own extension");
    r.assume("whether an active extension may be initialised again, an extension unloaded that others need, and which of two active owners of one command runs, is left open");
    let all = ops();
    let depth = r.pick(5, 6);
    for (si, set) in SETS.iter().enumerate() {
        let depth = depth - si;
        r.stage(&format!("histories, set {si}"), seq_count(all.len(), depth), |i| {
            let seq = seq_at(all.len(), i);
            if seq.len() < depth.min(2) {
                return Ok(());
            }
            // histories that load nothing first are covered by the short ones
            if seq.len() > 3 && !matches!(all[seq[0]], Op::Load(_)) {
                return Ok(());
            }
            let mut w = World::new(*set);
            let mut seen = see(&w.m, set)?;
            for (k, &o) in seq.iter().enumerate() {
                seen = w.step(&seen, all[o]).map_err(|e| format!("{e} (step {k} of {:?})", seq.iter().map(|&o| all[o]).collect::<Vec<_>>()))?;
                r.steps(1);
            }
            r.state(&(si, &seen));
            for id in COMMANDS {
                w.run(&seen, id, false).and_then(|()| {
                    seen = see(&w.m, set)?;
                    Ok(())
                }).map_err(|e| format!("{e} (after {:?})", seq.iter().map(|&o| all[o]).collect::<Vec<_>>()))?;
            }
            Ok(())
        });
    }
    // longer histories from a state in which everything is loaded and active
    for (si, set) in SETS.iter().enumerate() {
        let depth = r.pick(3, 5);
        r.stage(&format!("histories after start-up, set {si}"), 2 * seq_count(all.len(), depth), |i| {
            let d = mixed(&[2], i);
            let seq = seq_at(all.len(), i / 2);
            let mut w = World::new(*set);
            let mut seen = see(&w.m, set)?;
            let mut start: Vec<Op> = (0..3).map(Op::Load).collect();
            start.extend((0..3).map(|n| Op::Init(if d[0] == 0 { n } else { 2 - n }, false)));
            for op in start.into_iter().chain(seq.iter().map(|&o| all[o])) {
                seen = w.step(&seen, op).map_err(|e| format!("{e} (after start-up {}, {:?})", d[0], seq.iter().map(|&o| all[o]).collect::<Vec<_>>()))?;
                r.steps(1);
            }
            r.state(&(si, &seen));
            Ok(())
        });
    }
    r.stage("extensions that come with the editor", seq_count(8, r.pick(3, 4)), |i| {
        let seq = seq_at(8, i);
        let mut doc = EditorDocument::from_content("[Script Info]\nTitle: a\n\n[V4+ Styles]\nFormat: Name\nStyle: S\n\n[Events]\nFormat: Start, End, Text\nDialogue: 0:00:00.00,0:00:01.00,{\\b1}x\n").unwrap();
        let text = doc.text();
        let names = ["syntax-highlight", "auto-complete"];
        let mut m = ExtensionManager::new();
        m.set_config("autocomplete.max_suggestions".into(), "3".into());
        let mut want: BTreeMap<&str, bool> = BTreeMap::new();
        for (k, &o) in seq.iter().enumerate() {
            let (n, kind) = (o % 2, o / 2);
            let name = names[n];
            let mut owner = m.clone();
            let there = want.get(name).copied();
            let got = match kind {
                0 => m.load_extension(if n == 0 { Box::new(SyntaxHighlightExtension::new()) } else { Box::new(AutoCompleteExtension::new()) }),
                _ => {
                    let mut ctx = owner.create_context(name.to_string(), Some(&mut doc)).map_err(|e| e.to_string())?;
                    match kind {
                        1 => m.initialize_extension(name, ctx.as_mut()),
                        2 => m.unload_extension(name, ctx.as_mut()),
                        _ => m.execute_command(["syntax.highlight", "autocomplete.trigger"][n], &HashMap::new(), ctx.as_mut()).map(|_| ()),
                    }
                }
            };
            let ok = match kind {
                0 => there.is_none(),
                1 => there.is_some(),
                2 => there.is_some(),
                _ => there == Some(true),
            };
            // whether it may be unloaded or started twice is left open
            let open = (kind == 1 && there == Some(true)) || (kind == 2 && there.is_none());
            if !open && got.is_ok() != ok {
                return Err(format!("step {k} of {seq:?} gives {got:?}"));
            }
            match kind {
                0 if ok => drop(want.insert(name, false)),
                1 if ok => drop(want.insert(name, true)),
                2 => drop(want.remove(name)),
                _ => {}
            }
            for name in names {
                let state = m.get_extension_state(name);
                let expect = want.get(name).map(|a| if *a { ExtensionState::Active } else { ExtensionState::Uninitialized });
                let offered = m.list_commands().iter().any(|c| c.starts_with(if name == "auto-complete" { "autocomplete." } else { "syntax." }));
                if state != expect || offered != (expect == Some(ExtensionState::Active)) {
                    return Err(format!("{name} is {state:?} instead of {expect:?} and its commands are {} (step {k} of {seq:?})", if offered { "offered" } else { "not offered" }));
                }
            }
            r.steps(1);
        }
        if doc.text() != text {
            return Err(format!("the document becomes {:?}", doc.text()));
        }
        r.state(&want);
        Ok(())
    });
}
