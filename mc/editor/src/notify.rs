//! E14: the event channel. E17: what a document tells its listeners.
use ass_editor::commands::{BatchCommand, InsertTextCommand, ReplaceTextCommand};
use ass_editor::core::{EditorDocument, EditorError, Position, Range};
use ass_editor::events::{DocumentEvent as E, EventChannel, EventChannelConfig, EventFilter, EventHandler};
use mc_common::*;
use std::collections::HashMap;
use std::sync::{mpsc, Arc, Mutex};

fn pos(n: usize) -> Position {
    Position::new(n)
}

/// One event of each kind, with its name, whether it changes the document and whether it moves the cursor
fn kinds() -> Vec<(E, &'static str, bool, bool)> {
    let s = || "s".to_string();
    let range = Range::new(pos(1), pos(2));
    vec![
        (E::text_inserted(pos(0), s()), "TextInserted", true, false),
        (E::cursor_moved(pos(0), pos(1)), "CursorMoved", false, true),
        (E::CustomEvent { event_type: "X".into(), data: HashMap::new() }, "X", false, false),
        (E::UndoPerformed { action_description: s(), changes_count: 1 }, "UndoPerformed", true, false),
        (E::text_deleted(range, s()), "TextDeleted", true, false),
        (E::text_replaced(range, s(), s()), "TextReplaced", true, false),
        (E::SelectionChanged { old_selection: None, new_selection: Some(range) }, "SelectionChanged", false, true),
        (E::DocumentSaved { file_path: s(), save_as: true }, "DocumentSaved", false, false),
        (E::DocumentLoaded { file_path: s(), size: 1 }, "DocumentLoaded", false, false),
        (E::RedoPerformed { action_description: s(), changes_count: 1 }, "RedoPerformed", true, false),
        (E::ValidationCompleted { issues_count: 1, error_count: 1, warning_count: 0, validation_time_ms: 1 }, "ValidationCompleted", false, false),
        (E::SearchCompleted { pattern: s(), matches_count: 1, hit_limit: false, search_time_us: 1 }, "SearchCompleted", false, false),
        (E::ParsingCompleted { success: true, sections_count: 1, parse_time_ms: 1, error_message: None }, "ParsingCompleted", false, false),
        (E::ExtensionChanged { extension_name: s(), loaded: true }, "ExtensionChanged", false, false),
        (E::ConfigChanged { key: s(), old_value: None, new_value: s() }, "ConfigChanged", false, false),
    ]
}

#[derive(Clone, Debug, Default, PartialEq, Hash)]
struct Filter {
    include: Vec<&'static str>,
    exclude: Vec<&'static str>,
    mods: Option<bool>,
    cursor: Option<bool>,
}

impl Filter {
    fn build(&self) -> EventFilter {
        let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect();
        let mut f = EventFilter::new();
        if !self.include.is_empty() {
            f = f.include_types(own(&self.include));
        }
        if !self.exclude.is_empty() {
            f = f.exclude_types(own(&self.exclude));
        }
        if let Some(m) = self.mods {
            f = f.include_modifications(m);
        }
        if let Some(c) = self.cursor {
            f = f.include_cursor_events(c);
        }
        f
    }
    fn takes(&self, name: &str, changes: bool, cursor: bool) -> bool {
        (self.include.is_empty() || self.include.contains(&name)) && !self.exclude.contains(&name) && self.mods.is_none_or(|m| m == changes) && self.cursor.is_none_or(|c| c == cursor)
    }
}

type Log = Arc<Mutex<Vec<(usize, E)>>>;

struct Handler {
    serial: usize,
    filter: Filter,
    priority: i32,
    fails: bool,
    log: Log,
}

impl EventHandler for Handler {
    fn handle_event(&mut self, event: &E) -> Result<(), EditorError> {
        self.log.lock().unwrap().push((self.serial, event.clone()));
        match self.fails {
            true => Err(EditorError::CommandFailed { message: format!("handler {}", self.serial) }),
            false => Ok(()),
        }
    }
    fn event_filter(&self) -> EventFilter {
        self.filter.build()
    }
    fn priority(&self) -> i32 {
        self.priority
    }
}

#[derive(Clone, Debug)]
enum Op {
    Register(usize),
    /// the n-th handler ever registered
    Unregister(usize),
    Dispatch(usize),
    Batch(&'static [usize]),
    Clear,
    Queue(usize),
    Take,
}

fn handler(kind: usize) -> (Filter, i32, bool) {
    let f = Filter::default();
    match kind {
        0 => (f, 0, false),
        1 => (Filter { mods: Some(true), ..f }, 5, false),
        2 => (Filter { include: vec!["CursorMoved", "X"], ..f }, 0, true),
        3 => (Filter { exclude: vec!["TextInserted"], ..f }, i32::MIN, false),
        _ => (f, i32::MAX, true),
    }
}

/// A failure is told, and is that of one of the failing handlers
fn failure(got: &Result<(), EditorError>, failing: &[usize]) -> Result<(), String> {
    let ok = match got {
        Ok(()) => failing.is_empty(),
        Err(EditorError::CommandFailed { message }) => failing.iter().any(|n| *message == format!("handler {n}")),
        Err(_) => false,
    };
    ok.then_some(()).ok_or_else(|| format!("dispatching gives {got:?} when handlers {failing:?} fail"))
}

struct Here {
    id: usize,
    serial: usize,
    filter: Filter,
    priority: i32,
    fails: bool,
}

fn history(r: &Run, seq: &[Op], limit: usize, config: EventChannelConfig) -> Result<(), String> {
    let all = kinds();
    let log: Log = Default::default();
    let queue = config.max_async_queue_size;
    let mut ch = EventChannel::with_config(config);
    let mut rx = None;
    let (mut here, mut ids): (Vec<Here>, Vec<usize>) = (vec![], vec![]);
    let (mut dispatched, mut filtered, mut queued) = (0, 0, 0);
    let mut waiting: Vec<usize> = vec![];
    for op in seq {
        r.steps(1);
        match op {
            Op::Register(kind) => {
                let (filter, priority, fails) = handler(*kind);
                let serial = ids.len();
                let got = ch.register_handler(Box::new(Handler { serial, filter: filter.clone(), priority, fails, log: log.clone() }));
                if here.len() >= limit {
                    if got.is_ok() {
                        return Err("a handler over the limit is taken".into());
                    }
                } else {
                    let id = got.map_err(|e| e.to_string())?;
                    if ids.contains(&id) {
                        return Err(format!("two handlers have the number {id}"));
                    }
                    ids.push(id);
                    here.push(Here { id, serial, filter, priority, fails });
                }
            }
            Op::Unregister(n) => {
                let id = ids.get(*n).copied().unwrap_or(usize::MAX);
                let was = here.iter().any(|h| h.id == id);
                here.retain(|h| h.id != id);
                let got = ch.unregister_handler(id);
                if got != Ok(was) {
                    return Err(format!("removing handler {n} gives {got:?}"));
                }
            }
            Op::Dispatch(_) | Op::Batch(_) => {
                let events = match op {
                    Op::Dispatch(e) => std::slice::from_ref(e),
                    Op::Batch(b) => b,
                    _ => unreachable!(),
                };
                let got = match op {
                    Op::Dispatch(e) => ch.dispatch(all[*e].0.clone()),
                    _ => ch.dispatch_batch(events.iter().map(|&e| all[e].0.clone()).collect()),
                };
                let mut seen = std::mem::take(&mut *log.lock().unwrap()).into_iter();
                let mut failing = vec![];
                for &e in events {
                    let (event, name, changes, cursor) = &all[e];
                    let mut want: Vec<&Here> = here.iter().filter(|h| h.filter.takes(name, *changes, *cursor)).collect();
                    dispatched += 1;
                    filtered += here.len() - want.len();
                    failing.extend(want.iter().filter(|h| h.fails).map(|h| h.serial));
                    let mut last = i32::MAX;
                    while !want.is_empty() {
                        let Some((serial, what)) = seen.next() else {
                            return Err(format!("{name} does not reach handlers {:?}", want.iter().map(|h| h.serial).collect::<Vec<_>>()));
                        };
                        let Some(at) = want.iter().position(|h| h.serial == serial) else {
                            return Err(format!("{name} reaches handler {serial}"));
                        };
                        let h = want.remove(at);
                        if h.priority > last || what != *event {
                            return Err(format!("handler {serial} gets {what:?} after one of priority {last}"));
                        }
                        last = h.priority;
                    }
                }
                if let Some((serial, what)) = seen.next() {
                    return Err(format!("handler {serial} gets {what:?}"));
                }
                failure(&got, &failing)?;
            }
            Op::Clear => {
                ch.clear_handlers().map_err(|e| e.to_string())?;
                here.clear();
            }
            Op::Queue(e) => {
                let got = ch.dispatch_async(all[*e].0.clone());
                if rx.is_none() {
                    if got.is_ok() {
                        return Err("an event is queued where nobody can take it".into());
                    }
                    rx = Some(ch.setup_async());
                } else if waiting.len() >= queue {
                    if got.is_ok() {
                        return Err("an event is queued beyond the limit".into());
                    }
                } else {
                    got.map_err(|e| e.to_string())?;
                    waiting.push(*e);
                    queued += 1;
                }
            }
            Op::Take => {
                if let Some(rx) = &mut rx {
                    let got = rx.try_next().ok().flatten();
                    let want = (!waiting.is_empty()).then(|| all[waiting.remove(0)].0.clone());
                    if got != want {
                        return Err(format!("the queue gives {got:?} instead of {want:?}"));
                    }
                }
            }
        }
        let s = ch.stats();
        let got = (s.handlers_count, s.events_dispatched, s.events_filtered, s.async_events_queued);
        let want = (here.len(), dispatched, filtered, queued);
        if got != want {
            return Err(format!("handlers, events dispatched, filtered and queued are {got:?} instead of {want:?}"));
        }
        if !log.lock().unwrap().is_empty() {
            return Err(format!("{op:?} reaches a handler"));
        }
    }
    r.state(&(here.iter().map(|h| (h.serial, h.priority)).collect::<Vec<_>>(), dispatched, filtered, waiting));
    Ok(())
}

pub fn e14(r: &Run) {
    r.rule("every event reaches exactly the handlers registered at that moment whose filters take it, once, higher priority first; failures are told and keep it from nobody; limits and counts are a plain table's");
    // each filter on each kind of event
    const SETS: [&[&str]; 5] = [&[], &["TextInserted"], &["CursorMoved", "X"], &["UndoPerformed", "SelectionChanged", "TextInserted"], &["textinserted", "Text"]];
    const OPT: [Option<bool>; 3] = [None, Some(true), Some(false)];
    r.stage("filters", 5 * 5 * 9, |i| {
        let k = mixed(&[5, 5, 3, 3], i);
        let f = Filter { include: SETS[k[0]].to_vec(), exclude: SETS[k[1]].to_vec(), mods: OPT[k[2]], cursor: OPT[k[3]] };
        r.state(&f);
        for (e, name, changes, cursor) in kinds() {
            r.steps(1);
            let (got, want) = (f.build().matches(&e), f.takes(name, changes, cursor));
            if got != want || e.is_modification() != changes {
                return Err(format!("{f:?} on {name} gives {got} instead of {want}, a change: {}", e.is_modification()));
            }
        }
        Ok(())
    });
    let mut ops: Vec<Op> = (0..5).map(Op::Register).collect();
    ops.extend((0..3).map(Op::Unregister));
    ops.extend((0..3).map(Op::Dispatch));
    ops.extend([Op::Batch(&[0, 1]), Op::Batch(&[1, 2, 3, 0]), Op::Clear]);
    let go = |name: &str, ops: &[Op], depth: usize, limit: usize, batching: bool| {
        r.stage(name, seq_count(ops.len(), depth), |i| {
            let seq: Vec<Op> = seq_at(ops.len(), i).into_iter().map(|k| ops[k].clone()).collect();
            if seq.len() < 3 {
                return Ok(());
            }
            let config = EventChannelConfig { max_handlers: limit, max_async_queue_size: 2, enable_batching: batching, max_batch_size: 3, enable_logging: false };
            history(r, &seq, limit, config).map_err(|e| format!("{e} in {seq:?}"))
        });
    };
    go("handlers", &ops, r.pick(6, 7), 3, false);
    go("handlers, batches, limit 2", &ops, r.pick(4, 5), 2, true);
    let queue = [Op::Queue(0), Op::Queue(1), Op::Take, Op::Register(4), Op::Dispatch(2)];
    go("queue", &queue, r.pick(7, 9), 1, true);
}

/// Applies a change to the text as it was
fn apply(text: &mut String, e: &E) -> Result<(), String> {
    let (at, old, new) = match e {
        E::TextInserted { position, text, length } if *length == text.len() => (position.offset, "", text.as_str()),
        E::TextDeleted { range, deleted_text } if range.end.offset - range.start.offset == deleted_text.len() => (range.start.offset, deleted_text.as_str(), ""),
        E::TextReplaced { range, old_text, new_text } if range.end.offset - range.start.offset == old_text.len() => (range.start.offset, old_text.as_str(), new_text.as_str()),
        e => return Err(format!("the event {e:?}")),
    };
    if text.get(at..at + old.len()) != Some(old) {
        return Err(format!("{e:?} on {text:?}"));
    }
    text.replace_range(at..at + old.len(), new);
    Ok(())
}

const OPS: usize = 17;

/// (what was tried, whether it worked, is it undo or redo)
fn act(d: &mut EditorDocument, op: usize, k: usize) -> (bool, u8) {
    let n = d.len_bytes();
    let text = d.text();
    let mid = text.find('\u{e9}').unwrap_or(n);
    let word = ["", "b", "x\u{e9}y", "\n[V4+ Styles]\nStyle: a,b\n", "Title"][k % 5];
    let range = |a, b| Range::new(pos(a), pos(b));
    let first = Range::new(pos(0), pos(text.chars().next().map_or(0, char::len_utf8)));
    let ok = match op {
        0 => d.insert(pos(0), word).is_ok(),
        1 => d.insert(pos(mid), "-").is_ok(),
        2 => d.delete(range(mid, n)).is_ok(),
        3 => d.delete(first).is_ok(),
        4 => d.replace(first, word).is_ok(),
        5 => d.replace(range(mid, n), "\u{e9}\n").is_ok(),
        6 => d.insert(pos(n + 1), "x").is_ok(),
        7 => d.edit_incremental(first, word).is_ok(),
        8 => d.edit_incremental(range(mid, n), &format!("[Events]\n{}", "x".repeat(120))).is_ok(),
        9 => d.delete_incremental(first).is_ok(),
        10 => d.set_script_info_field("Title", ["a", "a", "b\u{e9}"][k % 3]).is_ok(),
        11 => d.edit_event_text("l", "L\u{e9}").is_ok(),
        12 => d.execute_command(&InsertTextCommand::new(pos(0), "c".into())).is_ok(),
        13 => {
            let b = BatchCommand::new("both".into()).add_command(Box::new(InsertTextCommand::new(pos(0), "1".into()))).add_command(Box::new(ReplaceTextCommand::new(first, "2".into())));
            d.execute_command(&b).is_ok()
        }
        14 => {
            let b = BatchCommand::new("neither".into()).add_command(Box::new(InsertTextCommand::new(pos(0), "1".into()))).add_command(Box::new(InsertTextCommand::new(pos(n + 9), "2".into())));
            d.execute_command(&b).is_ok_and(|r| r.success)
        }
        15 => return (d.undo().is_ok(), 1),
        _ => return (d.redo().is_ok(), 2),
    };
    (ok, 0)
}

pub fn e17(r: &Run) {
    r.rule("applying the announced changes to the text a listener has gives the document's text after every operation; a change is announced by one event, undo and redo by theirs, and what fails by none");
    r.assume("a listener reads the text again after an undo or redo, whose events do not carry it");
    let starts = ["", "[Script Info]\nTitle: l\u{e9}\n[Events]\nFormat: Start, Text\nDialogue: 0:00:01.00,l", "\u{e9}l\r\n"];
    r.stage("histories", starts.len() as u64 * seq_count(OPS, r.pick(5, 6)), |i| {
        let start = starts[i as usize % starts.len()];
        let seq = seq_at(OPS, i / starts.len() as u64);
        let mut d = EditorDocument::from_content(start).map_err(|e| e.to_string())?;
        let (tx, rx) = mpsc::channel();
        d.set_event_channel(tx);
        let mut seen = start.to_string();
        for (k, &op) in seq.iter().enumerate() {
            let what = |e: String| format!("{e} (operation {k} of {seq:?} on {start:?})");
            let before = d.text();
            let (ok, again) = act(&mut d, op, k);
            r.steps(1);
            let now = d.text();
            let events: Vec<E> = rx.try_iter().collect();
            if events.len() > 1 || (!ok && !events.is_empty()) || (now != before && events.is_empty()) {
                return Err(what(format!("from {before:?} to {now:?}, worked {ok}: {events:?}")));
            }
            if again > 0 {
                let good = match events.first() {
                    None => !ok,
                    Some(E::UndoPerformed { changes_count: 1, .. }) => again == 1,
                    Some(E::RedoPerformed { changes_count: 1, .. }) => again == 2,
                    _ => false,
                };
                if !good {
                    return Err(what(format!("undo or redo, worked {ok}, is announced as {events:?}")));
                }
                seen = now.clone();
            } else if let Some(e) = events.first() {
                apply(&mut seen, e).map_err(what)?;
            }
            if seen != now {
                return Err(what(format!("a listener has {seen:?} instead of {now:?}")));
            }
            if !d.has_event_channel() {
                return Err(what("the channel is gone".into()));
            }
        }
        r.state(&seen);
        Ok(())
    });
}
