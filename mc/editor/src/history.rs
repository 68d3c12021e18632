//! E02: undo and redo against a stack of texts.
use crate::text::{doc, rg};
use ass_core::parser::script::ScriptDeltaOwned;
use ass_editor::commands::{BatchCommand, CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand, CreateStyleCommand};
use ass_editor::core::builders::StyleBuilder;
use ass_editor::core::history::UndoStackConfig;
use ass_editor::core::{EditorDocument, Position};
use mc_common::*;

pub const DOCS: [&str; 3] = [
    "[Script Info]\nTitle: é\n\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,日本\n",
    "aé",
    "",
];

/// A command that edits and then fails, one way or the other.
#[derive(Debug)]
struct Broken(bool);
impl EditorCommand for Broken {
    fn execute(&self, d: &mut EditorDocument) -> ass_editor::core::Result<CommandResult> {
        d.insert(Position::new(0), "half")?;
        if self.0 {
            d.delete(rg(9, 3))?;
        }
        Ok(CommandResult::failure("no".into()))
    }
    fn description(&self) -> &str {
        "broken"
    }
}
/// A command that edits through the document's own editing calls.
#[derive(Debug)]
struct Nested;
impl EditorCommand for Nested {
    fn execute(&self, d: &mut EditorDocument) -> ass_editor::core::Result<CommandResult> {
        d.insert(Position::new(0), "n1 ")?;
        let l = d.len();
        d.insert(Position::new(l), " n2")?;
        Ok(CommandResult::success_with_change(rg(0, 3), Position::new(3)))
    }
    fn description(&self) -> &str {
        "nested"
    }
}

fn mid(m: &str, num: usize, den: usize) -> usize {
    let mut p = m.len() * num / den;
    while !m.is_char_boundary(p) {
        p += 1;
    }
    p
}

/// Names for the operations, in the order of their numbers.
pub const OPS: [&str; 24] = [
    "undo", "redo", "insert é in the middle", "delete the first half", "replace the middle by a section", "insert past the end",
    "incremental insert", "incremental delete", "incremental replace, large", "safe edit", "apply delta", "execute replace", "execute batch",
    "execute failing batch", "execute failing command", "execute unsuccessful command", "execute nested command", "fluent wrap", "fluent append",
    "clear the document", "incremental edit inside a character", "set script info", "add event line", "create style",
];

/// Apply edit `op` (2..) to the document; the text before is `m`.
pub fn edit(op: usize, d: &mut EditorDocument, m: &str) -> bool {
    let (l, a, b) = (m.len(), mid(m, 1, 3), mid(m, 2, 3));
    match op {
        2 => d.insert(Position::new(mid(m, 1, 2)), "é").is_ok(),
        3 => d.delete(rg(0, mid(m, 1, 2))).is_ok(),
        4 => d.replace(rg(a, b), "\n[Fonts]\nfontname: f\n\n").is_ok(),
        5 => d.insert(Position::new(l + 1), "x").is_ok(),
        6 => d.insert_incremental(Position::new(a), "ü").is_ok(),
        7 => d.delete_incremental(rg(a, mid(m, 2, 5).max(a))).is_ok(),
        8 => d.edit_incremental(rg(0, b), "[Script Info]\nTitle: new\n").is_ok(),
        9 => d.edit_safe(rg(b, l), "safe\n\nedit").is_ok(),
        10 => d
            .apply_script_delta(ScriptDeltaOwned { added: vec!["[Graphics]\nfilename: g".into()], modified: vec![(0, "[Script Info]\nTitle: d\n".into())], removed: vec![1], new_issues: vec![] })
            .is_ok(),
        11 => d.execute_command(&ReplaceTextCommand::new(rg(0, a), "R".into())).is_ok_and(|x| x.success),
        12 => d
            .execute_command(
                &BatchCommand::new("batch".into())
                    .add_command(Box::new(InsertTextCommand::new(Position::new(0), "b1".into())))
                    .add_command(Box::new(DeleteTextCommand::new(rg(0, 1))))
                    .add_command(Box::new(InsertTextCommand::new(Position::new(l + 1), "b2".into()))),
            )
            .is_ok_and(|x| x.success),
        13 => d
            .execute_command(
                &BatchCommand::new("bad batch".into())
                    .add_command(Box::new(InsertTextCommand::new(Position::new(0), "b1".into())))
                    .add_command(Box::new(InsertTextCommand::new(Position::new(l + 9), "b2".into()))),
            )
            .is_ok_and(|x| x.success),
        14 => d.execute_command(&Broken(true)).is_ok_and(|x| x.success),
        15 => d.execute_command(&Broken(false)).is_ok_and(|x| x.success),
        16 => d.execute_command(&Nested).is_ok_and(|x| x.success),
        17 => d.select(rg(a, b)).wrap_with_tag("{\\b1}", "{\\b0}").is_ok(),
        18 => d.at_end().insert_text("!").is_ok(),
        19 => d.delete(rg(0, l)).is_ok(),
        20 => {
            let inside = (0..=l).find(|p| !m.is_char_boundary(*p)).unwrap_or(l + 3);
            d.edit_incremental(rg(inside, inside), "z").is_ok()
        }
        21 => d.set_script_info_field("Title", &format!("T{l}")).is_ok(),
        22 => d.add_event_line("Dialogue: 0,0:00:05.00,0:00:06.00,Default,,0,0,0,,added").is_ok(),
        _ => d.execute_command(&CreateStyleCommand::new(format!("S{l}"), StyleBuilder::new())).is_ok_and(|x| x.success),
    }
}

#[derive(Default)]
struct Model {
    past: Vec<String>,
    sizes: Vec<usize>,
    future: Vec<(String, usize)>,
}

fn run(r: &Run, start: &str, seq: &[usize], names: &[usize], max_entries: usize, max_memory: usize) -> Result<(), String> {
    let mut d = doc(start);
    d.undo_manager_mut().set_config(UndoStackConfig { max_entries, max_memory, ..UndoStackConfig::default() });
    let bounded = max_memory < usize::MAX || max_entries < 1000;
    let mut m = start.to_string();
    let mut h = Model::default();
    let mut trail = vec![];
    for &s in seq {
        let op = names[s];
        trail.push(OPS[op]);
        let at = |e: String| format!("from {start:?} (limits {max_entries} entries, {max_memory} bytes) by {trail:?}: {e}");
        match op {
            0 | 1 => {
                let want = if op == 0 { h.past.pop() } else { h.future.pop().map(|x| { h.sizes.push(x.1); x.0 }) };
                let res = guard(|| if op == 0 { d.undo().is_ok() } else { d.redo().is_ok() }).map_err(|e| at(format!("panics: {e}")))?;
                if res != want.is_some() {
                    return Err(at(format!("succeeds: {res}")));
                }
                if let Some(w) = want {
                    if d.text() != w {
                        return Err(at(format!("text is {:?}, expected {w:?}", d.text())));
                    }
                    let old = std::mem::replace(&mut m, w);
                    if op == 0 {
                        let size = h.sizes.pop().unwrap();
                        h.future.push((old, size));
                    } else {
                        h.past.push(old);
                    }
                }
            }
            _ => {
                let modified = d.is_modified();
                let ok = guard(|| edit(op, &mut d, &m)).map_err(|e| at(format!("panics: {e}")))?;
                let now = d.text();
                if !ok {
                    if now != m {
                        return Err(at(format!("fails but leaves {now:?} in place of {m:?}")));
                    }
                    if d.is_modified() != modified {
                        return Err(at("fails but leaves the document marked modified".into()));
                    }
                } else if now != m {
                    // the size of the entry, measured on an unbounded history
                    let size = if bounded {
                        let mut twin = doc(&m);
                        twin.undo_manager_mut().set_config(UndoStackConfig { max_entries: 1000, max_memory: usize::MAX, ..UndoStackConfig::default() });
                        edit(op, &mut twin, &m);
                        twin.undo_manager().stats().memory_usage
                    } else {
                        0
                    };
                    h.past.push(std::mem::replace(&mut m, now));
                    h.sizes.push(size);
                    h.future.clear();
                    while h.past.len() > max_entries || (bounded && max_memory > 0 && h.sizes.iter().sum::<usize>() > max_memory) {
                        h.past.remove(0);
                        h.sizes.remove(0);
                    }
                } else {
                    // an edit that changes nothing may leave an entry or not
                    let st = d.undo_manager().stats();
                    let size = st.memory_usage;
                    if bounded {
                        return Ok(());
                    }
                    if st.undo_count > h.past.len() {
                        h.past.push(m.clone());
                        h.sizes.push(size);
                        h.future.clear();
                    }
                }
            }
        }
        let st = d.undo_manager().stats();
        if (st.undo_count, st.redo_count, d.can_undo(), d.can_redo()) != (h.past.len(), h.future.len(), !h.past.is_empty(), !h.future.is_empty()) {
            return Err(at(format!("history is {st:?}, can undo {} redo {}, expected {} and {}", d.can_undo(), d.can_redo(), h.past.len(), h.future.len())));
        }
        if d.next_undo_description().is_some() != d.can_undo() || d.next_redo_description().is_some() != d.can_redo() {
            return Err(at("descriptions of the next undo and redo disagree with their availability".into()));
        }
        if h.past.is_empty() && h.future.is_empty() && st.memory_usage != 0 {
            return Err(at(format!("an empty history holds {} bytes", st.memory_usage)));
        }
        r.steps(1);
    }
    r.state(&(&m, &h.past, &h.future.iter().map(|x| &x.0).collect::<Vec<_>>()));
    r.traces(1);
    // all the way back and forth again
    let (end, n) = (m.clone(), h.past.len());
    let first = h.past.first().cloned().unwrap_or(m);
    for _ in 0..n {
        d.undo().map_err(|e| format!("after {trail:?}: undo fails: {e}"))?;
    }
    if d.text() != first || d.can_undo() {
        return Err(format!("after {trail:?} undone completely: {:?}, expected {first:?}", d.text()));
    }
    for _ in 0..n {
        d.redo().map_err(|e| format!("after {trail:?}: redo fails: {e}"))?;
    }
    if d.text() != end {
        return Err(format!("after {trail:?} undone and redone completely: {:?}, expected {end:?}", d.text()));
    }
    Ok(())
}

pub fn e02(r: &Run) {
    r.rule("every sequence of the stated depth over all editing paths (plain, incremental small and large, safe, delta, command, batch, failing, nested, fluent, script-info, event and style calls) mixed with undo and redo, from several start texts; a stack of texts says what every undo and redo must restore, failures must leave text and history alone; then everything is undone and redone");
    r.assume("edits that do not change the text may or may not leave a history entry");
    let all: Vec<usize> = (0..OPS.len()).collect();
    let k = all.len();
    let depth = r.pick(4, 5);
    r.stage("all-paths", seq_count(k, depth) * DOCS.len() as u64, |i| {
        run(r, DOCS[(i % DOCS.len() as u64) as usize], &seq_at(k, i / DOCS.len() as u64), &all, 1000, usize::MAX)
    });
    let few = [0, 1, 2, 3, 13, 8, 17];
    let depth = r.pick(7, 8);
    r.stage("deep", seq_count(few.len(), depth), |i| run(r, "aé", &seq_at(few.len(), i), &few, 1000, usize::MAX));
    let few = [0, 1, 2, 4, 6, 12];
    let depth = r.pick(7, 8);
    for (e, m) in [(0, usize::MAX), (1, usize::MAX), (2, usize::MAX), (3, 0), (1000, 1), (1000, 400), (3, 650)] {
        r.stage(&format!("bounded-{e}-{m}"), seq_count(few.len(), r.pick(depth - 1, depth)), |i| run(r, "aé", &seq_at(few.len(), i), &few, e, m));
    }
    r.stage("long-history", 6, |i| {
        // more edits than the default limit of entries keeps
        let n = [10, 49, 50, 51, 60, 120][i as usize];
        let mut d = doc("");
        for j in 0..n {
            d.insert(Position::new(d.len()), &format!("{j},")).map_err(|e| e.to_string())?;
        }
        let mut undone = 0;
        while d.can_undo() {
            d.undo().map_err(|e| e.to_string())?;
            undone += 1;
            let want: String = (0..n - undone).map(|j| format!("{j},")).collect();
            if d.text() != want {
                return Err(format!("undo {undone} of {n} gives {:?}", d.text()));
            }
        }
        if undone != n.min(UndoStackConfig::default().max_entries) {
            return Err(format!("{undone} of {n} edits can be undone"));
        }
        Ok(())
    });
    r.sample("insert, incremental replace (large), failing batch, undo, undo, redo");
}
