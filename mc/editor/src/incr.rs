//! E03: incremental, fast-path and safe edits against plain ones.
use crate::history::DOCS;
use crate::text::{doc, rg};
use ass_core::parser::Script;
use ass_editor::commands::{DeltaBatchCommand, DeltaCommand, IncrementalEventEditCommand, IncrementalInsertCommand, IncrementalReplaceCommand};
use ass_editor::core::{EditorDocument, Position};
use ass_editor::events::DocumentEvent;
use ass_editor::utils::validator::ValidationResult;
use mc_common::*;
use std::sync::mpsc::channel;

fn views(d: &EditorDocument, m: &str) -> Result<(), String> {
    let want = Script::parse(m).map(|s| format!("{:?}", s.sections())).map_err(|e| e.to_string());
    let got = d.parse_script_with(|s| format!("{:?}", s.sections())).map_err(|e| e.to_string());
    if want != got {
        return Err(format!("parsed view {got:?}, that of the text is {want:?}"));
    }
    Ok(())
}
fn verdict(v: &ValidationResult) -> String {
    format!("{:?} {} {} {}", v.issues, v.is_valid, v.warning_count, v.error_count)
}
fn fresh(m: &str) -> Result<String, String> {
    doc(m).validate_comprehensive().map(|v| verdict(&v)).map_err(|e| e.to_string())
}

const TEXTS: [&str; 9] = [
    "",
    "é",
    "\n",
    "[",
    "a\n\nb",
    "\n[Fonts]\nfontname: f\n",
    "Dialogue: 0,0:00:02.00,0:00:01.00,Nope,,0,0,0,,{\\b1",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy",
];

/// Apply one edit both ways and compare.
fn step(r: &Run, inc: &mut EditorDocument, m: &mut String, a: usize, b: usize, t: usize, way: usize, warm: bool) -> Result<(), String> {
    let before = m.clone();
    let at = |e: String| format!("{before:?} with {a}..{b} replaced by {:?} ({}): {e}", TEXTS[t], ["incremental", "safe", "insert/delete", "plain", "command"][way]);
    if warm {
        let got = inc.validate_comprehensive().map(|v| verdict(&v)).map_err(|e| e.to_string());
        if got != fresh(m) {
            return Err(at(format!("validation before is {got:?}")));
        }
    }
    let (tx, rx) = channel();
    inc.set_event_channel(tx);
    let mut other = doc(m);
    let call = |d: &mut EditorDocument| -> Result<Option<String>, String> {
        match way {
            0 => d.edit_incremental(rg(a, b), TEXTS[t]).map(|x| Some(format!("{x:?}"))),
            1 => d.edit_safe(rg(a, b), TEXTS[t]).map(|_| None),
            2 if a == b => d.insert_incremental(Position::new(a), TEXTS[t]).map(|x| Some(format!("{x:?}"))),
            2 => d.delete_incremental(rg(a, b)).map(|x| Some(format!("{x:?}"))),
            4 => {
                let batch = DeltaBatchCommand::new();
                let batch = if a == b { batch.add_command(IncrementalInsertCommand::new(Position::new(a), TEXTS[t].into())) } else { batch.add_command(IncrementalReplaceCommand::new(rg(a, b), TEXTS[t].into())) };
                batch.execute_batch(d).map(|x| Some(format!("{x:?}")))
            }
            _ => d.replace(rg(a, b), TEXTS[t]).map(|_| None),
        }
        .map_err(|e| e.to_string())
    };
    let text = if way == 2 && a != b { "" } else { TEXTS[t] };
    let got = guard(|| call(inc)).map_err(|e| at(format!("panics: {e}")))?;
    let want = guard(|| call(&mut other)).map_err(|e| at(format!("panics on a fresh document: {e}")))?;
    let mut plain = doc(m);
    let ok = plain.replace(rg(a, b), text).is_ok();
    if got.is_ok() != ok {
        return Err(at(format!("gives {got:?}; the plain edit succeeds: {ok}")));
    }
    if got != want {
        return Err(at(format!("reports {got:?}; the same edit of a fresh document with the same text reports {want:?}")));
    }
    if inc.text() != plain.text() {
        return Err(at(format!("leaves {:?}; the plain edit leaves {:?}", inc.text(), plain.text())));
    }
    let events: Vec<DocumentEvent> = rx.try_iter().collect();
    if ok {
        let told = DocumentEvent::TextReplaced { range: rg(a, b), old_text: before[a..b].to_string(), new_text: text.to_string() };
        if events != vec![told] {
            return Err(at(format!("announces {events:?}")));
        }
    } else if !events.is_empty() {
        return Err(at(format!("fails but announces {events:?}")));
    }
    *m = plain.text();
    views(inc, m).map_err(at)?;
    if let Some(v) = inc.validation_result() {
        if Ok(verdict(v)) != fresh(m) {
            return Err(at(format!("still shows the validation result {}", verdict(v))));
        }
    }
    r.steps(1);
    Ok(())
}

fn check_end(inc: &mut EditorDocument, m: &str) -> Result<(), String> {
    let want = fresh(m);
    let got = inc.validate_comprehensive().map(|v| verdict(&v)).map_err(|e| e.to_string());
    if got != want {
        return Err(format!("validation of {m:?} is {got:?}, expected {want:?}"));
    }
    let valid = inc.is_valid_cached().map_err(|e| e.to_string());
    let other = doc(m).is_valid_cached().map_err(|e| e.to_string());
    if valid != other {
        return Err(format!("is_valid_cached of {m:?} is {valid:?}, expected {other:?}"));
    }
    Ok(())
}

/// Places worth editing in a text: around every line start, in the middle and around non-ASCII text.
fn places(m: &str) -> Vec<usize> {
    let mut v = vec![0, m.len() / 2, m.len(), m.len() + 1];
    for (i, c) in m.char_indices() {
        if c == '\n' {
            v.push(i + 1);
        }
        if !c.is_ascii() {
            v.extend([i, i + 1]);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn e03(r: &Run) {
    r.rule("every edit (way x range between any two interesting offsets x replacement text, crossing every limit of the fast path) of every start document, followed by every second edit from a smaller set, validated or not in between; text, success, reported delta, announced event, parsed view and validation result are compared with the plain edit of a fresh document");
    r.assume("the reported delta of an edit is compared with the one a fresh document with the same text reports for it; histories stay below the 10 KB after which the incremental parser reparses");
    let docs: Vec<String> = DOCS.iter().map(|s| s.to_string()).chain(["[Events]\nDialogue: 0,0:00:00.00,0:00:01.00,D,,0,0,0,,a\n[V4+ Styles]\nFormat: Name\nStyle: é\n".to_string()]).collect();
    let mut cases = vec![];
    for (k, m) in docs.iter().enumerate() {
        let p = places(m);
        for &a in &p {
            for &b in &p {
                if a <= b || b + 1 == a {
                    for t in 0..TEXTS.len() {
                        for way in 0..5 {
                            cases.push((k, a, b, t, way));
                        }
                    }
                }
            }
        }
    }
    r.stage("single", cases.len() as u64 * 2, |i| {
        let (k, a, b, t, way) = cases[(i / 2) as usize];
        let (mut d, mut m) = (doc(&docs[k]), docs[k].clone());
        step(r, &mut d, &mut m, a, b, t, way, i % 2 == 1)?;
        r.state(&m);
        check_end(&mut d, &m)
    });
    // histories over coarse edits; positions depend on the text reached
    let k = 16;
    let depth = r.pick(4, 5);
    r.stage("histories", seq_count(k, depth) * docs.len() as u64, |i| {
        let start = &docs[(i % docs.len() as u64) as usize];
        let (mut d, mut m) = (doc(start), start.clone());
        for s in seq_at(k, i / docs.len() as u64) {
            let p = places(&m);
            let q = |n: usize, d: usize| p[(p.len() - 1) * n / d];
            let l = m.len();
            let (a, b, t, way, warm) = match s {
                0 => (0, 0, 1, 0, false),
                1 => (q(1, 2), q(1, 2), 2, 0, true),
                2 => (q(1, 3), q(2, 3), 0, 2, false),
                3 => (l, l, 5, 0, false),
                4 => (l, l, 6, 0, true),
                5 => (0, q(1, 2), 5, 1, false),
                6 => (q(1, 2), l, 8, 0, false),
                7 => (q(1, 2), q(1, 2), 7, 2, false),
                8 => (0, l, 4, 3, true),
                9 => (q(1, 4), q(1, 4), 3, 1, false),
                10 => (l + 1, l + 1, 1, 0, false),
                11 => (0, l + 2, 5, 1, false),
                12 => {
                    let u = d.undo().is_ok();
                    if u {
                        m = d.text();
                    }
                    views(&d, &m)?;
                    if let Some(v) = d.validation_result() {
                        if Ok(verdict(v)) != fresh(&m) {
                            return Err(format!("after an undo to {m:?} the old validation result is shown: {}", verdict(v)));
                        }
                    }
                    continue;
                }
                13 => {
                    // an edit through the delta, which the incremental parser does not see
                    let _ = d.apply_script_delta(ass_core::parser::script::ScriptDeltaOwned { added: vec!["[Graphics]\nfilename: g".into()], modified: vec![], removed: vec![], new_issues: vec![] });
                    m = d.text();
                    views(&d, &m)?;
                    if let Some(v) = d.validation_result() {
                        if Ok(verdict(v)) != fresh(&m) {
                            return Err(format!("after a delta to {m:?} the old validation result is shown: {}", verdict(v)));
                        }
                    }
                    continue;
                }
                14 => (0, l, 0, 0, false),
                _ => (q(1, 2), q(3, 4), 6, 0, true),
            };
            step(r, &mut d, &mut m, a, b, t, way, warm)?;
        }
        r.state(&m);
        r.traces(1);
        check_end(&mut d, &m)
    });
    r.stage("event-text", 1, |_| {
        for m in &docs {
            for old in ["日本", "é", "0:00:01.00", "absent", "a"] {
                for new in TEXTS {
                    let mut d = doc(m);
                    let ok = d.edit_event_incremental(old, new).is_ok();
                    let want = if m.contains(old) { m.replacen(old, new, 1) } else { m.clone() };
                    if ok != m.contains(old) || d.text() != want {
                        return Err(format!("edit_event_incremental {old:?} -> {new:?} in {m:?}: {ok}, {:?}", d.text()));
                    }
                    views(&d, &want)?;
                    let mut d = doc(m);
                    let told = IncrementalEventEditCommand::new(old.into(), new.into()).execute_with_delta(&mut d);
                    if m.contains(old) && !told.is_ok_and(|r| r.success && r.content_changed) || d.text() != want {
                        return Err(format!("the command for {old:?} -> {new:?} in {m:?} leaves {:?}", d.text()));
                    }
                    views(&d, &want)?;
                }
            }
        }
        Ok(())
    });
    r.sample("validate, insert an event line incrementally, read the cached validation result");
}
