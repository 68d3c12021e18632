//! E05: event commands.
use crate::lines::*;
use ass_core::utils::{format_ass_time, parse_ass_time};
use ass_editor::commands::*;
use ass_editor::core::{EditorDocument, Result as EdResult};
use mc_common::*;

#[derive(Clone, Debug)]
pub enum Op {
    Delete(usize),
    Batch(Vec<usize>),
    Toggle(Vec<usize>),
    Timing(Vec<usize>, i32, i32),
    Effect(Vec<usize>, &'static str, u8),
    Split(usize, &'static str),
    Merge(usize, usize, &'static str),
    Edit(usize, Vec<(&'static str, &'static str)>),
    Build(usize, u8),
    Text(&'static str, &'static str),
    Add(&'static str),
    Apply(&'static str, &'static str, Option<&'static str>),
}

const NEW: &str = "Dialogue: 5,0:00:07.00,0:00:08.00,New,,0,0,0,,new, line";

fn paren_ok(effect: &str) -> bool {
    let mut depth = 0;
    let mut comma_in = false;
    for c in effect.chars() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            ',' if depth == 0 => return false,
            ',' => comma_in = true,
            _ => {}
        }
    }
    !comma_in || depth == 0
}

/// What the command should leave behind; `Err` when it should fail.
pub fn model(d: &Doc, op: &Op) -> Result<Doc, ()> {
    let mut d = d.clone();
    let at = d.events();
    let n = at.len();
    let named = |v: &Vec<usize>, i: usize| v.is_empty() || v.contains(&i);
    match op {
        Op::Delete(i) => {
            if *i >= n {
                return Err(());
            }
            d.lines.remove(at[*i]);
        }
        Op::Batch(v) => {
            let mut v: Vec<usize> = v.iter().copied().filter(|i| *i < n).collect();
            v.sort();
            v.dedup();
            for i in v.into_iter().rev() {
                d.lines.remove(at[i]);
            }
        }
        Op::Toggle(v) => {
            for i in 0..n {
                if named(v, i) {
                    let e = d.ev_mut(i).unwrap();
                    e.kind = match e.kind.as_str() {
                        "Dialogue" => "Comment".into(),
                        "Comment" => "Dialogue".into(),
                        k => k.into(),
                    };
                }
            }
        }
        Op::Timing(v, s, t) => {
            for i in 0..n {
                let e = d.ev_mut(i).unwrap();
                if let (true, Some(a), Some(b)) = (named(v, i), e.time("Start"), e.time("End")) {
                    let a = (a as i64 + *s as i64).clamp(0, u32::MAX as i64 - 1);
                    let b = (b as i64 + *t as i64).clamp(0, u32::MAX as i64).max(a + 1);
                    e.set("Start", &format_ass_time(a as u32));
                    e.set("End", &format_ass_time(b as u32));
                }
            }
        }
        Op::Effect(v, s, how) => {
            if !paren_ok(s) {
                return Err(());
            }
            for i in 0..n {
                if named(v, i) {
                    let e = d.ev_mut(i).unwrap();
                    let old = e.get("Effect").ok_or(())?.to_string();
                    let new = match how {
                        0 => s.to_string(),
                        1 if old.is_empty() => s.to_string(),
                        1 => format!("{old} {s}"),
                        2 if old.is_empty() => s.to_string(),
                        2 => format!("{s} {old}"),
                        _ => String::new(),
                    };
                    e.set("Effect", &new);
                }
            }
        }
        Op::Split(i, t) => {
            let cut = parse_ass_time(t).map_err(|_| ())?;
            let e = d.ev(*i).ok_or(())?;
            let (a, b) = (e.time("Start").ok_or(())?, e.time("End").ok_or(())?);
            if cut <= a || cut >= b {
                return Err(());
            }
            let l = at[*i];
            let mut second = d.lines[l].clone();
            // the break of the line stays at its end; a line without one gets a new one
            if d.lines[l].nl.is_empty() {
                d.lines[l].nl = "\n";
            }
            second.ev.as_mut().unwrap().set("Start", t);
            second.ev.as_mut().unwrap().indent = "";
            d.lines[l].ev.as_mut().unwrap().set("End", t);
            d.lines.insert(l + 1, second);
        }
        Op::Merge(i, j, sep) => {
            if i >= j || *j >= n || sep.contains('\n') {
                return Err(());
            }
            let second = d.ev(*j).unwrap().clone();
            let e = d.ev_mut(*i).unwrap();
            let text = format!("{}{sep}{}", e.get("Text").unwrap(), second.get("Text").unwrap());
            e.set("Text", &text);
            e.set("End", second.get("End").unwrap());
            d.lines.remove(at[*j]);
        }
        Op::Edit(i, edits) => {
            let e = d.ev_mut(*i).ok_or(())?;
            for (f, v) in edits {
                let col = match *f {
                    "layer" => "Layer",
                    "start" => "Start",
                    "end" => "End",
                    "style" => "Style",
                    "name" => "Name",
                    "margin_l" => "MarginL",
                    "margin_r" => "MarginR",
                    "margin_v" => "MarginV",
                    "effect" => "Effect",
                    "text" => "Text",
                    _ => return Err(()),
                };
                if v.contains('\n') || col != "Text" && v.contains(',') || !e.set(col, v) {
                    return Err(());
                }
            }
        }
        Op::Build(i, how) => {
            let e = d.ev_mut(*i).ok_or(())?;
            if e.kind != "Dialogue" && e.kind != "Comment" {
                return Err(());
            }
            match how {
                0 => {}
                1 => {
                    e.set("Text", "New, text");
                }
                _ => {
                    e.set("End", "0:00:30.00");
                    e.set("Style", "S2");
                    e.set("MarginR", "12");
                }
            }
            e.sep = ": ";
            for f in &mut e.fields {
                f.0.clear();
                f.2.clear();
            }
        }
        Op::Text(old, new) => {
            let found = (0..n).find(|&i| !old.is_empty() && d.ev(i).unwrap().get("Text").unwrap().contains(old));
            if let Some(i) = found {
                if new.contains('\n') {
                    return Err(());
                }
                let e = d.ev_mut(i).unwrap();
                let t = e.get("Text").unwrap().replacen(old, new, 1);
                e.set("Text", &t);
            }
        }
        Op::Add(s) => {
            let first = d.lines.iter().position(|l| l.raw == "[Events]").ok_or(())?;
            let f = first + 1 + d.lines[first + 1..].iter().position(|l| l.raw.starts_with("Format:")).unwrap();
            if d.lines[f].nl.is_empty() {
                d.lines[f].nl = "\n";
            }
            let mut l = Line::raw("");
            let f2: Vec<&str> = s["Dialogue: ".len()..].splitn(10, ',').collect();
            l.ev = Some(ev("", "Dialogue", ": ", COLS, &f2));
            d.lines.insert(f + 1, l);
        }
        Op::Apply(old, new, filter) => {
            for i in 0..n {
                let e = d.ev_mut(i).unwrap();
                let body = e.body();
                if (e.kind == "Dialogue" || e.kind == "Comment") && e.get("Style") == Some(old) && filter.map_or(true, |f| body.contains(f)) {
                    e.set("Style", new);
                }
            }
        }
    }
    Ok(d)
}

pub fn run_op(doc: &mut EditorDocument, op: &Op, direct: bool) -> EdResult<Option<CommandResult>> {
    let c: Box<dyn EditorCommand> = match op.clone() {
        Op::Delete(i) => Box::new(DeleteEventCommand::new(i)),
        Op::Batch(v) => Box::new(BatchDeleteEventsCommand::new(v)),
        Op::Toggle(v) => Box::new(ToggleEventTypeCommand::new(v)),
        Op::Timing(v, s, e) => Box::new(TimingAdjustCommand::new(v, s, e)),
        Op::Effect(v, s, how) => Box::new(EventEffectCommand::new(
            v,
            s.to_string(),
            [EffectOperation::Set, EffectOperation::Append, EffectOperation::Prepend, EffectOperation::Clear][how as usize].clone(),
        )),
        Op::Split(i, t) => Box::new(SplitEventCommand::new(i, t.to_string())),
        Op::Merge(i, j, s) => Box::new(MergeEventsCommand::new(i, j).with_separator(s.to_string())),
        Op::Apply(o, n, f) => {
            let mut c = ApplyStyleCommand::new(o.to_string(), n.to_string());
            c.event_filter = f.map(str::to_string);
            Box::new(c)
        }
        Op::Edit(i, edits) => {
            doc.edit_event_by_index(i, |_| edits.iter().map(|(f, v)| (*f, v.to_string())).collect())?;
            return Ok(None);
        }
        Op::Build(i, how) => {
            doc.edit_event_with_builder(i, |b| match how {
                0 => b,
                1 => b.text("New, text"),
                _ => b.end_time("0:00:30.00").style("S2").margin_right(12),
            })?;
            return Ok(None);
        }
        Op::Text(a, b) => {
            doc.edit_event_text(a, b)?;
            return Ok(None);
        }
        Op::Add(s) => {
            doc.add_event_line(s)?;
            return Ok(None);
        }
    };
    if direct {
        c.execute(doc).map(Some)
    } else {
        doc.execute_command(&*c).map(Some)
    }
}

/// The fluent calls that stand for a command, where there are any
fn fluent(op: &Op) -> Vec<Box<dyn Fn(&mut EditorDocument) -> EdResult<()>>> {
    let mut all: Vec<Box<dyn Fn(&mut EditorDocument) -> EdResult<()>>> = vec![];
    macro_rules! way {
        ($d:ident => $e:expr) => {
            all.push(Box::new(move |$d: &mut EditorDocument| $e.map(|_| ())))
        };
    }
    match op.clone() {
        Op::Delete(i) => way!(d => d.events().delete(i)),
        Op::Batch(v) => {
            let w = v.clone();
            way!(d => d.events().delete_multiple(v.clone()));
            way!(d => d.events().delete_query().by_indices(w.clone()).execute());
        }
        Op::Toggle(v) => {
            if let [i] = v[..] {
                way!(d => d.events().toggle_type().event(i).apply());
                way!(d => d.events().event(i).toggle_ops().apply());
            } else if v.is_empty() {
                way!(d => d.events().toggle_type().apply());
            }
            way!(d => d.events().toggle_type().events(v.clone()).apply());
        }
        Op::Timing(v, s, e) => {
            if let [i] = v[..] {
                way!(d => d.events().timing().event(i).adjust(s, e));
                way!(d => d.events().event(i).timing_ops().adjust(s, e));
            } else if v.is_empty() {
                way!(d => d.events().timing().adjust(s, e));
            }
            let (x, y, z) = (v.clone(), v.clone(), v.clone());
            if s == e {
                way!(d => d.events().timing().events(x.clone()).shift(s));
            }
            if e == 0 {
                way!(d => d.events().timing().events(y.clone()).shift_start(s));
            }
            if s == 0 {
                way!(d => d.events().timing().events(z.clone()).shift_end(e));
            }
            way!(d => d.events().timing().events(v.clone()).adjust(s, e));
        }
        Op::Effect(v, t, how) => {
            let set = move |o: ass_editor::core::fluent::EventEffector<'_>| -> EdResult<()> {
                match how {
                    0 => o.set(t),
                    1 => o.append(t),
                    2 => o.prepend(t),
                    _ => o.clear(),
                }
                .map(|_| ())
            };
            if let [i] = v[..] {
                way!(d => set(d.events().effects().event(i)));
                way!(d => set(d.events().event(i).effect_ops()));
            } else if v.is_empty() {
                way!(d => set(d.events().effects()));
            }
            way!(d => set(d.events().effects().events(v.clone())));
        }
        Op::Split(i, t) => way!(d => d.events().split(i, t)),
        Op::Merge(i, j, s) => {
            if s == " " {
                way!(d => d.events().merge(i, j).apply());
            }
            way!(d => d.events().merge(i, j).with_separator(s).apply());
        }
        Op::Apply(o, n, None) => way!(d => d.styles().apply(o, n).apply()),
        Op::Apply(o, n, Some(f)) => way!(d => d.styles().apply(o, n).with_filter(f).apply()),
        _ => {}
    }
    all
}

/// Deleting what a query names is deleting those events
fn deleters(t: &str, d: &Doc, n: usize) -> Result<u64, String> {
    let err = |e: ass_editor::core::EditorError| e.to_string();
    let new = || EditorDocument::from_content(t).unwrap();
    let infos = new().events().all().map_err(err)?;
    if infos.len() != n || new().events().count().ok() != Some(n) {
        return Err(format!("{} of {n} events of {t:?}", infos.len()));
    }
    let cs = |s: &str| parse_ass_time(s).ok();
    type Way<'a> = (&'a str, Box<dyn Fn(&mut EditorDocument) -> EdResult<()> + 'a>, Vec<usize>);
    let pick = |f: &dyn Fn(&ass_editor::OwnedEvent) -> bool| infos.iter().filter(|i| f(&i.event)).map(|i| i.index).collect::<Vec<_>>();
    let kind = |k| pick(&|e| e.event_type == k);
    use ass_core::parser::ast::EventType;
    let mut ways: Vec<Way<'_>> = vec![
        ("dialogues", Box::new(|d| d.events().delete_query().dialogues().map(|_| ())), kind(EventType::Dialogue)),
        ("comments", Box::new(|d| d.events().delete_query().comments().map(|_| ())), kind(EventType::Comment)),
        ("all", Box::new(|d| d.events().delete_query().all().map(|_| ())), (0..n).collect()),
    ];
    for s in ["Default", "D", "Hello"] {
        ways.push(("with_style", Box::new(move |d| d.events().delete_query().with_style(s).map(|_| ())), new().events().query().filter_by_style(s).indices().map_err(err)?));
        ways.push(("containing", Box::new(move |d| d.events().delete_query().containing(s).map(|_| ())), new().events().query().filter_by_text(s).indices().map_err(err)?));
    }
    for (a, b) in [(0, 150), (150, 250), (0, u32::MAX)] {
        if infos.iter().all(|i| cs(&i.event.start).is_some() && cs(&i.event.end).is_some()) {
            ways.push(("in_time_range", Box::new(move |d| d.events().delete_query().in_time_range(a, b).map(|_| ())), new().events().query().filter_by_time_range(a, b).indices().map_err(err)?));
        }
    }
    let count = ways.len() as u64;
    for (what, way, named) in ways {
        let mut doc = new();
        guard(|| way(&mut doc)).map_err(|e| format!("deleting {what} panics on {t:?}: {e}"))?.map_err(|e| format!("deleting {what} fails on {t:?}: {e}"))?;
        let want = model(d, &Op::Batch(named.clone())).map_err(|_| "model")?;
        if doc.text() != want.text() {
            return Err(format!("deleting {what} makes {:?} of {t:?}, but {named:?} were to go", doc.text()));
        }
    }
    Ok(count)
}

/// Text before and behind the reported range is the old text.
pub fn check_range(old: &str, new: &str, r: &CommandResult) -> Result<(), String> {
    if !r.content_changed && old != new {
        return Err("the text changed but the result says it did not".into());
    }
    if let (true, Some(g)) = (r.content_changed, &r.modified_range) {
        let (s, e) = (g.start.offset, g.end.offset);
        if s > e || e > new.len() || new.get(..s) != old.get(..s) || !old.ends_with(new.get(e..).unwrap_or("\u{0}")) {
            return Err(format!("the reported range {s}..{e} does not hold all changes"));
        }
    }
    Ok(())
}

pub fn step(doc: &mut EditorDocument, d: &Doc, op: &Op, direct: bool) -> Result<Doc, String> {
    let before = d.text();
    let want = model(d, op);
    let got = guard(|| run_op(doc, op, direct)).map_err(|e| format!("{op:?} panics on {before:?}: {e}"))?;
    let now = doc.text();
    match (&want, &got) {
        (Ok(w), Ok(r)) => {
            if now != w.text() {
                return Err(format!("{op:?} makes\n{now:?} of\n{before:?}, expected\n{:?}", w.text()));
            }
            if let Some(r) = r {
                check_range(&before, &now, r).map_err(|e| format!("{op:?} on {before:?} gives {now:?}: {e}"))?;
            }
            Ok(w.clone())
        }
        (Err(()), Err(_)) => {
            if now != before {
                return Err(format!("{op:?} fails on {before:?} but leaves {now:?}"));
            }
            Ok(d.clone())
        }
        _ => Err(format!("{op:?} on {before:?}: {:?}, expected {}", got.map(|_| ()).map_err(|e| e.to_string()), if want.is_ok() { "success" } else { "an error" })),
    }
}

pub fn ops(n: usize, small: bool) -> Vec<Op> {
    let mut v = vec![];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..=n {
        sets.push(vec![i]);
    }
    if !small {
        for i in 0..=n {
            for j in 0..=n {
                sets.push(vec![i, j]);
            }
        }
    }
    for s in &sets {
        v.push(Op::Batch(s.clone()));
        v.push(Op::Toggle(s.clone()));
        for (a, b) in [(100, 100), (-150, 25), (0, -400), (i32::MIN, i32::MAX), (i32::MAX, 0)] {
            v.push(Op::Timing(s.clone(), a, b));
            if small {
                break;
            }
        }
        for (e, h) in [("Scroll(1,2)", 0), ("z", 1), ("z", 2), ("", 3), ("a,b", 0), ("p)", 1)] {
            v.push(Op::Effect(s.clone(), e, h));
            if small && h == 1 {
                break;
            }
        }
    }
    for i in 0..=n {
        v.push(Op::Delete(i));
        for t in ["0:00:02.00", "0:00:01.00", "0:00:03.00", "0:00:02.5", "x"] {
            v.push(Op::Split(i, t));
            if small {
                break;
            }
        }
        for j in 0..=n {
            v.push(Op::Merge(i, j, " "));
            if !small {
                v.push(Op::Merge(i, j, "\\N, "));
                v.push(Op::Merge(i, j, "a\nb"));
            }
        }
        v.push(Op::Edit(i, vec![("text", "T, t"), ("style", "Sty")]));
        if !small {
            v.push(Op::Edit(i, vec![("start", "0:00:00.10"), ("layer", "3"), ("margin_v", "9"), ("name", "N"), ("effect", "E")]));
            v.push(Op::Edit(i, vec![("end", "0:00:09.00"), ("end", "0:00:10.00"), ("margin_l", "1"), ("margin_r", "")]));
            v.push(Op::Edit(i, vec![("text", "a\nb")]));
            v.push(Op::Edit(i, vec![("text", "ok"), ("style", "a,b")]));
            v.push(Op::Edit(i, vec![("text", "ok"), ("nope", "")]));
            v.push(Op::Edit(i, vec![]));
            v.push(Op::Build(i, 1));
            v.push(Op::Build(i, 2));
        }
        v.push(Op::Build(i, 0));
    }
    for (a, b) in [("Default", "D"), ("Hello", "Bye, bye"), ("x", "a\nb"), ("nowhere", "z"), ("", "z"), ("Dialogue: x", "")] {
        v.push(Op::Text(a, b));
    }
    v.push(Op::Add(NEW));
    if !small {
        for (o, n) in [("Default", "New"), ("", "X"), ("D", ""), ("default", "New")] {
            v.push(Op::Apply(o, n, None));
        }
        v.push(Op::Apply("Default", "New", Some("Hello")));
        v.push(Op::Apply("Default", "New", Some("Default")));
    }
    v
}

pub fn flavour(d: &mut Doc, f: u64) {
    match f {
        0 => d.breaks("\n", "\n"),
        1 => d.breaks("\r\n", "\r\n"),
        2 => d.breaks("\n", ""),
        _ => d.breaks("\r\n", ""),
    }
}

pub fn e05(r: &Run) {
    r.rule("every document of up to the stated number of items (event lines with commas, spaces, indents, duplicates, unreadable times, other types, blank and comment lines, other sections and a second events section) with LF, CRLF and no final line break; on it every event command with every index, pair and small index set, existing or not, compared with a list of lines; and every pair of commands on the smaller documents");
    r.assume("an effect may hold commas inside parentheses (pinned by the tests); other commas end the field");
    r.finding("scale-duration", || {
        let mut d = EditorDocument::from_content("[Events]\nFormat: Start, End, Text\nDialogue: 0:00:10.00,0:00:20.00,x\n").unwrap();
        d.execute_command(&TimingAdjustCommand::scale_duration(vec![0], 2.0)).map_err(|e| e.to_string())?;
        if d.text().contains("0:00:10.00,0:00:30.00") { Ok(()) } else { Err(d.text()) }
    });
    let go = |max: usize, pairs: bool, name: &str| {
        let total = seq_count(ITEMS, max);
        r.stage(name, total * 4, |i| {
            let Some(mut d) = doc_at(i / 4) else { return Ok(()) };
            flavour(&mut d, i % 4);
            let t = d.text();
            r.state(&t);
            let n = d.events().len();
            let base = EditorDocument::from_content(&t).map_err(|e| e.to_string())?;
            drop(base);
            let mut count = 0;
            for op in ops(n, pairs) {
                let mut doc = EditorDocument::from_content(&t).unwrap();
                let after = step(&mut doc, &d, &op, count % 2 == 1)?;
                count += 1;
                if pairs {
                    for op2 in ops(after.events().len(), true) {
                        let mut doc = EditorDocument::from_content(&t).unwrap();
                        step(&mut doc, &d, &op, false)?;
                        step(&mut doc, &after, &op2, false).map_err(|e| format!("after {op:?} on {t:?}: {e}"))?;
                        count += 1;
                    }
                }
            }
            r.steps(count);
            r.traces(count);
            Ok(())
        });
    };
    go(r.pick(3, 4), false, "single");
    go(r.pick(1, 2), true, "pairs");
    r.stage("fluent", seq_count(ITEMS, r.pick(2, 3)), |i| {
        let Some(mut d) = doc_at(i) else { return Ok(()) };
        flavour(&mut d, i % 4);
        let t = d.text();
        let n = d.events().len();
        let mut count = deleters(&t, &d, n)?;
        for op in ops(n, false) {
            let want = model(&d, &op);
            for (k, way) in fluent(&op).iter().enumerate() {
                let mut doc = EditorDocument::from_content(&t).unwrap();
                let ok = guard(|| way(&mut doc)).map_err(|e| format!("{op:?} (fluent call {k}) panics on {t:?}: {e}"))?.is_ok();
                let after = want.as_ref().map_or(t.clone(), |w| w.text());
                if ok != want.is_ok() || doc.text() != after {
                    return Err(format!("{op:?} (fluent call {k}) on {t:?} succeeds: {ok}, leaving {:?} instead of {after:?}", doc.text()));
                }
                count += 1;
            }
        }
        r.steps(count);
        r.traces(count);
        Ok(())
    });
}
