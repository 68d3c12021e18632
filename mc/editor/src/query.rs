//! E09: event queries.
use crate::events::{model, Op};
use crate::lines::*;
use ass_core::parser::ast::EventType;
use ass_editor::core::fluent::{EventFilter, EventInfo, EventSortCriteria as By, EventSortOptions};
use ass_editor::core::EditorDocument;
use mc_common::*;
use std::cmp::Ordering;

const TYPES: [Option<EventType>; 4] = [None, Some(EventType::Dialogue), Some(EventType::Comment), Some(EventType::Picture)];
const STYLES: [Option<&str>; 6] = [None, Some("Default"), Some("default"), Some("2"), Some(""), Some("ault2")];
const SPEAKERS: [Option<&str>; 3] = [None, Some("a"), Some("Default")];
const TEXTS: [Option<&str>; 7] = [None, Some("l"), Some("HELLO"), Some("[x]"), Some("\u{c9}"), Some("{\\an8}"), Some(".")];
const TIMES: [Option<(u32, u32)>; 6] = [None, Some((100, 300)), Some((0, u32::MAX)), Some((101, 450)), Some((300, 100)), Some((200, 449))];
const LAYERS: [Option<u32>; 4] = [None, Some(0), Some(1), Some(2)];
const EFFECTS: [Option<&str>; 4] = [None, Some("FX"), Some("("), Some("Fade(1)")];
const SIZES: [usize; 7] = [4, 6, 3, 7, 6, 4, 4];
const BY: [By; 8] = [By::StartTime, By::EndTime, By::Duration, By::Style, By::Speaker, By::Layer, By::Index, By::Text];
const LIMITS: [Option<usize>; 5] = [None, Some(0), Some(1), Some(2), Some(9)];

/// One query: a choice per filter, case, order and limit
#[derive(Clone, Debug)]
struct Ask {
    f: [usize; 7],
    case: bool,
    sort: Option<(usize, Option<usize>, bool)>,
    limit: usize,
}

struct Row {
    index: usize,
    line: usize,
    from: usize,
    to: usize,
    ev: Ev,
}

fn rows(d: &Doc) -> Vec<Row> {
    let mut at = 0;
    let mut all = Vec::new();
    for (k, l) in d.lines.iter().enumerate() {
        if let Some(e) = &l.ev {
            let from = at + e.indent.len();
            all.push(Row { index: all.len(), line: k + 1, from, to: from + e.body().len(), ev: e.clone() });
        }
        at += l.text().len();
    }
    all
}

fn kind(t: EventType) -> &'static str {
    match t {
        EventType::Dialogue => "Dialogue",
        EventType::Comment => "Comment",
        EventType::Picture => "Picture",
        _ => "",
    }
}

/// A column the format does not have reads as its default
fn col<'a>(e: &'a Ev, c: &str) -> &'a str {
    e.get(c).unwrap_or(match c {
        "Layer" => "0",
        "Style" => "Default",
        _ if c.starts_with("Margin") => "0",
        _ => "",
    })
}

fn accepts(a: &Ask, e: &Ev) -> bool {
    let has = |field: &str, p: Option<&str>| match p {
        None => true,
        Some(p) if a.case => col(e, field).contains(p),
        Some(p) => col(e, field).to_lowercase().contains(&p.to_lowercase()),
    };
    let t = a.f[4];
    TYPES[a.f[0]].is_none_or(|t| kind(t) == e.kind)
        && has("Style", STYLES[a.f[1]])
        && has("Name", SPEAKERS[a.f[2]])
        && has("Text", TEXTS[a.f[3]])
        && TIMES[t].is_none_or(|(from, to)| e.time("Start").is_some_and(|s| s >= from) && e.time("End").is_some_and(|t| t <= to))
        && LAYERS[a.f[5]].is_none_or(|l| col(e, "Layer") == l.to_string())
        && has("Effect", EFFECTS[a.f[6]])
}

fn order(by: &By, a: &Row, b: &Row) -> Ordering {
    let time = |r: &Row, c: &str| i64::from(r.ev.time(c).unwrap_or(0));
    let long = |r: &Row| (time(r, "End") - time(r, "Start")).max(0);
    let by_col = |c: &str| col(&a.ev, c).as_bytes().cmp(col(&b.ev, c).as_bytes());
    match by {
        By::StartTime => time(a, "Start").cmp(&time(b, "Start")),
        By::EndTime => time(a, "End").cmp(&time(b, "End")),
        By::Duration => long(a).cmp(&long(b)),
        By::Style => by_col("Style"),
        By::Speaker => by_col("Name"),
        By::Layer => col(&a.ev, "Layer").parse::<u32>().unwrap().cmp(&col(&b.ev, "Layer").parse().unwrap()),
        By::Index => a.index.cmp(&b.index),
        By::Text => by_col("Text"),
    }
}

/// The answer: what passes, each once, by insertion into place; equals stay in document order
fn answer<'a>(a: &Ask, rows: &'a [Row]) -> Vec<&'a Row> {
    let mut out: Vec<&Row> = Vec::new();
    for r in rows.iter().filter(|r| accepts(a, &r.ev)) {
        let mut at = out.len();
        if let Some((p, s, up)) = &a.sort {
            let before = |x: &Row, y: &Row| {
                let o = order(&BY[*p], x, y).then_with(|| s.map_or(Ordering::Equal, |s| order(&BY[s], x, y)));
                if *up { o == Ordering::Less } else { o == Ordering::Greater }
            };
            while at > 0 && before(r, out[at - 1]) {
                at -= 1;
            }
        }
        out.insert(at, r);
    }
    out.truncate(LIMITS[a.limit].unwrap_or(usize::MAX));
    out
}

fn same(text: &str, g: &EventInfo, w: &Row) -> Result<(), String> {
    let e = &g.event;
    let f = [("Layer", &e.layer), ("Start", &e.start), ("End", &e.end), ("Style", &e.style), ("Name", &e.name), ("MarginL", &e.margin_l), ("MarginR", &e.margin_r), ("MarginV", &e.margin_v), ("Effect", &e.effect), ("Text", &e.text)];
    let got = (g.index, g.line_number, g.range.start.offset, g.range.end.offset, kind(e.event_type));
    let want = (w.index, w.line, w.from, w.to, w.ev.kind.as_str());
    if got != want {
        return Err(format!("index, line, range and kind {got:?} instead of {want:?} in {text:?}"));
    }
    for (c, v) in f {
        // what a column reads as that the format does not have is left to the parser
        if w.ev.at(c).is_some() && v != col(&w.ev, c) {
            return Err(format!("{c} of event {} is {v:?} instead of {:?} in {text:?}", w.index, col(&w.ev, c)));
        }
    }
    Ok(())
}

fn ask<'a>(doc: &'a mut EditorDocument, a: &Ask, way: u64) -> ass_editor::core::fluent::EventQuery<'a> {
    let mut q = doc.events().query();
    if way % 2 == 0 {
        q = q.filter(EventFilter {
            event_type: TYPES[a.f[0]],
            style_pattern: STYLES[a.f[1]].map(String::from),
            speaker_pattern: SPEAKERS[a.f[2]].map(String::from),
            text_pattern: TEXTS[a.f[3]].map(String::from),
            time_range: TIMES[a.f[4]],
            layer: LAYERS[a.f[5]],
            effect_pattern: EFFECTS[a.f[6]].map(String::from),
            use_regex: false,
            case_sensitive: a.case,
        });
        if let Some((p, s, up)) = a.sort {
            q = q.sort_by(EventSortOptions { criteria: BY[p].clone(), secondary: s.map(|s| BY[s].clone()), ascending: up });
        }
    } else {
        // the limit first, the filters last: the order of the calls does not matter
        if let Some(n) = LIMITS[a.limit] {
            q = q.limit(n);
        }
        if let Some((p, s, up)) = a.sort {
            q = match BY[p] {
                By::StartTime => q.sort_by_time(),
                By::Style => q.sort_by_style(),
                By::Duration => q.sort_by_duration(),
                _ => q.sort(BY[p].clone()),
            };
            if let Some(s) = s {
                q = q.then_by(BY[s].clone());
            }
            if !up {
                q = q.descending();
            }
        }
        if let Some(l) = LAYERS[a.f[5]] {
            q = q.filter_by_layer(l);
        }
        if let Some((from, to)) = TIMES[a.f[4]] {
            q = q.filter_by_time_range(from, to);
        }
        if let Some(t) = TYPES[a.f[0]] {
            q = q.filter_by_type(t);
        }
        for (p, by) in [(STYLES[a.f[1]], 0), (SPEAKERS[a.f[2]], 1), (TEXTS[a.f[3]], 2), (EFFECTS[a.f[6]], 3)] {
            if let Some(p) = p {
                q = match by {
                    0 => q.filter_by_style(p),
                    1 => q.filter_by_speaker(p),
                    2 => q.filter_by_text(p),
                    _ => q.filter_by_effect(p),
                };
            }
        }
        q = q.case_sensitive(a.case);
        return q;
    }
    match LIMITS[a.limit] {
        Some(n) => q.take(n),
        None => q,
    }
}

fn check(run: &Run, doc: &mut EditorDocument, text: &str, rows: &[Row], a: &Ask, way: u64) -> Result<(), String> {
    run.steps(1);
    let want = answer(a, rows);
    let bad = |e: String| format!("{a:?}: {e}");
    let got = ask(doc, a, way).execute().map_err(|e| bad(e.to_string()))?;
    let ids: Vec<usize> = got.iter().map(|g| g.index).collect();
    let wants: Vec<usize> = want.iter().map(|w| w.index).collect();
    if ids != wants {
        return Err(bad(format!("events {ids:?} instead of {wants:?} of {text:?}")));
    }
    for (g, w) in got.iter().zip(&want) {
        same(text, g, w).map_err(bad)?;
    }
    let other = match way / 2 % 4 {
        0 => ask(doc, a, way).indices().map_err(|e| bad(e.to_string()))? == wants,
        1 => ask(doc, a, way).count().map_err(|e| bad(e.to_string()))? == wants.len(),
        2 => ask(doc, a, way).first().map_err(|e| bad(e.to_string()))?.map(|g| g.index) == wants.first().copied(),
        _ => ask(doc, a, way).with_indices().map_err(|e| bad(e.to_string()))? == got.into_iter().map(|g| (g.index, g.event)).collect::<Vec<_>>(),
    };
    if !other {
        return Err(bad(format!("indices, count, first or with_indices disagree with the events {wants:?} of {text:?}")));
    }
    Ok(())
}

/// every filter alone and with every other, every order and limit, and some of both
fn asks(full: bool) -> Vec<Ask> {
    let mut all = Vec::new();
    let none = Ask { f: [0; 7], case: true, sort: None, limit: 0 };
    for a in 0..7 {
        for b in a + 1..7 {
            for i in 0..SIZES[a] {
                for j in 0..SIZES[b] {
                    // each single filter once
                    if i == 0 && (a > 0 || j == 0 && b > 1) || j == 0 && b != a + 1 && !(a == 0 && b == 1) {
                        continue;
                    }
                    for case in [true, false] {
                        let mut q = none.clone();
                        (q.f[a], q.f[b], q.case) = (i, j, case);
                        q.limit = if full { (i + j) % 5 } else { 0 };
                        all.push(q);
                    }
                }
            }
        }
    }
    for p in 0..8 {
        for s in 0..9 {
            for up in [true, false] {
                for limit in 0..5 {
                    if !full && (s + limit) % 5 != p % 5 {
                        continue;
                    }
                    for t in [0, 1] {
                        let mut q = none.clone();
                        q.f[0] = t;
                        (q.sort, q.limit) = (Some((p, (s < 8).then_some(s), up)), limit);
                        all.push(q);
                    }
                }
            }
        }
    }
    all
}

fn plain(run: &Run, doc: &mut EditorDocument, text: &str, rows: &[Row]) -> Result<(), String> {
    run.steps(8);
    let es = |e: ass_editor::core::EditorError| e.to_string();
    let n = rows.len();
    if doc.events().count().map_err(es)? != n || doc.events_count().map_err(es)? != n || doc.events().all().map_err(es)?.len() != n {
        return Err(format!("{text:?} has not {n} events"));
    }
    for i in 0..n + 2 {
        let got = doc.events().get(i).map_err(es)?;
        match (&got, rows.get(i)) {
            (Some(g), Some(w)) => {
                same(text, g, w)?;
                if doc.text_range(g.range).map_err(es)? != w.ev.body() {
                    return Err(format!("the range of event {i} of {text:?} is not its line"));
                }
                let e = &g.event;
                
                let agree = doc.events().event(i).text().map_err(es)?.as_ref() == Some(&e.text)
                    && doc.events().event(i).style().map_err(es)?.as_ref() == Some(&e.style)
                    && doc.events().event(i).speaker().map_err(es)?.as_ref() == Some(&e.name)
                    && doc.events().event(i).timing().map_err(es)? == Some((e.start.clone(), e.end.clone()))
                    && doc.events().event(i).start_time().map_err(es)?.as_ref() == Some(&e.start)
                    && doc.events().event(i).end_time().map_err(es)?.as_ref() == Some(&e.end)
                    && doc.events().event(i).layer().map_err(es)?.as_ref() == Some(&e.layer)
                    && doc.events().event(i).effect().map_err(es)?.as_ref() == Some(&e.effect)
                    && doc.events().event(i).event_type().map_err(es)? == Some(e.event_type)
                    && doc.events().event(i).margins().map_err(es)? == Some((e.margin_l.clone(), e.margin_r.clone(), e.margin_v.clone()))
                    && doc.events().event(i).exists().map_err(es)?;
                if !agree {
                    return Err(format!("the accessors of event {i} of {text:?} disagree with the event"));
                }
            }
            (None, None) => {
                if doc.events().event(i).exists().map_err(es)? || doc.events().event(i).text().map_err(es)?.is_some() {
                    return Err(format!("event {i} of {text:?} exists"));
                }
            }
            _ => return Err(format!("event {i} of {text:?} is {got:?}")),
        }
    }
    for p in ["", "l", "Hello", "[x]", "zz", ","] {
        let want: Vec<&str> = rows.iter().map(|r| col(&r.ev, "Text")).filter(|t| t.contains(p)).collect();
        let got = doc.find_event_text(p).map_err(es)?;
        if got != want {
            return Err(format!("the texts with {p:?} in {text:?} are {got:?}"));
        }
    }
    for (k, a) in [(0, [1, 0, 0, 0, 0, 0, 0]), (1, [2, 0, 0, 0, 0, 0, 0]), (2, [0, 0, 0, 0, 1, 0, 0]), (3, [0, 1, 0, 0, 0, 0, 0]), (4, [0, 0, 0, 1, 0, 0, 0]), (5, [0; 7])] {
        for by_time in [false, true] {
            let a = Ask { f: a, case: false, sort: by_time.then_some((0, None, true)), limit: 0 };
            let want: Vec<usize> = answer(&a, rows).iter().map(|w| w.index).collect();
            let o = doc.events();
            let q = match k {
                0 => o.dialogues(),
                1 => o.comments(),
                2 => o.in_time_range(100, 300),
                3 => o.with_style("Default"),
                4 => o.containing("l"),
                _ if by_time => o.by_time(),
                _ => o.in_order(),
            };
            let q = if by_time && k < 5 { q.sort_by_time() } else { q };
            let got = q.indices().map_err(es)?;
            if got != want {
                return Err(format!("short query {k} of {text:?} has {got:?} instead of {want:?}"));
            }
        }
    }
    Ok(())
}

/// deleting what a query finds leaves the rest
fn deletes(run: &Run, d: &Doc) -> Result<(), String> {
    let text = d.text();
    let rows = rows(d);
    for (k, f) in [[1, 0, 0, 0, 0, 0, 0], [2, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0], [0, 1, 0, 0, 0, 0, 0], [0, 0, 0, 1, 0, 0, 0], [0; 7]].into_iter().enumerate() {
        run.steps(1);
        let a = Ask { f, case: false, sort: None, limit: 0 };
        let want = model(d, &Op::Batch(answer(&a, &rows).iter().map(|w| w.index).collect())).unwrap().text();
        let mut doc = EditorDocument::from_content(&text).unwrap();
        let q = doc.events().delete_query();
        let r = match k {
            0 => q.dialogues(),
            1 => q.comments(),
            2 => q.in_time_range(100, 300),
            3 => q.with_style("Default"),
            4 => q.containing("l"),
            _ => q.all(),
        };
        let failed = r.is_err();
        if failed || doc.text() != want {
            return Err(format!("deleting by query {k} makes {:?} of {text:?}", doc.text()));
        }
    }
    Ok(())
}

/// A document whose effects have no comma (whether one ends the effect is not settled)
fn plain_doc(i: u64) -> Option<Doc> {
    let mut d = doc_at(i)?;
    plain_effects(&mut d);
    Some(d)
}

fn plain_effects(d: &mut Doc) {
    for l in &mut d.lines {
        if let Some(e) = &mut l.ev {
            if e.get("Effect") == Some("Fade(1,2)") {
                e.set("Effect", "Fade(1)");
            }
        }
    }
}

pub fn e09(r: &Run) {
    r.rule("a query gives exactly the events that pass every filter, each once, in order, at most the limit, with index, line and range of the event");
    let bad_time = |d: &Doc| d.events().iter().any(|&l| ["Start", "End"].iter().any(|c| d.lines[l].ev.as_ref().unwrap().time(c).is_none()));
    let go = |name: &str, max: usize, full: bool| {
        let all = asks(full);
        r.stage(name, seq_count(ITEMS, max) * 2, |i| {
            let Some(mut d) = plain_doc(i / 2) else { return Ok(()) };
            if i % 2 == 1 {
                d.breaks("\r\n", "");
            }
            let text = d.text();
            r.state(&text);
            let rows = rows(&d);
            let mut doc = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
            let odd = bad_time(&d);
            let other = rows.iter().any(|r| r.ev.at("Layer").is_none());
            for (k, a) in all.iter().enumerate() {
                // where an event without a time sorts is left open
                if odd && a.sort.as_ref().is_some_and(|s| s.0 < 3 || s.1.is_some_and(|s| s < 3)) {
                    continue;
                }
                // and which layer one without a layer column is in
                if other && (a.f[5] > 0 || a.sort.as_ref().is_some_and(|s| s.0 == 5 || s.1 == Some(5))) {
                    continue;
                }
                check(r, &mut doc, &text, &rows, a, k as u64 + i)?;
            }
            if doc.text() != text {
                return Err(format!("queries change {text:?} to {:?}", doc.text()));
            }
            if !odd {
                plain(r, &mut doc, &text, &rows)?;
                deletes(r, &d)?;
            }
            Ok(())
        });
    };
    go("short documents", 2, true);
    go("documents", r.pick(3, 4), false);
    // every combination of filters on documents with all kinds of events
    let combos: u64 = SIZES.iter().map(|&s| s as u64).product::<u64>() * 2;
    r.stage("all filters together", combos, |i| {
        let mut d = Doc::default();
        for h in HEAD {
            d.push_raw(h);
        }
        let mut inside = true;
        for it in [0, 2, 8, 1, 7, 3, 5, 4, 6, 0, 9, 10, 2, 1] {
            push_item(&mut d, it, &mut inside);
        }
        plain_effects(&mut d);
        let text = d.text();
        let rows = rows(&d);
        let k = mixed(&SIZES.iter().copied().chain([2]).collect::<Vec<_>>(), i);
        let a = Ask { f: [k[0], k[1], k[2], k[3], k[4], k[5], k[6]], case: k[7] == 0, sort: [None, Some((3, Some(7), false))][i as usize / 3 % 2], limit: [0, 2][i as usize / 7 % 2] };
        r.state(&(i / 2));
        let mut doc = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
        check(r, &mut doc, &text, &rows, &a, i)
    });
    // patterns read as regular expressions: the pattern and what it accepts
    type Accepts = fn(&str) -> bool;
    let regex: [(&str, Option<Accepts>); 9] = [
        ("^Default$", Some(|s| s == "Default")),
        ("[x]", Some(|s| s.contains('x'))),
        ("^$", Some(|s| s.is_empty())),
        ("a|2", Some(|s| s.contains('a') || s.contains('2'))),
        ("^D", Some(|s| s.starts_with('D'))),
        (",.*,", Some(|s| s.matches(',').count() > 1)),
        ("(", None),
        ("[", None),
        (".", Some(|s| !s.is_empty())),
    ];
    r.stage("regular expressions", seq_count(ITEMS, 3) * 9, |i| {
        let (d, (pattern, accepts)) = (i / 9, &regex[i as usize % 9]);
        let Some(d) = plain_doc(d) else { return Ok(()) };
        let text = d.text();
        let rows = rows(&d);
        let mut doc = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
        for (k, c) in ["Style", "Name", "Text", "Effect"].iter().enumerate() {
            r.steps(1);
            let q = doc.events().query().with_regex(true).case_sensitive(true);
            let got = match k {
                0 => q.filter_by_style(pattern),
                1 => q.filter_by_speaker(pattern),
                2 => q.filter_by_text(pattern),
                _ => q.filter_by_effect(pattern),
            }
            .indices();
            match accepts {
                None if rows.is_empty() || got.is_err() => {}
                None => return Err(format!("the pattern {pattern:?} finds {got:?} in {text:?}")),
                Some(f) => {
                    let want: Vec<usize> = rows.iter().filter(|w| f(col(&w.ev, c))).map(|w| w.index).collect();
                    if got.as_ref().ok() != Some(&want) {
                        return Err(format!("the pattern {pattern:?} on {c} finds {got:?} instead of {want:?} in {text:?}"));
                    }
                }
            }
        }
        Ok(())
    });
    // the answer is about the text as it is now
    r.stage("after edits", seq_count(ITEMS, r.pick(2, 3)) * 4, |i| {
        let Some(d) = plain_doc(i / 4) else { return Ok(()) };
        let text = d.text();
        let n = d.events().len();
        let mut doc = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
        for step in 0..3u64 {
            let (now, op) = match (i + step) % 4 {
                0 => (model(&d, &Op::Delete(0)), Op::Delete(0)),
                1 => (model(&d, &Op::Toggle(vec![])), Op::Toggle(vec![])),
                2 => (model(&d, &Op::Text("l", "L,")), Op::Text("l", "L,")),
                _ => (model(&d, &Op::Delete(n)), Op::Delete(n)),
            };
            let Ok(now) = now else { continue };
            if crate::events::run_op(&mut doc, &op, false).is_err() || doc.text() != now.text() {
                continue; // E05 judges the commands
            }
            if !bad_time(&now) && now.lines.iter().all(|l| l.ev.as_ref().is_none_or(|e| e.at("Text").is_some())) {
                plain(r, &mut doc, &now.text(), &rows(&now))?;
            }
            if now.text() != text {
                doc.undo().map_err(|e| e.to_string())?;
            }
            if !bad_time(&d) {
                plain(r, &mut doc, &text, &rows(&d))?;
            }
        }
        Ok(())
    });
}
