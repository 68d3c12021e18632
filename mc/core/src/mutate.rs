//! C05: histories of edits on a parsed script against a list model.
use crate::parse::observe;
use crate::refparse::{self, RSec};
use ass_core::parser::ast::{Event, EventType, Section, Span, Style};
use ass_core::parser::script::{Change, EventBatch, LineContent, StyleBatch, UpdateOperation};
use ass_core::parser::Script;
use mc_common::*;
use std::ops::Range;

const DOCS: [&str; 6] = [
    "[Script Info]\nTitle: A\nEmpty:\n\n[V4+ Styles]\nFormat: Name, Fontname\nStyle: s0,f0\n; gap\nStyle: s1,f1\n\n[Events]\nFormat: Start, Text\nDialogue: 1,a\nComment: 2,b\n",
    "[Events]\nFormat: Text\nDialogue: a\n[Script Info]\nTitle: A\n[Events]\nFormat: Text\nDialogue: b\n",
    "[V4+ Styles]\nFormat: Name\nStyle: s0\n[Fonts]\nfontname: f\nXX\n",
    "",
    "[Events]\n[V4+ Styles]\n[Script Info]\n",
    "[Script Info]\nTitle: A\n[Script Info]\nTitle: B\n[Events]\nDialogue: 0,1,2,s,n,4,5,6,e,t\n",
];
const NEW: [&str; 12] = [
    "Dialogue: 7,new", "Style: ns,nf", "Title: T2", "Empty: E2", "Fresh: v", "Comment:x, y ,z", " Style: *p, q , r,s", "junk", "Style: onlyname", "Format: Text", "Picture: p", "Empty:",
];
#[derive(Debug, Clone)]
enum Op {
    /// target number, line number
    Update(usize, usize),
    AddStyle,
    AddEvent,
    AddSection(usize),
    Remove(usize),
    Batch(Vec<(usize, usize)>),
    AddStyles(usize),
    AddEvents(usize),
    Atomic(Vec<(usize, usize)>, usize, usize),
    Track(bool),
    Clear,
    Formats(usize),
}

#[derive(Debug, Clone, PartialEq)]
struct Model {
    secs: Vec<(RSec, Vec<Range<usize>>)>,
    sfmt: Option<Vec<String>>,
    efmt: Option<Vec<String>>,
    track: bool,
    log: Vec<String>,
}

fn style(n: usize) -> Style<'static> {
    Style { name: ["add0", "add1", "add2"][n], fontname: "af", ..Style::default() }
}
fn event(n: usize) -> Event<'static> {
    Event { event_type: EventType::Sound, text: ["ev0", "ev1", "ev2"][n], ..Event::default() }
}

fn one(sec: Section) -> RSec {
    let mut s = Script::parse("").unwrap();
    s.add_section(sec);
    zero(&observe(&s).secs)[0].clone()
}

fn zero(secs: &[RSec]) -> Vec<RSec> {
    let mut v = secs.to_vec();
    for s in &mut v {
        match s {
            RSec::Info(_) => {}
            RSec::Styles(v) => v.iter_mut().for_each(|x| x.line = 0),
            RSec::Events(v) => v.iter_mut().for_each(|x| x.line = 0),
            RSec::Fonts(v) | RSec::Graphics(v) => v.iter_mut().for_each(|x| x.line = 0),
        }
    }
    v
}

fn content(c: &LineContent) -> String {
    match c {
        LineContent::Style(s) => format!("{:?}", one(Section::Styles(vec![(**s).clone()]))),
        LineContent::Event(s) => format!("{:?}", one(Section::Events(vec![(**s).clone()]))),
        LineContent::Field(k, v) => format!("{k}={v}"),
    }
}

fn change(c: &Change) -> String {
    match c {
        Change::Added { offset, content: c, .. } => format!("added @{offset} {}", content(c)),
        Change::Removed { .. } => "removed".into(),
        Change::Modified { offset, old_content, new_content, line_number } => format!("modified @{offset} #{line_number} {} -> {}", content(old_content), content(new_content)),
        Change::SectionAdded { section, index } => format!("section {index} added {:?}", one(section.clone())),
        Change::SectionRemoved { section_type, index } => format!("section {index} removed {section_type:?}"),
    }
}

fn spans(s: &Section) -> Vec<Range<usize>> {
    match s {
        Section::ScriptInfo(i) => vec![i.span.start..i.span.end],
        Section::Styles(v) => v.iter().map(|x| x.span.start..x.span.end).collect(),
        Section::Events(v) => v.iter().map(|x| x.span.start..x.span.end).collect(),
        Section::Fonts(v) => v.iter().map(|x| x.span.start..x.span.end).collect(),
        Section::Graphics(v) => v.iter().map(|x| x.span.start..x.span.end).collect(),
    }
}

impl Model {
    fn new(s: &Script) -> Self {
        let secs = zero(&observe(s).secs).into_iter().zip(s.sections().iter().map(spans)).collect();
        let f = |x: Option<&[&str]>| x.map(|f| f.iter().map(|s| s.to_string()).collect());
        Model { secs, sfmt: f(s.styles_format()), efmt: f(s.events_format()), track: false, log: vec![] }
    }
    fn rec(&mut self, s: String) {
        if self.track {
            self.log.push(s);
        }
    }
    fn update(&mut self, off: usize, line: &str, ln: usize) -> Result<String, ()> {
        let si = self.secs.iter().position(|(_, sp)| {
            let real: Vec<_> = sp.iter().filter(|r| r.start < r.end).collect();
            !real.is_empty() && real[0].start <= off && off < real.iter().map(|r| r.end).max().unwrap()
        }).ok_or(())?;
        let t = line.trim();
        let (sec, sp) = &mut self.secs[si];
        let hit = sp.iter().position(|r| r.contains(&off));
        if let Some(d) = t.strip_prefix("Style:") {
            let f = self.sfmt.clone().unwrap_or_else(|| refparse::defaults(&refparse::STYLE_FORMAT));
            let new = refparse::style_line(d, &f, 0).ok_or(())?;
            let RSec::Styles(v) = sec else { return Err(()) };
            let i = hit.ok_or(())?;
            let old = std::mem::replace(&mut v[i], new.clone());
            let (o, n) = (format!("{:?}", RSec::Styles(vec![old])), format!("{:?}", RSec::Styles(vec![new])));
            self.rec(format!("modified @{off} #{ln} {o} -> {n}"));
            Ok(o)
        } else if let Some((k, d)) = refparse::KINDS.iter().find_map(|k| t.strip_prefix(k).and_then(|r| r.strip_prefix(':')).map(|d| (*k, d))) {
            let f = self.efmt.clone().unwrap_or_else(|| refparse::defaults(&refparse::EVENT_FORMAT));
            let new = refparse::event_line(k, d, &f, 0).ok_or(())?;
            let RSec::Events(v) = sec else { return Err(()) };
            let i = hit.ok_or(())?;
            let old = std::mem::replace(&mut v[i], new.clone());
            let (o, n) = (format!("{:?}", RSec::Events(vec![old])), format!("{:?}", RSec::Events(vec![new])));
            self.rec(format!("modified @{off} #{ln} {o} -> {n}"));
            Ok(o)
        } else if t.starts_with("Format:") {
            Err(())
        } else if let Some((k, val)) = t.split_once(':') {
            let (k, val) = (k.trim().to_string(), val.trim().to_string());
            let RSec::Info(v) = sec else { return Err(()) };
            if let Some(f) = v.iter_mut().find(|f| f.0 == k) {
                let o = format!("{k}={}", f.1);
                f.1 = val.clone();
                self.rec(format!("modified @{off} #{ln} {o} -> {k}={val}"));
                Ok(o)
            } else {
                v.push((k.clone(), val.clone()));
                self.rec(format!("added @{off} {k}={val}"));
                Ok(format!("{k}="))
            }
        } else {
            Err(())
        }
    }
    fn add(&mut self, item: RSec) -> usize {
        let idx = self.secs.iter().position(|(s, _)| std::mem::discriminant(s) == std::mem::discriminant(&item));
        self.rec(format!("added @0 {item:?}"));
        match idx {
            None => {
                self.secs.push((item, vec![0..0]));
                0
            }
            Some(i) => {
                let (s, sp) = &mut self.secs[i];
                sp.push(0..0);
                match (s, item) {
                    (RSec::Styles(v), RSec::Styles(x)) => v.extend(x),
                    (RSec::Events(v), RSec::Events(x)) => v.extend(x),
                    _ => unreachable!(),
                }
                sp.len() - 1
            }
        }
    }
    fn add_many(&mut self, n: usize, mk: fn(usize) -> RSec, empty: RSec) -> Vec<usize> {
        if n == 0 {
            // an empty batch creates an empty section when there is none
            if !self.secs.iter().any(|(s, _)| std::mem::discriminant(s) == std::mem::discriminant(&empty)) {
                self.secs.push((empty, vec![]));
            }
            return vec![];
        }
        (0..n).map(|i| self.add(mk(i))).collect()
    }
}

fn mk_style(n: usize) -> RSec {
    one(Section::Styles(vec![style(n)]))
}
fn mk_event(n: usize) -> RSec {
    one(Section::Events(vec![event(n)]))
}
fn mk_section(n: usize) -> Section<'static> {
    match n {
        0 => Section::Events(vec![Event { text: "in section", span: Span::new(0, 0, 0, 0), ..Event::default() }]),
        1 => Section::Styles(vec![]),
        _ => Section::ScriptInfo(ass_core::parser::ast::ScriptInfo { fields: vec![("K", "v")], span: Span::new(0, 0, 0, 0) }),
    }
}

/// Interesting offsets of a document: starts, middles and ends of every line, and beyond.
fn targets(src: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 0;
    for l in src.split('\n') {
        v.push(p);
        if l.len() > 3 {
            v.push(p + l.len() - 1);
        }
        p += l.len() + 1;
    }
    v.push(src.len());
    v.push(src.len() + 9);
    v
}

fn kind_name(s: &RSec) -> &'static str {
    match s { RSec::Info(_) => "ScriptInfo", RSec::Styles(_) => "Styles", RSec::Events(_) => "Events", RSec::Fonts(_) => "Fonts", RSec::Graphics(_) => "Graphics" }
}

fn step<'a>(s: &mut Script<'a>, m: &mut Model, tg: &[usize], op: &Op) -> Result<(), String> {
    let ups = |v: &Vec<(usize, usize)>| -> Vec<UpdateOperation<'a>> {
        v.iter().enumerate().map(|(i, (t, l))| UpdateOperation { offset: tg[*t % tg.len()], new_line: NEW[*l], line_number: 40 + i as u32 }).collect()
    };
    match op {
        Op::Update(t, l) => {
            let off = tg[*t % tg.len()];
            let got = guard(|| s.update_line_at_offset(off, NEW[*l], 33))?.map(|c| content(&c)).map_err(|_| ());
            let want = m.update(off, NEW[*l], 33);
            if got != want {
                return Err(format!("update @{off} {:?} returns {got:?}, expected {want:?}", NEW[*l]));
            }
        }
        Op::AddStyle => {
            let (g, w) = (s.add_style(style(0)), m.add(mk_style(0)));
            if g != w { return Err(format!("add_style index {g}, expected {w}")); }
        }
        Op::AddEvent => {
            let (g, w) = (s.add_event(event(0)), m.add(mk_event(0)));
            if g != w { return Err(format!("add_event index {g}, expected {w}")); }
        }
        Op::AddSection(n) => {
            let g = s.add_section(mk_section(*n));
            let i = m.secs.len();
            let x = one(mk_section(*n));
            m.rec(format!("section {i} added {x:?}"));
            m.secs.push((x, spans(&mk_section(*n))));
            if g != i { return Err(format!("add_section index {g}, expected {i}")); }
        }
        Op::Remove(i) => {
            let g = s.remove_section(*i).map(|x| zero(&[one(x)])[0].clone()).map_err(|_| ());
            let w = if *i < m.secs.len() {
                let x = m.secs.remove(*i).0;
                m.rec(format!("section {i} removed {}", kind_name(&x)));
                Ok(x)
            } else {
                Err(())
            };
            if g != w { return Err(format!("remove_section gives {g:?}, expected {w:?}")); }
        }
        Op::Batch(v) => {
            let r = guard(|| s.batch_update_lines(ups(v)))?;
            let (mut ok, mut bad) = (vec![], vec![]);
            for u in ups(v) {
                match m.update(u.offset, u.new_line, u.line_number as usize) {
                    Ok(o) => ok.push((u.offset, o)),
                    Err(()) => bad.push(u.offset),
                }
            }
            let g: Vec<_> = r.updated.iter().map(|(o, c)| (*o, content(c))).collect();
            let gb: Vec<_> = r.failed.iter().map(|f| f.0).collect();
            if g != ok || gb != bad {
                return Err(format!("batch: updated {g:?} failed {gb:?}, expected {ok:?} {bad:?}"));
            }
        }
        Op::AddStyles(n) => {
            let g = s.batch_add_styles(StyleBatch { styles: (0..*n).map(style).collect() });
            let w = m.add_many(*n, mk_style, RSec::Styles(vec![]));
            if g != w { return Err(format!("batch_add_styles gives {g:?}, expected {w:?}")); }
        }
        Op::AddEvents(n) => {
            let g = s.batch_add_events(EventBatch { events: (0..*n).map(event).collect() });
            let w = m.add_many(*n, mk_event, RSec::Events(vec![]));
            if g != w { return Err(format!("batch_add_events gives {g:?}, expected {w:?}")); }
        }
        Op::Atomic(v, ns, ne) => {
            let before = s.clone();
            let st = (*ns > 0).then(|| StyleBatch { styles: (0..*ns).map(style).collect() });
            let ev = (*ne > 0).then(|| EventBatch { events: (0..*ne).map(event).collect() });
            let g = guard(|| s.atomic_batch_update(ups(v), st, ev))?;
            let mut w = m.clone();
            let r: Result<Vec<_>, ()> = ups(v).iter().map(|u| w.update(u.offset, u.new_line, u.line_number as usize)).collect();
            if r.is_ok() != g.is_ok() {
                return Err(format!("atomic batch {v:?} returns {g:?}, expected ok={}", r.is_ok()));
            }
            if r.is_ok() {
                if *ns > 0 { w.add_many(*ns, mk_style, RSec::Styles(vec![])); }
                if *ne > 0 { w.add_many(*ne, mk_event, RSec::Events(vec![])); }
                *m = w;
            } else if *s != before {
                return Err("failed atomic batch changed the script".into());
            }
        }
        Op::Track(on) => {
            if *on { s.enable_change_tracking() } else { s.disable_change_tracking() }
            m.track = *on;
        }
        Op::Clear => {
            s.clear_changes();
            m.log.clear();
        }
        Op::Formats(n) => {
            let (sf, ef) = [(vec!["Fontname", "Name"], vec!["Text"]), (vec!["Name"], vec!["Effect", "Start", "Text"])][*n].clone();
            m.sfmt = Some(sf.iter().map(|x| x.to_string()).collect());
            m.efmt = Some(ef.iter().map(|x| x.to_string()).collect());
            s.set_styles_format(sf);
            s.set_events_format(ef);
        }
    }
    let got = zero(&observe(s).secs);
    let want: Vec<RSec> = m.secs.iter().map(|x| x.0.clone()).collect();
    if got != want {
        return Err(format!("sections {got:?}\nexpected {want:?}"));
    }
    let log: Vec<String> = s.changes().iter().map(change).collect();
    if log != m.log || s.change_count() != m.log.len() || s.is_change_tracking_enabled() != m.track {
        return Err(format!("change log {log:?}\nexpected {:?}", m.log));
    }
    Ok(())
}

/// `later.diff(earlier)` lists changes that turn the earlier script into the later one.
fn diff(a: &Script, b: &Script) -> Result<(), String> {
    let d = a.diff(b);
    let mut slots: Vec<Option<Section>> = b.sections().iter().cloned().map(Some).collect();
    for c in &d {
        match c {
            Change::SectionRemoved { index, section_type } => {
                if slots.get(*index).and_then(|s| s.as_ref()).map(|s| s.section_type()) != Some(*section_type) {
                    return Err(format!("diff removes section {index} {section_type:?}, which is not there: {d:?}"));
                }
                slots[*index] = None;
            }
            Change::SectionAdded { index, section } => {
                while slots.len() <= *index { slots.push(None); }
                if slots[*index].is_some() {
                    return Err(format!("diff adds section {index} over an existing one"));
                }
                slots[*index] = Some(section.clone());
            }
            _ => return Err(format!("unexpected change {c:?}")),
        }
    }
    let got: Vec<Section> = slots.into_iter().flatten().collect();
    if got != a.sections() {
        return Err(format!("diff leads to {got:?}"));
    }
    if d.is_empty() != (a.sections() == b.sections()) {
        return Err("diff emptiness".into());
    }
    Ok(())
}

fn run_seq(run: &Run, doc: usize, ops: &[Op]) -> Result<(), String> {
    let src = DOCS[doc];
    let mut s = Script::parse(src).unwrap();
    let orig = s.clone();
    let mut m = Model::new(&s);
    s.enable_change_tracking();
    m.track = true;
    let tg = targets(src);
    for (i, op) in ops.iter().enumerate() {
        step(&mut s, &mut m, &tg, op).map_err(|e| format!("source {src:?}\noperations {:?}\nfailing at number {i}: {e}", ops))?;
    }
    diff(&s, &orig).and_then(|()| diff(&orig, &s)).map_err(|e| format!("source {src:?} operations {ops:?}: {e}"))?;
    run.steps(ops.len() as u64);
    run.state(&(doc, format!("{:?}", m.secs.iter().map(|x| &x.0).collect::<Vec<_>>()), m.log));
    Ok(())
}

pub fn c05(run: &Run) {
    run.rule("every sequence of edit operations up to a depth on 6 documents (all lines and mid-line offsets as targets), every 1-3 step batch with a failing step at each position; a state is a distinct (sections, change log)");
    let n_t = |d: usize| targets(DOCS[d]).len();
    // 1. every single update, then every second one at any target
    for d in 0..DOCS.len() {
        let k = n_t(d) * NEW.len();
        run.stage(&format!("updates{d}"), (k * k) as u64, |i| {
            let (a, b) = (i as usize / k, i as usize % k);
            run_seq(run, d, &[Op::Update(a / NEW.len(), a % NEW.len()), Op::Update(b / NEW.len(), b % NEW.len())])
        });
    }
    // 2. batches and atomic batches of up to three updates over a reduced set of targets and lines
    let lines = [0usize, 1, 2, 7, 11];
    for d in 0..DOCS.len() {
        let k = n_t(d) * lines.len();
        let depth = run.pick(2, 3);
        run.stage(&format!("batches{d}"), seq_count(k, depth) * 5, |i| {
            let v: Vec<(usize, usize)> = seq_at(k, i / 5).into_iter().map(|x| (x / lines.len(), lines[x % lines.len()])).collect();
            let op = match i % 5 {
                0 => Op::Batch(v),
                1 => Op::Atomic(v, 0, 0),
                2 => Op::Atomic(v, 2, 0),
                3 => Op::Atomic(v, 0, 1),
                _ => Op::Atomic(v, 1, 2),
            };
            run_seq(run, d, &[op])
        });
    }
    // 3. histories of mixed operations
    for d in 0..DOCS.len() {
        let src = DOCS[d];
        let tg = targets(src);
        let at = |needle: &str| src.find(needle).and_then(|p| tg.iter().position(|t| *t == p));
        let spots: Vec<usize> = ["Title: A", "Style: s0", "Style: s1", "Dialogue", "Comment", "fontname"].iter().filter_map(|n| at(n)).chain([tg.len() - 1]).collect();
        let mut ops = vec![];
        for &t in &spots {
            for l in [0, 1, 3, 4] {
                ops.push(Op::Update(t, l));
            }
        }
        ops.extend([Op::AddStyle, Op::AddEvent, Op::AddSection(0), Op::AddSection(1), Op::AddSection(2), Op::Remove(0), Op::Remove(1), Op::Remove(3),
            Op::AddStyles(0), Op::AddStyles(3), Op::AddEvents(2), Op::Track(false), Op::Track(true), Op::Clear, Op::Formats(0), Op::Formats(1),
            Op::Atomic(vec![(spots[0], 0), (spots[0], 2)], 1, 1), Op::Batch(vec![(spots[0], 7), (spots[spots.len().min(2) - 1], 1), (spots[0], 5), (spots[0], 4)])]);
        let depth = run.pick(3, 4);
        run.sample(format!("{:?}", seq_at(ops.len(), seq_count(ops.len(), depth) / 3).iter().map(|&x| &ops[x]).collect::<Vec<_>>()));
        run.stage(&format!("histories{d}"), seq_count(ops.len(), depth), |i| {
            let v: Vec<Op> = seq_at(ops.len(), i).into_iter().map(|x| ops[x].clone()).collect();
            run_seq(run, d, &v)
        });
    }
    // 4. single lines read in a section's context
    let fmts = [vec!["Name", "Fontname"], vec!["Fontname"], vec!["Bold", "name", "MARGINT"]];
    let efm = [vec!["Text"], vec!["Layer", "Text"], vec!["Text", "Start", "marginb"]];
    const PIECES: [&str; 9] = ["Style:", "Dialogue:", "Movie:", "a", ",", ":", " ", "*", "é"];
    let n = seq_count(PIECES.len(), run.pick(6, 7));
    run.stage("lines", n, |i| {
        let line = string_at(&PIECES, i);
        for k in 0..3 {
            let mut s = Script::parse("").unwrap();
            s.set_styles_format(fmts[k].clone());
            s.set_events_format(efm[k].clone());
            let own = |v: &Vec<&str>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            let ctx = |w: &str, g: &dyn std::fmt::Debug, e: &dyn std::fmt::Debug| format!("{w} {line:?} formats {k}: {g:?}, expected {e:?}");
            let t = line.trim();
            // automatic detection
            let got = guard(|| s.parse_line_auto(&line, 3).map(|c| content(&c.1)).map_err(|_| ()))?;
            fn ev(t: &str) -> Option<(&'static str, &str)> {
                refparse::KINDS.iter().find_map(|k| t.strip_prefix(k).and_then(|r| r.strip_prefix(':')).map(|d| (*k, d)))
            }
            let style_of = |d: &str| refparse::style_line(d, &own(&fmts[k]), 0).map(|x| format!("{:?}", RSec::Styles(vec![x]))).ok_or(());
            let event_of = |kd: &'static str, d: &str| refparse::event_line(kd, d, &own(&efm[k]), 0).map(|x| format!("{:?}", RSec::Events(vec![x]))).ok_or(());
            let field = |t: &str| t.split_once(':').map(|(a, b)| format!("{}={}", a.trim(), b.trim())).ok_or(());
            let want = if let Some(d) = t.strip_prefix("Style:") {
                style_of(d)
            } else if let Some((kd, d)) = ev(t) {
                event_of(kd, d)
            } else {
                field(t)
            };
            if got != want { return Err(ctx("parse_line_auto", &got, &want)); }
            // stated section
            use ass_core::parser::SectionType as S;
            let g = |sec| guard(|| s.parse_line_in_section(sec, &line, 3).map(|c| content(&c)).map_err(|_| ()));
            let (gs, ge, gi, gf) = (g(S::Styles)?, g(S::Events)?, g(S::ScriptInfo)?, g(S::Fonts)?);
            let ws = style_of(t.strip_prefix("Style:").unwrap_or(t));
            if gs != ws { return Err(ctx("parse_line_in_section(Styles)", &gs, &ws)); }
            if !line.starts_with(' ') {
                let we = ev(&line).ok_or(()).and_then(|(kd, d)| event_of(kd, d));
                if ge != we { return Err(ctx("parse_line_in_section(Events)", &ge, &we)); }
            }
            if gi != field(&line) { return Err(ctx("parse_line_in_section(ScriptInfo)", &gi, &field(&line))); }
            if gf.is_ok() { return Err(ctx("parse_line_in_section(Fonts)", &gf, &"an error")); }
            run.state(&(k, got, gs));
        }
        Ok(())
    });
}
