//! E07: style commands.
use crate::events::{check_range, flavour};
use crate::lines::*;
use ass_editor::commands::*;
use ass_editor::core::{EditorDocument, Result as EdResult, StyleBuilder};
use mc_common::*;

const FULL: &[&str] = &["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX",
    "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"];
const SHORT: &[&str] = &["Name", "Fontname", "Bold"];
const SWAP: &[&str] = &["Fontname", "Name"];
const ODD: &[&str] = &["Bold", "Name", "Weight"];

#[derive(Clone, Debug, PartialEq)]
struct M {
    d: Doc,
    /// line behind which new styles go, and their columns
    at: Option<(usize, &'static [&'static str])>,
    events: Option<usize>,
}

#[derive(Clone, Debug)]
enum Op {
    Create(&'static str, u8),
    Edit(&'static str, Vec<(&'static str, &'static str)>),
    Delete(&'static str),
    Clone(&'static str, &'static str),
    Line(&'static str, &'static str),
    Apply(&'static str, &'static str),
    Fluent(&'static str),
}

fn builder(how: u8) -> StyleBuilder {
    match how {
        0 => StyleBuilder::new(),
        1 => StyleBuilder::new().font("Comic Sans").bold(true).size(7),
        _ => StyleBuilder::default_style().name("Other"),
    }
}

fn style(indent: &'static str, sep: &'static str, cols: &'static [&'static str], name: &str, font: &str) -> Line {
    let v: Vec<&str> = cols.iter().map(|c| match *c {
        "Name" => name,
        "Fontname" => font,
        _ => "0",
    }).collect();
    line(ev(indent, "Style", sep, cols, &v))
}

const HEADS: usize = 7;
const ITEMS: usize = 10;

fn doc_at(i: u64) -> Option<M> {
    let head = (i % HEADS as u64) as usize;
    let items = seq_at(ITEMS, i / HEADS as u64);
    let mut m = M { d: Doc::default(), at: None, events: None };
    let mut cols: Option<&'static [&'static str]> = None;
    let format = |m: &mut M, header: &str, c: &'static [&'static str], sp: &str| {
        m.d.push_raw(header);
        if !sp.is_empty() {
            m.d.push_raw(&format!("Format:{}", c.iter().map(|c| format!(" {c}")).collect::<Vec<_>>().join(",")));
        }
        if m.at.is_none() {
            m.at = Some((m.d.lines.len() - 1, c));
        }
        c
    };
    m.d.push_raw("[Script Info]");
    m.d.push_raw("Title: Style: Default,[V4+ Styles] Format:");
    match head {
        0 => {}
        1 => cols = Some(format(&mut m, "[V4+ Styles]", SHORT, " ")),
        2 => cols = Some(format(&mut m, "[V4 Styles]", SWAP, " ")),
        3 => cols = Some(format(&mut m, "[V4+ Styles]", FULL, "")),
        4 => cols = Some(format(&mut m, "[V4++ Styles]", ODD, " ")),
        5 => {
            m.d.push_raw("[Events]");
            m.events = Some(m.d.lines.len() - 1);
            m.d.push_raw("Format: Style, Text");
            m.d.push_raw("Dialogue: Default,Style: Default,x");
            cols = Some(format(&mut m, "[V4+ Styles]", SHORT, " "));
        }
        _ => {
            // text between the header and its format
            m.d.push_raw("[V4+ Styles]");
            m.d.push_raw("; Format: Bold, Name");
            m.d.push_raw("");
            m.d.push_raw("Format: Name, Fontname, Bold");
            m.at = Some((m.d.lines.len() - 1, SHORT));
            cols = Some(SHORT);
        }
    }
    let n = items.len();
    for (k, it) in items.into_iter().enumerate() {
        let line = match it {
            0 => style("", ": ", cols?, "Default", "Arial"),
            1 => style("", ": ", cols?, "Default2", "Style: Default"),
            2 => style("  ", ":  ", cols?, " Def ", " é  "),
            3 => style("", ": *Default,", cols?, "Kid", "Default"),
            4 => Line::raw("; Style: Default,Arial,0"),
            5 => Line::raw(""),
            6 => {
                m.d.push_raw("[X]");
                cols = None;
                Line::raw("Style: Default,Arial,0")
            }
            7 => {
                cols = Some(format(&mut m, "[V4+ Styles]", SWAP, " "));
                continue;
            }
            8 => style("", ":", cols?, "default", "é"),
            _ => {
                if m.events.is_some() || k + 1 != n {
                    return None;
                }
                m.d.push_raw(" [Events]");
                m.events = Some(m.d.lines.len() - 1);
                m.d.push_raw("Format: Style, Text");
                Line::raw("Dialogue: Default,Style: Default,x")
            }
        };
        m.d.lines.push(line);
    }
    Some(m)
}

impl M {
    fn find(&self, name: &str) -> Option<usize> {
        self.d.events().into_iter().find(|&l| self.d.lines[l].ev.as_ref().unwrap().get("Name") == Some(name))
    }
    fn insert(&mut self, at: usize, l: Line) {
        if at > 0 && self.d.lines[at - 1].nl.is_empty() {
            self.d.lines[at - 1].nl = "\n";
        }
        self.d.lines.insert(at, l);
        if let Some(e) = self.events.as_mut().filter(|e| **e >= at) {
            *e += 1;
        }
    }
    fn add(&mut self, text: impl Fn(Option<&[&str]>) -> Option<String>) -> Result<(), ()> {
        if let Some((l, cols)) = self.at {
            let mut new = Line::raw("");
            let t = text(Some(cols)).ok_or(())?;
            let v: Vec<&str> = t.strip_prefix("Style: ").ok_or(())?.split(',').collect();
            if v.len() == cols.len() {
                new.ev = Some(ev("", "Style", ": ", cols, &v));
            } else {
                new.raw = t;
            }
            self.insert(l + 1, new);
        } else {
            let t = text(None).ok_or(())?;
            let at = self.events.unwrap_or(self.d.lines.len());
            let mut raws = vec!["".to_string(), "[V4+ Styles]".into(), format!("Format: {}", FULL.join(", "))];
            if self.events.is_none() && self.d.lines[at - 1].nl.is_empty() {
                // the blank line is used up by the missing break
                raws.remove(0);
            }
            raws.push(t);
            for (k, r) in raws.iter().enumerate() {
                let mut l = Line::raw(r);
                if k + 1 == raws.len() {
                    let v: Vec<&str> = r["Style: ".len()..].split(',').collect();
                    if v.len() == FULL.len() {
                        l = line(ev("", "Style", ": ", FULL, &v));
                    }
                }
                self.insert(at + k, l);
            }
            self.at = Some((at + raws.len() - 2, FULL));
        }
        Ok(())
    }
}

fn name_ok(n: &str) -> bool {
    !n.is_empty() && n.trim() == n && !n.starts_with('*') && !n.contains(',') && !n.contains('\n')
}

fn model(m: &M, op: &Op) -> Result<M, ()> {
    let mut m = m.clone();
    match op {
        Op::Create(n, how) => {
            if !name_ok(n) || m.find(n).is_some() {
                return Err(());
            }
            let b = builder(*how).name(n);
            m.add(|cols| match cols {
                Some(c) => b.build_with_format(c).ok(),
                None => b.build_with_format(FULL).ok(),
            })?;
        }
        Op::Edit(n, f) => {
            let l = m.find(n).ok_or(())?;
            for (c, v) in f {
                let e = m.d.lines[l].ev.as_mut().unwrap();
                if v.contains(',') || v.contains('\n') || !e.set(c, v) {
                    return Err(());
                }
            }
        }
        Op::Fluent(n) => {
            let l = m.find(n).ok_or(())?;
            let e = m.d.lines[l].ev.as_mut().unwrap();
            if !e.set("Fontname", "F") || !e.set("Bold", "-1") {
                return Err(());
            }
        }
        Op::Delete(n) => {
            let l = m.find(n).ok_or(())?;
            m.d.lines.remove(l);
            if let Some(e) = m.events.as_mut().filter(|e| **e > l) {
                *e -= 1;
            }
        }
        Op::Clone(a, b) => {
            let l = m.find(a).ok_or(())?;
            if !name_ok(b) || m.find(b).is_some() {
                return Err(());
            }
            let mut new = m.d.lines[l].clone();
            new.ev.as_mut().unwrap().set("Name", b);
            if new.nl.is_empty() {
                new.nl = "\n";
            }
            m.insert(l + 1, new);
        }
        Op::Line(n, text) => match m.find(n) {
            Some(l) => {
                let old = m.d.lines[l].clone();
                let e = old.ev.unwrap();
                let v: Vec<&str> = text["Style: ".len()..].split(',').collect();
                if v.len() == e.cols.len() {
                    m.d.lines[l].ev = Some(ev("", "Style", ": ", e.cols, &v));
                } else {
                    m.d.lines[l].raw = text.to_string();
                    m.d.lines[l].ev = None;
                }
            }
            None => m.add(|_| Some(text.to_string()))?,
        },
        Op::Apply(o, n) => {
            let l = m.d.lines.iter_mut().find(|l| l.raw.starts_with("Dialogue: ")).ok_or(())?;
            if *o == "Default" && !n.contains(',') {
                l.raw = format!("Dialogue: {n},Style: Default,x");
            } else if n.contains(',') {
                return Err(());
            }
        }
    }
    Ok(m)
}

fn run_op(doc: &mut EditorDocument, op: &Op, direct: bool) -> EdResult<Option<CommandResult>> {
    let c: Box<dyn EditorCommand> = match op {
        Op::Create(n, how) => Box::new(CreateStyleCommand::new(n.to_string(), builder(*how))),
        Op::Edit(n, f) => {
            let mut c = EditStyleCommand::new(n.to_string());
            for (k, v) in f {
                c = c.set_field(k, v.to_string());
            }
            Box::new(c)
        }
        Op::Delete(n) => Box::new(DeleteStyleCommand::new(n.to_string())),
        Op::Clone(a, b) => Box::new(CloneStyleCommand::new(a.to_string(), b.to_string())),
        Op::Apply(a, b) => Box::new(ApplyStyleCommand::new(a.to_string(), b.to_string())),
        Op::Line(n, t) => {
            doc.edit_style_line(n, t)?;
            return Ok(None);
        }
        Op::Fluent(n) => {
            doc.styles().edit(n).font("F").bold(true).apply()?;
            return Ok(None);
        }
    };
    if direct {
        return c.execute(doc).map(Some);
    }
    match op {
        Op::Delete(n) => {
            doc.styles().delete(n)?;
            Ok(None)
        }
        Op::Clone(a, b) => {
            doc.styles().clone(a, b)?;
            Ok(None)
        }
        _ => doc.execute_command(&*c).map(Some),
    }
}

fn step(doc: &mut EditorDocument, m: &M, op: &Op, direct: bool) -> Result<M, String> {
    let before = m.d.text();
    let want = model(m, op);
    let got = guard(|| run_op(doc, op, direct)).map_err(|e| format!("{op:?} panics on {before:?}: {e}"))?;
    let now = doc.text();
    match (want, &got) {
        (Ok(w), Ok(r)) => {
            if now != w.d.text() {
                return Err(format!("{op:?} makes\n{now:?} of\n{before:?}, expected\n{:?}", w.d.text()));
            }
            if let Some(r) = r {
                check_range(&before, &now, r).map_err(|e| format!("{op:?} on {before:?} gives {now:?}: {e}"))?;
            }
            Ok(w)
        }
        (Err(()), Err(_)) if now == before => Ok(m.clone()),
        (Err(()), Err(_)) => Err(format!("{op:?} fails on {before:?} but leaves {now:?}")),
        (w, _) => Err(format!("{op:?} on {before:?}: {:?}, expected {}", got.map(|_| ()).map_err(|e| e.to_string()), if w.is_ok() { "success" } else { "an error" })),
    }
}

fn ops(small: bool) -> Vec<Op> {
    let mut v = vec![];
    let names: &[&str] = if small { &["Default", "Def", "Kid"] } else { &["Default", "Default2", "Def", "Kid", "default", "De", "Arial", "New", ""] };
    for n in names {
        v.push(Op::Delete(n));
        v.push(Op::Edit(n, vec![("Fontname", "X Y")]));
        v.push(Op::Clone(n, "Def2"));
        if small {
            continue;
        }
        for how in 0..3 {
            v.push(Op::Create(n, how));
        }
        v.push(Op::Edit(n, vec![("Bold", "1"), ("Fontname", "Z")]));
        v.push(Op::Edit(n, vec![("Name", "Ren")]));
        v.push(Op::Edit(n, vec![("fontname", "Z")]));
        v.push(Op::Edit(n, vec![("Fontname", "a,b")]));
        v.push(Op::Edit(n, vec![("Name", "A\nB")]));
        v.push(Op::Edit(n, vec![]));
        v.push(Op::Fluent(n));
        v.push(Op::Line(n, "Style: Changed,Q,1"));
        v.push(Op::Line(n, "Style: Q,Changed"));
        for t in ["Default", "Default3", "Def", "kid", " x", "*x", "a,b", ""] {
            v.push(Op::Clone(n, t));
        }
    }
    if small {
        v.push(Op::Create("Def", 1));
        v.push(Op::Create("Kid", 0));
    } else {
        for n in ["a,b", " Default", "*Default", "a\nb"] {
            v.push(Op::Create(n, 0));
        }
        for o in ["Default", "Def", "Default2", ""] {
            v.push(Op::Apply(o, "New"));
            v.push(Op::Apply(o, "a,b"));
        }
    }
    v
}

pub fn e07(r: &Run) {
    r.rule("every document of up to the stated number of items (styles whose names are prefixes or case variants of one another, with parents, spaces and duplicates, comment and blank lines, other and further sections) behind seven heads (no styles section, short, swapped, unknown and missing formats, styles behind the events), with four kinds of line breaks; on it every style command with every name, compared with a list of lines; and every pair of commands on the smaller documents");
    let go = |max: usize, pairs: bool, name: &str| {
        let total = seq_count(ITEMS, max) * HEADS as u64;
        r.stage(name, total * 4, |i| {
            let Some(mut m) = doc_at(i / 4) else { return Ok(()) };
            flavour(&mut m.d, i % 4);
            let t = m.d.text();
            r.state(&t);
            let mut count = 0;
            for op in ops(pairs) {
                let mut doc = EditorDocument::from_content(&t).unwrap();
                let after = step(&mut doc, &m, &op, count % 2 == 1)?;
                count += 1;
                if pairs {
                    for op2 in ops(true) {
                        let mut doc = EditorDocument::from_content(&t).unwrap();
                        step(&mut doc, &m, &op, false)?;
                        step(&mut doc, &after, &op2, false).map_err(|e| format!("after {op:?} on {t:?}: {e}"))?;
                        count += 1;
                    }
                }
            }
            r.steps(count);
            r.traces(count);
            Ok(())
        });
    };
    go(r.pick(3, 4), false, "single");
    go(r.pick(2, 3), true, "pairs");
}
