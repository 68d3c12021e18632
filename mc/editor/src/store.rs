//! E08: script info and embedded files as keyed stores.
use crate::events::check_range;
use ass_core::parser::{Script, Section};
use ass_core::utils::decode_uu_data;
use ass_editor::commands::*;
use ass_editor::core::{EditorDocument, Result as EdResult};
use mc_common::*;

#[derive(Clone, Debug, PartialEq)]
enum K {
    Raw,
    Blank,
    Header(&'static str),
    Info { pre: &'static str, key: String, val: String },
    Head { graphics: bool, name: String },
    Data,
}

#[derive(Clone, Debug, PartialEq)]
struct L {
    k: K,
    text: String,
    nl: &'static str,
}

#[derive(Clone, Debug, PartialEq, Default)]
struct M {
    l: Vec<L>,
}

fn l(k: K, text: &str) -> L {
    L { k, text: text.to_string(), nl: "\n" }
}

fn info(pre: &'static str, key: &str, sep: &str, val: &str) -> L {
    l(K::Info { pre, key: key.trim().into(), val: val.trim().into() }, &format!("{pre}{key}{sep}{val}"))
}

#[derive(Clone, Debug)]
enum Op {
    Set(&'static str, &'static str),
    Del(&'static str),
    Res(u32, u32),
    Add(bool, &'static str, &'static [&'static str]),
    Bin(bool, &'static str, &'static [u8]),
    Rem(bool, &'static str),
    Clear(bool),
}

const SECTION: [&str; 2] = ["Fonts", "Graphics"];
const ENTRY: [&str; 2] = ["fontname", "filename"];

impl M {
    fn text(&self) -> String {
        self.l.iter().map(|l| format!("{}{}", l.text, l.nl)).collect()
    }
    fn insert(&mut self, at: usize, new: Vec<L>) {
        if at > 0 && self.l[at - 1].nl.is_empty() {
            self.l[at - 1].nl = "\n";
        }
        for (i, n) in new.into_iter().enumerate() {
            self.l.insert(at + i, n);
        }
    }
    fn header(&self, name: &str) -> Option<usize> {
        self.l.iter().position(|l| matches!(l.k, K::Header(h) if h == name))
    }
    fn infos(&self) -> Vec<(String, String)> {
        self.l.iter().filter_map(|l| if let K::Info { key, val, .. } = &l.k { Some((key.clone(), val.clone())) } else { None }).collect()
    }
    /// entries: (graphics, name, first line, behind the last line, data)
    fn files(&self) -> Vec<(bool, String, usize, usize, Vec<String>)> {
        let mut v: Vec<(bool, String, usize, usize, Vec<String>)> = vec![];
        let mut open = false;
        for (i, l) in self.l.iter().enumerate() {
            match &l.k {
                K::Head { graphics, name } => {
                    v.push((*graphics, name.clone(), i, i + 1, vec![]));
                    open = true;
                }
                K::Data if open => {
                    let e = v.last_mut().unwrap();
                    e.3 = i + 1;
                    e.4.push(l.text.clone());
                }
                K::Blank | K::Header(_) => open = false,
                _ => {}
            }
        }
        v
    }
    fn set(&mut self, key: &str, val: &str) -> Result<(), ()> {
        if key.is_empty() || key.trim() != key || key.contains([':', '\n']) || key.starts_with(['[', ';', '#', '!']) || val.contains('\n') {
            return Err(());
        }
        let at = self.header("Script Info").ok_or(())?;
        let found = self.l.iter().position(|l| matches!(&l.k, K::Info { key: k, .. } if k == key));
        match found {
            Some(i) => {
                let K::Info { pre, .. } = self.l[i].k else { unreachable!() };
                self.l[i] = L { nl: self.l[i].nl, ..info(pre, key, ": ", val) };
            }
            None => self.insert(at + 1, vec![info("", key, ": ", val)]),
        }
        Ok(())
    }
    fn add(&mut self, g: bool, name: &str, data: &[String]) -> Result<(), ()> {
        let unfit = |s: &str| {
            let t = s.trim();
            s.contains('\n') || t.is_empty() || (t.starts_with('[') && t.contains(']')) || t.starts_with(&format!("{}:", ENTRY[g as usize]))
        };
        if unfit(name) || name.trim() != name || data.iter().any(|d| unfit(d)) {
            return Err(());
        }
        let mut new = vec![l(K::Head { graphics: g, name: name.into() }, &format!("{}: {name}", ENTRY[g as usize]))];
        new.extend(data.iter().map(|d| l(K::Data, d)));
        match self.header(SECTION[g as usize]) {
            Some(h) => {
                let at = self.files().iter().filter(|f| f.0 == g).next_back().map_or(h + 1, |f| f.3);
                self.insert(at, new);
            }
            None => {
                new.insert(0, l(K::Header(SECTION[g as usize]), &format!("[{}]", SECTION[g as usize])));
                self.insert(self.l.len(), new);
            }
        }
        Ok(())
    }
    fn drop_files(&mut self, g: bool, name: Option<&str>) {
        let mut v: Vec<_> = self.files().into_iter().filter(|f| f.0 == g && name.map_or(true, |n| f.1 == n)).collect();
        if name.is_some() {
            v.truncate(1);
        }
        for f in v.into_iter().rev() {
            self.l.drain(f.2..f.3);
        }
    }
    fn apply(&mut self, op: &Op) -> Result<(), ()> {
        match op {
            Op::Set(k, v) => self.set(k, v)?,
            Op::Res(w, h) => {
                self.set("PlayResX", &w.to_string())?;
                self.set("PlayResY", &h.to_string())?;
            }
            Op::Del(k) => {
                self.header("Script Info").ok_or(())?;
                self.l.retain(|l| !matches!(&l.k, K::Info { key, .. } if key == k));
            }
            Op::Add(g, n, d) => self.add(*g, n, &d.iter().map(|d| d.to_string()).collect::<Vec<_>>())?,
            Op::Bin(g, n, d) => {
                let lines = if *g { AddGraphicCommand::from_binary(n.to_string(), d).data_lines } else { AddFontCommand::from_binary(n.to_string(), d).data_lines };
                self.add(*g, n, &lines)?;
            }
            Op::Rem(g, n) => {
                self.header(SECTION[*g as usize]).ok_or(())?;
                self.drop_files(*g, Some(n));
            }
            Op::Clear(g) => self.drop_files(*g, None),
        }
        Ok(())
    }
}

fn run_op(doc: &mut EditorDocument, op: &Op, direct: bool) -> EdResult<Option<CommandResult>> {
    if direct {
        let own = |d: &[&str]| d.iter().map(|d| d.to_string()).collect::<Vec<_>>();
        let c: Box<dyn EditorCommand> = match op {
            Op::Set(k, v) => Box::new(SetScriptInfoCommand::new(k.to_string(), v.to_string())),
            Op::Del(k) => Box::new(DeleteScriptInfoCommand::new(k.to_string())),
            Op::Add(false, n, d) => Box::new(AddFontCommand::new(n.to_string(), own(d))),
            Op::Add(true, n, d) => Box::new(AddGraphicCommand::new(n.to_string(), own(d))),
            Op::Bin(false, n, d) => Box::new(AddFontCommand::from_binary(n.to_string(), d)),
            Op::Bin(true, n, d) => Box::new(AddGraphicCommand::from_binary(n.to_string(), d)),
            Op::Rem(false, n) => Box::new(RemoveFontCommand::new(n.to_string())),
            Op::Rem(true, n) => Box::new(RemoveGraphicCommand::new(n.to_string())),
            Op::Clear(false) => Box::new(ClearFontsCommand::new()),
            Op::Clear(true) => Box::new(ClearGraphicsCommand::new()),
            Op::Res(..) => return run_op(doc, op, false),
        };
        return c.execute(doc).map(Some);
    }
    match op {
        Op::Set("Title", v) => doc.info().title(v)?,
        Op::Set(k, v) => doc.info().set(k, v)?,
        Op::Del(k) => doc.info().delete(k)?,
        Op::Res(w, h) => doc.info().resolution(*w, *h)?,
        Op::Add(false, n, d) => doc.fonts().add(n, d.iter().map(|d| d.to_string()).collect())?,
        Op::Add(true, n, d) => doc.graphics().add(n, d.iter().map(|d| d.to_string()).collect())?,
        Op::Bin(false, n, d) => doc.fonts().add_binary(n, d)?,
        Op::Bin(true, n, d) => doc.graphics().add_binary(n, d)?,
        Op::Rem(false, n) => doc.fonts().remove(n)?,
        Op::Rem(true, n) => doc.graphics().remove(n)?,
        Op::Clear(false) => doc.fonts().clear()?,
        Op::Clear(true) => doc.graphics().clear()?,
    };
    Ok(None)
}

fn reads(doc: &mut EditorDocument, m: &M) -> Result<(), String> {
    let infos = m.infos();
    let has = m.header("Script Info").is_some();
    match doc.info().all() {
        Ok(v) if has && v == infos => {}
        Err(_) if !has => {}
        v => return Err(format!("all properties are {:?}, expected {infos:?}", v.map_err(|e| e.to_string()))),
    }
    for k in ["Title", "Title2", "PlayResX", "title", "New", ""] {
        let want = infos.iter().find(|p| p.0 == k).map(|p| p.1.clone());
        match doc.info().get(k) {
            Ok(v) if has && v == want => {}
            Err(_) if !has => {}
            v => return Err(format!("property {k:?} is {:?}, expected {want:?}", v.map_err(|e| e.to_string()))),
        }
    }
    let num = |k: &str| infos.iter().find(|p| p.0 == k).map(|p| p.1.parse::<u32>().map_err(|_| ()));
    let want = match (num("PlayResX"), num("PlayResY")) {
        (Some(Ok(w)), Some(Ok(h))) => Ok(Some((w, h))),
        (Some(_), Some(_)) => Err(()),
        _ => Ok(None),
    };
    if has && doc.info().get_resolution().map_err(|_| ()) != want {
        return Err(format!("the resolution is not {want:?}"));
    }
    for g in [false, true] {
        let want: Vec<String> = m.files().into_iter().filter(|f| f.0 == g).map(|f| f.1).collect();
        let (list, count) = if g { (doc.graphics().list(), doc.graphics().count()) } else { (doc.fonts().list(), doc.fonts().count()) };
        if list.as_ref().ok() != Some(&want) || count.ok() != Some(want.len()) {
            return Err(format!("the {} are {:?}, expected {want:?}", SECTION[g as usize], list.map_err(|e| e.to_string())));
        }
        for n in ["a.ttf", "a.ttf2", "b.otf", "a"] {
            let there = if g { doc.graphics().exists(n) } else { doc.fonts().exists(n) };
            if there.ok() != Some(want.iter().any(|w| w == n)) {
                return Err(format!("{n:?} among {want:?}: wrong answer"));
            }
        }
    }
    // what the parser reads
    let text = doc.text();
    let script = Script::parse(&text).map_err(|e| e.to_string())?;
    let mut got = vec![];
    for s in script.sections() {
        match s {
            Section::Fonts(v) => got.extend(v.iter().map(|f| (false, f.filename.to_string(), f.data_lines.iter().map(|d| d.trim_end_matches('\r').to_string()).collect::<Vec<_>>()))),
            Section::Graphics(v) => got.extend(v.iter().map(|f| (true, f.filename.to_string(), f.data_lines.iter().map(|d| d.trim_end_matches('\r').to_string()).collect::<Vec<_>>()))),
            _ => {}
        }
    }
    let want: Vec<_> = m.files().into_iter().map(|f| (f.0, f.1, f.4)).collect();
    if got != want {
        return Err(format!("the embedded files of {text:?} are {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn step(doc: &mut EditorDocument, m: &M, op: &Op, direct: bool) -> Result<M, String> {
    let before = m.text();
    let mut want = m.clone();
    let ok = want.apply(op);
    if ok.is_err() {
        want = m.clone();
    }
    let got = guard(|| run_op(doc, op, direct)).map_err(|e| format!("{op:?} panics on {before:?}: {e}"))?;
    let now = doc.text();
    if got.is_ok() != ok.is_ok() {
        return Err(format!("{op:?} on {before:?}: {:?}, expected {}", got.map(|_| ()).map_err(|e| e.to_string()), if ok.is_ok() { "success" } else { "an error" }));
    }
    if now != want.text() {
        return Err(format!("{op:?} makes\n{now:?} of\n{before:?}, expected\n{:?}", want.text()));
    }
    if let Ok(Some(r)) = &got {
        check_range(&before, &now, r).map_err(|e| format!("{op:?} on {before:?} gives {now:?}: {e}"))?;
    }
    guard(|| reads(doc, &want)).map_err(|e| format!("reading {now:?} panics: {e}"))?.map_err(|e| format!("{e} after {op:?} on {before:?}"))?;
    Ok(want)
}

const ITEMS: usize = 14;

fn doc_at(i: u64) -> Option<M> {
    let mut m = M::default();
    // 0 none, 1 script info, 2 files
    let mut at = 0;
    let mut g = false;
    let mut open = false;
    for it in seq_at(ITEMS, i) {
        let was_open = std::mem::replace(&mut open, false);
        let line = match it {
            0 => {
                at = 1;
                l(K::Header("Script Info"), "[Script Info]")
            }
            1 => {
                at = 2;
                g = false;
                l(K::Header("Fonts"), "[Fonts]")
            }
            2 => {
                at = 2;
                g = true;
                l(K::Header("Graphics"), " [Graphics] x")
            }
            3 if at == 1 => info("", "Title", ": ", "a"),
            4 if at == 1 => info("", "Title2", ":", "Title: b"),
            5 if at == 1 => info("\t", "PlayResX ", ":  ", "640 "),
            6 if at == 1 => l(K::Raw, "; Title: c"),
            3 if at == 2 => {
                open = true;
                let n = if g { "filename" } else { "fontname" };
                l(K::Head { graphics: g, name: "a.ttf".into() }, &format!("{n}: a.ttf"))
            }
            4 if at == 2 => {
                open = true;
                let n = if g { "filename" } else { "fontname" };
                l(K::Head { graphics: g, name: "a.ttf2".into() }, &format!("  {n} :a.ttf2 "))
            }
            5 if was_open => {
                open = true;
                l(K::Data, "!AB:C")
            }
            6 if was_open => {
                open = true;
                l(K::Data, "  Mfontname[x]")
            }
            7 => l(K::Blank, if at == 1 { "" } else { "  " }),
            8 => {
                if at != 0 {
                    open = was_open;
                }
                l(K::Raw, "; Title: a fontname: a.ttf")
            }
            9 => {
                at = 0;
                m.l.push(l(K::Header("X"), "[X]"));
                l(K::Raw, "Title: no")
            }
            10 if at == 0 => l(K::Raw, "fontname: a.ttf"),
            11 if at == 1 => info("", "Title", ":", ""),
            12 if at == 1 => l(K::Raw, "no colon"),
            13 if at == 1 => info("", "PlayResY", ": ", "x"),
            _ => return None,
        };
        m.l.push(line);
    }
    Some(m)
}

fn ops(small: bool) -> Vec<Op> {
    let mut v = vec![];
    let keys: &[&str] = if small { &["Title", "PlayResX", "New"] } else { &["Title", "Title2", "PlayResX", "title", "New", "", " Title", "a:b", ";x", "[x", "!x", "#x", "a\nb", "Original Script", "é"] };
    for k in keys {
        v.push(Op::Del(k));
        v.push(Op::Set(k, "v: w"));
        if !small {
            for val in ["", " sp ", "x\ny", "é,;", "[Events]", "12"] {
                v.push(Op::Set(k, val));
            }
        }
    }
    v.push(Op::Res(1920, 0));
    for g in [false, true] {
        v.push(Op::Clear(g));
        v.push(Op::Add(g, "b.otf", &["M1"]));
        for n in ["a.ttf", "a.ttf2", "b.otf", "a", ""] {
            v.push(Op::Rem(g, n));
        }
        v.push(Op::Bin(g, "b", &[0, 0, 1]));
        if small {
            continue;
        }
        for n in ["a.ttf", "", " a", "a\nb", "[x]", "a b.ttf"] {
            v.push(Op::Add(g, n, &["begin 644 a", "M1", "end"]));
            v.push(Op::Add(g, n, &[]));
        }
        for d in [&["fontname: z"][..], &["filename: z"][..], &["[x]"], &["[x"], &["a\nb"], &[""], &["M1", " "], &["  M"]] {
            if (d[0] == "fontname: z" && g) || (d[0] == "filename: z" && !g) {
                continue;
            }
            v.push(Op::Add(g, "c", d));
        }
        v.push(Op::Bin(g, "b c.ttf", &[1, 2, 3, 4]));
        v.push(Op::Bin(g, "", &[1]));
        v.push(Op::Bin(g, "b", &[]));
    }
    v
}

pub fn e08(r: &Run) {
    r.rule("every document of up to the stated number of lines (headers of script info, fonts, graphics and another section, properties, entries and data whose names are prefixes or parts of one another, comments, blanks) with LF or CRLF and with or without a last line break; on it every command with every argument, and sequences of commands on the smaller documents; text, result and every reading are compared with a list of lines, and embedded bytes with what they decode to");
    r.assume("data lines that belong to no entry are left out: an entry added in front of them would take them over");
    let docs = |max: usize, depth: usize, name: &str| {
        r.stage(name, seq_count(ITEMS, max) * 4, |i| {
            let Some(mut m) = doc_at(i / 4) else { return Ok(()) };
            // (an empty line without a line break is no line)
            if i % 4 != 0 && m.l.last().map_or(true, |l| i % 4 >= 2 && l.text.is_empty()) {
                return Ok(());
            }
            let n = m.l.len();
            for (k, l) in m.l.iter_mut().enumerate() {
                l.nl = if i % 2 == 1 { "\r\n" } else { "\n" };
                if k + 1 == n && i % 4 >= 2 {
                    l.nl = "";
                }
            }
            let t = m.text();
            r.state(&t);
            let all = ops(depth > 1);
            let mut count = 0;
            for c in 0..(all.len() as u64).pow(depth as u32) {
                let mut doc = EditorDocument::from_content(&t).map_err(|e| e.to_string())?;
                let mut at = m.clone();
                let mut c = c;
                for k in 0..depth {
                    let op = &all[(c % all.len() as u64) as usize];
                    c /= all.len() as u64;
                    at = step(&mut doc, &at, op, (i + c + k as u64) % 2 == 0)?;
                    count += 1;
                }
            }
            r.steps(count);
            r.traces(count);
            Ok(())
        });
    };
    docs(r.pick(4, 5), 1, "single");
    docs(r.pick(2, 3), 2, "pairs");
    if r.thorough() {
        docs(1, 3, "triples");
    }
    // embedded bytes
    let decode = |data: &[u8], g: bool| -> Result<(), String> {
        let mut doc = EditorDocument::from_content("[Script Info]\nTitle: x\n").unwrap();
        let added = if g { doc.graphics().add_binary("a b", data).map(|_| ()) } else { doc.fonts().add_binary("a b", data).map(|_| ()) };
        added.map_err(|e| e.to_string())?;
        let text = doc.text();
        let script = Script::parse(&text).map_err(|e| e.to_string())?;
        for s in script.sections() {
            let got = match s {
                Section::Fonts(v) => decode_uu_data(v[0].data_lines.iter().copied()),
                Section::Graphics(v) => decode_uu_data(v[0].data_lines.iter().copied()),
                _ => continue,
            };
            return if got.as_deref().ok() == Some(data) { Ok(()) } else { Err(format!("{data:?} written as {text:?} reads as {got:?}")) };
        }
        Err(format!("no embedded file in {text:?}"))
    };
    r.stage("lengths", 300 * 6, |i| {
        let n = (i / 6) as usize;
        let data: Vec<u8> = (0..n).map(|k| match i % 6 {
            0 => 0,
            1 => 255,
            2 => k as u8,
            3 => (k % 2 * 255) as u8,
            4 => (k % 3 == 2) as u8,
            _ => if k + 1 == n { 1 } else { 0 },
        }).collect();
        r.steps(1);
        decode(&data, i % 2 == 1)
    });
    let tail = r.pick(4096u64, 65536);
    r.stage("tails", tail * 4, |i| {
        let v = if r.thorough() { (i / 4) as u16 } else { (i / 4) as u16 * 16 + 1 };
        // two free bytes at every place of a group, and alone
        let data: Vec<u8> = match i % 4 {
            0 => vec![(v >> 8) as u8, v as u8],
            1 => vec![(v >> 8) as u8, v as u8, 0],
            2 => vec![0, (v >> 8) as u8, v as u8],
            _ => {
                let mut d = vec![9; 45 + 25];
                d.extend([(v >> 8) as u8, v as u8]);
                d
            }
        };
        r.steps(1);
        decode(&data, i % 2 == 1)
    });
}
