//! C04: partial re-parse.
use crate::parse::{check_zero_copy, observe};
use crate::refparse::RSec;
use ass_core::parser::incremental::{adjust_range_for_change, calculate_line_number, calculate_line_range, TextChange};
use ass_core::parser::{calculate_delta, Script};
use mc_common::*;

const DOCS: [&str; 14] = [
    "[Script Info]\nTitle: A\n\n[Events]\nFormat: Start, Text\nDialogue: 1,a\n",
    "[Events]\nFormat: Text\nDialogue: a\n[Events]\nDialogue: b,c,d,e,f,g,h,i,j,k\n",
    "[V4 Styles]\nFormat: Name\nStyle: x\nStyle: y\n\n[Script Info]\nA:b",
    "[Fonts]\nfontname: f\nAB\n\n[Graphics]\nfilename: g\nCD\n[Fonts]\nfontname: h\nEF\n",
    "[Script Info]\r\nT: \u{e9}\r\n[Unknown]\r\nx\r\n[Script Info]\r\nU: v\r\n",
    "junk\n[V4+ Styles]\nFormat: Name, Bold\n; c\nStyle: x,1\nStyle: *x,y,0\nbad\n",
    "\u{feff}[Events]\nFormat: Text, Layer\nComment: \u{3bb},1\nSound: a,b,c\n",
    "[Events]\nFormat: Text\n[Script Info]\nScriptType: v4.00\n[V4++ Styles]\nFormat: Name\nStyle: q\n",
    "",
    "[Events]\n",
    "[Graphics]\nfilename: a\n[1\nfilename: b\n\n[Events]\n[Events]\nFormat: Text\nDialogue: z\n[Events]\nFormat: Text\nDialogue: z\n",
    "[V4+ Styles]\nFormat: Name\nStyle: a\n[V4+ Styles]\nFormat: Name\nStyle: a\n[Events]\nFormat: Text\nComment: a\n",
    "[Script Info]\n[Script Info]\nA:1\n[Events]\nFormat: Text\nDialogue:b\n[Script Info]\nA:2\n",
    "[Fonts]\nfontname: a\nXX\nYY\n[Script Info]\nA:1\nA:1\n",
];
const REPL: [&str; 18] = [
    "", "x", "\n", ",", ":", "[", "]", "[Events]", "\n[Events]\n", "[Fonts]\n", "Dialogue: q", "\nStyle: w\n", "Format: Text\n", "\u{e9}", ";", "*", "\r\n", "fontname: n\nQQ\n",
];

fn by_kind(secs: &[RSec]) -> Vec<(usize, usize, RSec)> {
    // (kind, occurrence, content without line numbers)
    let mut seen = [0usize; 5];
    secs.iter().map(|s| {
        let mut s = s.clone();
        let k = match &mut s {
            RSec::Info(_) => 0,
            RSec::Styles(v) => { v.iter_mut().for_each(|x| x.line = 0); 1 }
            RSec::Events(v) => { v.iter_mut().for_each(|x| x.line = 0); 2 }
            RSec::Fonts(v) => { v.iter_mut().for_each(|x| x.line = 0); 3 }
            RSec::Graphics(v) => { v.iter_mut().for_each(|x| x.line = 0); 4 }
        };
        let n = seen[k];
        seen[k] += 1;
        (k, n, s)
    }).collect()
}

/// (indices removed, indices modified with new index, new indices added)
fn expect(old: &[RSec], new: &[RSec]) -> (Vec<usize>, Vec<(usize, usize)>, Vec<usize>) {
    let (o, n) = (by_kind(old), by_kind(new));
    let (mut rem, mut modi, mut add) = (vec![], vec![], vec![]);
    for (i, a) in o.iter().enumerate() {
        match n.iter().position(|b| b.0 == a.0 && b.1 == a.1) {
            None => rem.push(i),
            Some(j) if n[j].2 != a.2 => modi.push((i, j)),
            _ => {}
        }
    }
    for (j, b) in n.iter().enumerate() {
        if !o.iter().any(|a| b.0 == a.0 && b.1 == a.1) {
            add.push(j);
        }
    }
    (rem, modi, add)
}

fn edit(run: &Run, src: &str, a: usize, b: usize, rep: &str) -> Result<(), String> {
    let ctx = |e: String| format!("source {src:?}, replace {a}..{b} by {rep:?}: {e}");
    let old = Script::parse(src).unwrap();
    let text = format!("{}{}{}", &src[..a], rep, &src[b..]);
    let new = Script::parse(&text).unwrap();
    let (oo, on) = (observe(&old), observe(&new));
    let (rem, modi, add) = expect(&oo.secs, &on.secs);
    let d = guard(|| old.parse_partial(a..b, rep)).map_err(|p| ctx(format!("panic {p}")))?.map_err(|e| ctx(e.to_string()))?;
    let show = |j: &usize| format!("{:?}", new.sections()[*j]);
    if d.removed != rem {
        return Err(ctx(format!("removed {:?}, expected {rem:?}", d.removed)));
    }
    let wm: Vec<(usize, String)> = modi.iter().map(|(i, j)| (*i, show(j))).collect();
    if d.modified != wm {
        return Err(ctx(format!("modified {:?}\nexpected {wm:?}", d.modified)));
    }
    let wa: Vec<String> = add.iter().map(show).collect();
    if d.added != wa {
        return Err(ctx(format!("added {:?}\nexpected {wa:?}", d.added)));
    }
    if d.new_issues != new.issues() {
        return Err(ctx(format!("issues {:?}\nexpected {:?}", d.new_issues, new.issues())));
    }
    // borrowed delta between the two parses, both ways
    for (x, y, ox, oy) in [(&old, &new, &oo, &on), (&new, &old, &on, &oo)] {
        let d = calculate_delta(x, y);
        let (rem, modi, add) = expect(&ox.secs, &oy.secs);
        let wm: Vec<_> = modi.iter().map(|(i, j)| (*i, y.sections()[*j].clone())).collect();
        let wa: Vec<_> = add.iter().map(|j| y.sections()[*j].clone()).collect();
        if d.removed != rem || d.modified != wm || d.added != wa || d.new_issues != y.issues() {
            return Err(ctx(format!("calculate_delta gives {d:?}\nexpected removed {rem:?} modified {wm:?} added {wa:?}")));
        }
        if d.is_empty() != (rem.is_empty() && wm.is_empty() && wa.is_empty() && y.issues().is_empty()) {
            return Err(ctx("is_empty".into()));
        }
    }
    let change = TextChange { range: a..b, new_text: rep.to_string(), line_range: calculate_line_range(src, a..b) };
    let line = |p: usize| 1 + src[..p].matches('\n').count() as u32;
    // the repository's own tests pin a start of 0 for an edit at the very end
    let first = if a == src.len() { 0 } else { line(a) };
    if change.line_range != (first..line(b)) || calculate_line_number(src, a) != line(a) {
        return Err(ctx(format!("line range {:?}, expected {:?}", change.line_range, first..line(b))));
    }
    let inc = guard(|| old.parse_incremental(&text, &change).map(|s| (check_zero_copy(&text, &s), observe(&s), s.sections().to_vec(), s.issues().to_vec())))
        .map_err(|p| ctx(format!("panic {p}")))?.map_err(|e| ctx(e.to_string()))?;
    inc.0.map_err(|e| ctx(format!("incremental: {e}")))?;
    if inc.1 != on || inc.2 != new.sections() || inc.3 != new.issues() {
        return Err(ctx(format!("incremental parse {:?}\nfull parse {on:?}", inc.1)));
    }
    run.state(&(oo.secs, on.secs));
    run.steps(4);
    Ok(())
}

pub fn c04(run: &Run) {
    run.rule("every replacement of every character range of 14 multi-section documents by every one of 18 texts (thorough: every pair of documents for the delta as well); a state is a distinct (old, new) pair of section lists");
    run.assume("ranges lie on character boundaries inside the source");
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (d, s) in DOCS.iter().enumerate() {
        let bs: Vec<usize> = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect();
        for &a in &bs {
            for &b in bs.iter().filter(|&&b| b >= a) {
                cases.push((d, a, b));
            }
        }
    }
    cases.sort_by_key(|c| c.2 - c.1);
    run.sample(format!("{:?} replaced in {:?} by {:?}", 3..9, DOCS[1], REPL[8]));
    run.stage("edits", cases.len() as u64 * REPL.len() as u64, |i| {
        let (d, a, b) = cases[(i / REPL.len() as u64) as usize];
        edit(run, DOCS[d], a, b, REPL[(i % REPL.len() as u64) as usize])
    });
    // a whole document becomes any other document
    let n = DOCS.len();
    run.stage("documents", (n * n) as u64, |i| edit(run, DOCS[i as usize / n], 0, DOCS[i as usize / n].len(), DOCS[i as usize % n]));
    // documents made of small sections: every pair of section lists
    const SECS: [&str; 8] = ["[Script Info]\nA:1\n", "[Script Info]\nA:2\n", "[Events]\nFormat: Text\nDialogue: a\n", "[Events]\nFormat: Text\nDialogue: b\n", "[V4+ Styles]\nFormat: Name\nStyle: a\n", "[Fonts]\nfontname: a\nXX\n", "[Graphics]\nfilename: a\nXX\n", "[Graphics]\nfilename: a\nXY\n"];
    let depth = run.pick(3, 4);
    let m = seq_count(SECS.len(), depth);
    run.stage("section-lists", m * m, |i| {
        let (a, b) = (string_at(&SECS, i / m), string_at(&SECS, i % m));
        edit(run, &a, 0, a.len(), &b)
    });
    // every single field of an entry is part of the comparison
    let style: Vec<String> = (0..26).map(|i| format!("v{i}")).collect();
    let sfmt = crate::refparse::STYLE_COLUMNS.join(",");
    let efmt = "Layer,Start,End,Style,Name,MarginL,MarginR,MarginV,MarginT,MarginB,Effect,Text";
    run.stage("fields", 26 + 12 + 8, |i| {
        let i = i as usize;
        let mk = |alt: Option<usize>| {
            let mut st = style.clone();
            let mut ev: Vec<String> = (0..12).map(|i| format!("w{i}")).collect();
            let (mut kind, mut parent, mut f, mut g) = ("Dialogue", "P", ["n", "AA", "BB"], ["n", "AA", "BB"]);
            match alt {
                Some(k) if k < 26 => st[k] = "z".into(),
                Some(k) if k < 38 => ev[k - 26] = "z".into(),
                Some(38) => kind = "Comment",
                Some(39) => parent = "Q",
                Some(k) if k < 43 => f[k - 40] = "z",
                Some(k) => g[k - 43] = "z",
                None => {}
            }
            format!("[V4+ Styles]\nFormat: {sfmt}\nStyle: *{parent},{}\n[Events]\nFormat: {efmt}\n{kind}: {}\n[Fonts]\nfontname: {}\n{}\n{}\n[Graphics]\nfilename: {}\n{}\n{}\n", st.join(","), ev.join(","), f[0], f[1], f[2], g[0], g[1], g[2])
        };
        let (a, b) = (mk(None), mk(Some(i)));
        edit(run, &a, 0, a.len(), &b)
    });
    // moving ranges across a change
    let m = 6usize;
    run.stage("ranges", (m as u64).pow(5), |i| {
        let v = mixed(&[m, m, m, m, m], i);
        let (r, c, len) = (v[0]..v[0] + v[1], v[2]..v[2] + v[3], v[4]);
        let ch = TextChange { range: c.clone(), new_text: "x".repeat(len), line_range: 1..1 };
        let got = guard(|| adjust_range_for_change(r.clone(), &ch)).map_err(|p| format!("range {r:?} change {c:?} -> {len}: panic {p}"))?;
        let want = if c.end <= r.start {
            r.start + len - c.len()..r.end + len - c.len()
        } else if c.start >= r.end {
            r.clone()
        } else {
            // an overlapping change becomes part of the range
            r.start.min(c.start)..if c.end >= r.end { c.start + len } else { r.end + len - c.len() }
        };
        run.state(&(1, &got.start, &got.end));
        if got != want {
            return Err(format!("range {r:?}, change {c:?} to length {len}: {got:?}, expected {want:?}"));
        }
        Ok(())
    });
}
